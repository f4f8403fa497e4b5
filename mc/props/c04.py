# -*- coding: utf-8 -*-
"""C04 filling with silences covers exactly the gaps, and keeps every event once"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, product, same, sequences, suite
from lib import (EPS, VARIED, bag, corpus, evs, kinds, ladder, meta, near, not_shared, pattern, same_bag, snap,
                 varied, varied_pattern)

KINDS = kinds((0, 0.5, 1, 2.25), (0.5, 1, 2), ((60, "k"), (62, "s")))
MAX = (0, 0.5, 1, 1.25, 3)


def check_fill(ctx, events, duration, maxSilence=0, perTag=False, tag="silence", pitch=0, eps=0):
    return check_pattern(ctx, pattern(events, duration, name="p"), maxSilence, perTag, tag, pitch, eps)


def check_pattern(ctx, p, maxSilence=0, perTag=False, tag="silence", pitch=0, eps=0):
    events, objects = evs(p), list(p.events)
    if eps:  # the silences may differ by rounding errors
        before = ops.State(p)
        p.fillWithSilences(maxSilence, perTag, tag, pitch)
        ops.silences(before, ops.State(p), p, "fillWithSilences(%r, %r) of %r" % (maxSilence, perTag, before),
                     maxSilence, perTag, tag, pitch, eps)
    else:
        ops.step(p, ("fillWithSilences", maxSilence, perTag, tag, pitch))
    ctx.op()
    left = set(map(id, p.events))
    check(all(id(e) in left for e in objects),
          "fillWithSilences(%r, %r) replaced events of %r", maxSilence, perTag, events)
    if not perTag and not eps:
        filled = snap(p)
        p.fillWithSilences(maxSilence, False, tag, pitch)
        same(snap(p), filled, "filling again changed %r" % (filled[0],))
        ctx.op()
    return p


@suite("small", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 2)),
       bounds="all sequences of 0..2 events of 24 kinds, in every order, 5 longest silences, globally and per tag")
def small(ctx, case):
    for maxSilence, perTag in product(MAX, (False, True)):
        check_fill(ctx, case, 4, maxSilence, perTag)
    check_fill(ctx, case, 4, 1, False, "none", 35)
    check_fill(ctx, case, 4, 0, True, "none", 35)
    check_fill(ctx, case, 4, 0.75, True, ("sil", "ence"), 1)


@suite("three", lambda sc: sequences(kinds((0, 0.5, 1.5), (0.5, 2), ((60, "k"), (60, ("a", "b")))), 3, 3)
       if sc.level else sequences(kinds((0, 1.5), (0.5, 2), ((60, "k"),)), 3, 3),
       bounds="all sequences of 3 events of 12 kinds")
def three(ctx, case):
    for maxSilence, perTag in product((0, 1), (False, True)):
        check_fill(ctx, case, 4, maxSilence, perTag)


@suite("copy", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 2)) if sc.level else sequences(KINDS[:8], 0, 1),
       bounds="getFilledWithSilences of all sequences of 0..2 events, which leaves the original as it was")
def filled_copy(ctx, case):
    for maxSilence, perTag in product((0, 1), (False, True)):
        p = pattern(case, 4, name="p", bpm=99.5, key="Am", timeSignature=(3, 4), startTime=2, originFilePath="x")
        p.viewpoints["v"] = pattern(case[:1], 4)
        before = snap(p)
        q = p.getFilledWithSilences(maxSilence, perTag) if perTag else p.getFilledWithSilences(maxSilence)
        ctx.op()
        what = "getFilledWithSilences(%r, %r) of %r" % (maxSilence, perTag, case)
        same(snap(p), before, what + ": the original changed")
        not_shared(p.events, q.events, what)
        b = pattern(case, 4)
        b.fillWithSilences(maxSilence, perTag)
        same_bag(evs(q), evs(b), what)
        same(meta(q), meta(p), what + ": other fields")
        same(sorted(q.viewpoints), ["v"], what + ": viewpoints")
        if not maxSilence and not perTag:
            same(evs(p.getFilledWithSilences()), evs(q), what + ", by default")
        r = p.getFilledWithSilences(maxSilence, perTag, "none")
        b = pattern(case, 4)
        b.fillWithSilences(maxSilence, perTag, "none")
        same_bag(evs(r), evs(b), what)


def gen_wide(sc):
    for n in (1, 4, 17, 60) + ((200,) if sc.level else ()):
        for dur, step in ((0.25, 0.5), (0.5, 0.5), (0.5, 3), (2, 3)):
            for perTag in (False, True):
                yield ("ladder", n, dur, step, perTag)
    for start, total in product((0, 3, 33.5), (40, 101.25)):
        for maxSilence in (0, 0.25, 1, 1.5, 16):
            yield ("hole", start, total, maxSilence)
    for start, total in product((0, 1, 2.3), (4, 7.7)):
        for maxSilence in (0.1, 0.3, 1 / 3.0, 0.7, 1.1):
            for perTag in (False, True):
                yield ("inexact", start, total, maxSilence, perTag)


@suite("wide", gen_wide,
       bounds="regular patterns of up to 200 events; holes of up to 400 pieces; pieces that are not exact in binary")
def wide(ctx, case):
    if case[0] == "ladder":
        _, n, dur, step, perTag = case
        for order in (1, -1):
            check_fill(ctx, ladder(n, dur=dur, step=step)[::order], n * step + 2.5, 1, perTag)
    elif case[0] == "hole":
        _, start, total, maxSilence = case
        check_fill(ctx, [(start, 1, 60, 80, "k")], total, maxSilence)
        check_fill(ctx, [(start, 1, 60, 80, "k")], total, maxSilence, True)
        check_fill(ctx, [], total, maxSilence)
    else:
        _, start, total, maxSilence, perTag = case
        check_fill(ctx, [(start, 1.05, 60, 80, "k"), (start + 1.2, 0.3, 60, 80, "s")], total, maxSilence, perTag,
                   eps=EPS)


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(2, 6, 40)],
       bounds="files of the drum and harmony corpora")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case)
    events = evs(p)[:150]
    for maxSilence, perTag in ((0, False), (0, True)):
        check_fill(ctx, events, p.duration, maxSilence, perTag)


@suite("varied", varied, bounds=VARIED + ", also with the tag of the silences among them, and odd tags of silences")
def of_the_family(ctx, case):
    for maxSilence, perTag, extra in ((0, False, 0), (0, True, 1), (1.5, True, 2.25), (0.7, False, 2.25)):
        if maxSilence and case[1] in ("far", "gap") and case[0] > 3:
            maxSilence = 512.5
        check_pattern(ctx, varied_pattern(case, extra), maxSilence, perTag, eps=EPS)
    for tag in ("", 0, (), ("no", "thing"), None, "k"):
        p = varied_pattern(case, 1)
        if tag not in [e.tag for e in p.events]:
            check_pattern(ctx, p, 0, False, tag, 127, eps=EPS)
    p = varied_pattern(case, 3)
    p.viewpoints["v"] = pattern(evs(p)[:2], 3)
    for maxSilence in (0, 1.6):
        before = ops.State(p)
        q = p.getFilledWithSilences(maxSilence)
        ctx.op()
        ops.keeps(before, ops.State(p), "getFilledWithSilences")
        same(evs(p), before.evs, "getFilledWithSilences changed the original")
        after = ops.State(q)
        ops.silences(before, after, q, "getFilledWithSilences(%r) of %r" % (maxSilence, before), maxSilence, eps=EPS)


@suite("slivers", lambda sc: product((2.0 ** -4, 2.0 ** -7, 2.0 ** -10, 2.0 ** -14, 2.0 ** -20), (0, 2.0 ** -9, 1)),
       bounds="gaps from a sixteenth to a millionth of a beat at the start, between events and at the end")
def slivers(ctx, case):
    gap, maxSilence = case
    if maxSilence and gap / maxSilence > 40:
        maxSilence = 1
    for k in range(8):
        a = gap if k & 1 else 0
        b = a + 1 + (gap if k & 2 else 0)
        events = [(a, 1, 60, 80, "k"), (b, 0.5, 61, 80, "s")]
        for perTag in (False, True):
            if perTag and maxSilence and maxSilence < 0.1:
                continue
            check_fill(ctx, events, b + 0.5 + (gap if k & 4 else 0), maxSilence, perTag)
            check_fill(ctx, events[::-1], b + 0.5 + (gap if k & 4 else 0), maxSilence, perTag)
