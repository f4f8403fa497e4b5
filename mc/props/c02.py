# -*- coding: utf-8 -*-
"""C02 a time window holds the events that start in it, and no others"""
from __future__ import absolute_import, division, print_function

from core import check, product, same, sequences, suite
from lib import (EPS, VARIED, corpus, evs, kinds, ladder, meta, near, not_shared, pattern, same_bag, snap, varied,
                 varied_pattern)

KINDS = kinds((0, 0.5, 1.25, 2, 3), (0.25, 1, 2.5), ((60, "k"), (62, ("a", "b"))))


def window(events, start, length, trim):
    res = []
    for s, d, pitch, vel, tag in events:
        if start <= s < start + length:
            res.append((s - start, min(d, length - (s - start)) if trim else d, pitch, vel, tag))
    return res


def check_slice(ctx, p, start, length, trim, before=None):
    before = before or snap(p)
    got = p.patternFromTimeSlice(start, length) if trim is None else p.patternFromTimeSlice(start, length, trim)
    ctx.op()
    trim = trim is None or trim
    what = "patternFromTimeSlice(%r, %r, trimEnd=%r) of %r" % (start, length, trim, before[0])
    same_bag(evs(got), window(before[0], start, length, trim), what, EPS)
    check(near(got.startTime, start) and near(got.duration, length), "%s: start %r, duration %r",
          what, got.startTime, got.duration)
    same(meta(got, ("duration", "startTime")), meta(p, ("duration", "startTime")), what + ": other fields")
    same(snap(p), before, what + ": the original changed")
    not_shared(p.events, got.events, what)
    return got


@suite("small", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 2)),
       bounds="all sequences of 0..2 events of 30 kinds, 8 starts and 6 lengths of the window, trimmed or not")
def small(ctx, case):
    p = pattern(case, 6, name="p", bpm=97.5, key="Am", timeSignature=(3, 4), startTime=2, originFilePath="x.mid")
    p.resolution = 480
    before = snap(p)
    for start, length in product((-1, 0, 0.5, 1, 1.25, 3, 6, 9.5), (0.25, 0.5, 1, 2, 3.5, 10)):
        for trim in (None, False):
            check_slice(ctx, p, start, length, trim, before)


@suite("three", lambda sc: sequences(kinds((0, 0.5, 1.5), (0.5, 2), ((60, "k"), (60, "s"))), 3, 3)
       if sc.level else sequences(kinds((0, 1.5), (0.5, 2), ((60, "k"),)), 3, 3),
       bounds="all sequences of 3 events of 12 kinds")
def three(ctx, case):
    p = pattern(case, 4)
    for start, length in ((0, 0.5), (0.5, 1), (0, 1.5), (1, 4)):
        for trim in (True, False):
            check_slice(ctx, p, start, length, trim)


def gen_tiles(sc):
    for n in (1, 3, 8, 33) + ((150,) if sc.level else ()):
        for step in (0.5, 0.3, 1 / 3.0):
            for length in (0.5, 0.75, 1, 2, 4.5, 7, 1.1, 0.7):
                yield (n, step, length)


@suite("tiles", gen_tiles,
       bounds="consecutive windows over regular patterns of up to 150 events, also of lengths that are not exact in "
              "binary: each event starts in exactly one of them")
def tiles(ctx, case):
    n, step, length = case
    events = [(t[0] + 0.01,) + t[1:] for t in ladder(n, step=step, dur=1.7)]
    total = max(t[0] + t[1] for t in events)
    p = pattern(events, total, name="tiles")
    found, i, before = [], 0, snap(p)
    while i * length < total:
        got = check_slice(ctx, p, i * length, length, False, before)
        found += [(t[0] + i * length,) + t[1:] for t in evs(got)]
        i += 1
    same_bag(found, events, "windows of %r" % length, EPS)


@suite("viewpoints", lambda sc: sequences(KINDS, 1, 1), bounds="patterns with viewpoints, and with events of viewpoints")
def viewpoints(ctx, case):
    p = pattern(case, 6, name="p")
    p.viewpoints["v"] = pattern(case, 6, name="v")
    before = snap(p)
    got = check_slice(ctx, p, 0, 4, True, before)
    for e in got.events:
        e.startTime, e.pitch = 77, 1
    got.bpm = 3
    same(snap(p), before, "a change of the slice reached the original")


@suite("corpus", lambda sc: corpus("drums", "*.mid")[:sc.pick(1, 3, 20)], bounds="files of the drum corpus")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case)
    p.events = p.events[:150]
    found, i, before = [], 0, snap(p)
    last = max(e.startTime for e in p.events)
    while i * 2.5 <= last:
        found += [(t[0] + i * 2.5,) + t[1:] for t in evs(check_slice(ctx, p, i * 2.5, 2.5, False, before))]
        i += 1
    same_bag(found, before[0], "windows of " + case, EPS)


@suite("varied", varied, bounds=VARIED + ", windows that begin and end on, before and after onsets")
def of_the_family(ctx, case):
    p = varied_pattern(case, 1)
    p.viewpoints["v"] = pattern(evs(p)[:1], 3)
    before = snap(p)
    starts = sorted(t[0] for t in before[0])
    for start in (0, starts[len(starts) // 2], starts[-1], starts[1] + 0.001):
        for length in (0.25, 2, 9.5, 2000):
            # where rounding decides on which side of the end an onset is, both answers are right
            if not any(0 < abs(t - start - length) < 1e-9 or 0 < abs(t - start) < 1e-9 for t in starts) and (
                    start * 4096 % 1 == 0 or not any(near(t, start + length) for t in starts)):
                for trim in (None, False):
                    check_slice(ctx, p, start, length, trim, before)
