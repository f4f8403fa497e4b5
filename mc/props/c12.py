# -*- coding: utf-8 -*-
"""C12 legato and filling with the previous event leave no gap and shorten no sound beyond the next"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, product, same, sequences, suite
from lib import EPS, VARIED, bag, corpus, evs, gaps, kinds, ladder, pattern, same_bag, snap, varied, varied_pattern

KINDS = kinds((0, 0.5, 1.5, 3), (0.25, 1, 2.5), ((60, "k"), (60, "s"), (62, "k")))
FEW = kinds((0, 0.5, 2), (0.5, 3), ((60, "k"), (61, "s")))
MODES = ((), (True,), (False,))


def ids(p):
    return sorted(id(e) for e in p.events)


def holes(intervals, stop):
    return [(a, b) for a, b in gaps(intervals, stop) if b - a > EPS]


def check_legato(ctx, events, duration, **fields):
    for mode in MODES:
        p = pattern(events, duration, name="p", **fields)
        p.viewpoints["v"] = pattern(events[:1], duration)
        objects = ids(p)
        ops.step(p, ("applyLegato",) + mode)
        what = "applyLegato%r of %r" % (mode, events)
        same(ids(p), objects, what + ": other events")
        byPitch = mode != (False,)
        for voice, left in ops.by_voice(evs(p), 2 if byPitch else 4).items():
            first = min(t[0] for t in left)
            same(holes([(0, first)] + [(t[0], t[0] + t[1]) for t in left], duration), [], what + ": gaps of %r" % (voice,))
        once = evs(p)
        ops.step(p, ("applyLegato",) + mode)
        same_bag(evs(p), once, what + ": again", EPS)
        ctx.op(2)


def check_previous(ctx, events, duration, **fields):
    p = pattern(events, duration, name="p", **fields)
    p.viewpoints["v"] = pattern(events[:1], duration)
    objects = ids(p)
    ops.step(p, ("fillWithPreviousEvent",))
    what = "fillWithPreviousEvent of %r" % (events,)
    same(ids(p), objects, what + ": other events")
    if events:
        first = min(t[0] for t in events)
        same(holes([(0, first)] + [(t[0], t[0] + t[1]) for t in evs(p)], duration), [], what + ": gaps")
    once = evs(p)
    ops.step(p, ("fillWithPreviousEvent",))
    same_bag(evs(p), once, what + ": again", EPS)
    ctx.op(2)


@suite("small", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 2)),
       bounds="all sequences of 0..2 events of 36 kinds, in every order, per pitch and per tag")
def small(ctx, case):
    for duration in (3.25, 4, 5.5):
        check_legato(ctx, case, duration)
        check_previous(ctx, case, duration)


@suite("three", lambda sc: sequences(FEW, 3, 3) if sc.level else sequences(FEW[:6], 3, 3),
       bounds="all sequences of 3 events of 12 kinds")
def three(ctx, case):
    check_legato(ctx, case, 4)
    check_previous(ctx, case, 4)


@suite("four", lambda sc: sequences(kinds((0, 1, 2.5), (0.5,), ((60, "k"), (61, "k"))), 4, sc.pick(4, 4, 5)),
       bounds="all sequences of 4 (thorough: 5) events of 6 kinds", py=(3,))
def four(ctx, case):
    check_legato(ctx, case, 4)
    check_previous(ctx, case, 4)


@suite("wide", lambda sc: [(n, d) for n in (5, 30, 100) for d in (0.1, 0.5, 3)],
       bounds="regular patterns of up to 100 events, tags of several kinds")
def wide(ctx, case):
    n, dur = case
    events = ladder(n, dur=dur, tags=("k", "kick", ("k", "s"), 3))
    for order in (1, -1):
        check_legato(ctx, events[::order], n)
        check_previous(ctx, events[::order], n)


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(2, 4, 40)],
       bounds="files of the drum and harmony corpora")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case)
    events = evs(p)[:120]
    p = pattern(events, p.duration + 8)
    for mode in MODES:
        p = pattern(events, p.duration)
        ops.step(p, ("applyLegato",) + mode)
        ctx.op()
    p = pattern(events, p.duration)
    ops.step(p, ("fillWithPreviousEvent",))
    ctx.op()


@suite("varied", lambda sc: varied(sc, comb=2), bounds=VARIED + ", that end with the last event or later")
def of_the_family(ctx, case):
    p = varied_pattern(case)
    for extra in (0, 1.7):
        check_legato(ctx, evs(p), p.duration + extra, timeSignature=p.timeSignature, bpm=p.bpm, startTime=p.startTime)
        check_previous(ctx, evs(p), p.duration + extra, timeSignature=p.timeSignature, bpm=p.bpm)


@suite("past the end", lambda sc: sequences(FEW if sc.level else FEW[:6], 1, sc.pick(2, 2, 3)),
       bounds="legato of all sequences of 1..2 (thorough: 3) events of 12 kinds in patterns that end before some of them")
def past_the_end(ctx, case):
    for duration in (0, 0.25, 1, 2.5):
        check_legato(ctx, case, duration)


@suite("nested tags", lambda sc: product(*[(("a", "b"), (("a", "b"), "c"), "a", ("a",), "b", "ab", None)] * sc.pick(2, 2, 3)), bounds="legato of the voices of every two (thorough: three) of 7 tags of which one is within another")
def nested_tags(ctx, case):
    events = [(i * 0.5 + j * 1.5, 0.25 + j, 60 + j, 100, tag) for j in range(2) for i, tag in enumerate(case)]
    for es in (events, events[::-1]):
        check_legato(ctx, es, 5)
        check_previous(ctx, es, 5)
