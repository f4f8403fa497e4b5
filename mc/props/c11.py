# -*- coding: utf-8 -*-
"""C11 what sounds and what starts at a time agrees with the intervals of the events"""
from __future__ import absolute_import, division, print_function

from core import check, product, same, sequences, suite
from lib import EPS, VARIED, bag, corpus, event, evs, kinds, ladder, near, pattern, snap, tup, varied, varied_pattern

KINDS = kinds((0, 0.5, 2, -1), (0.5, 1.5, 3), ((60, "k"), (60, ("a", "b"))))


def check_times(ctx, p, times, tolerances=(0, 0.25, 1)):
    before = snap(p)
    for t in times:
        what = "at %r of %r" % (t, before[0])
        got = p.activeEventsAtTime(t)
        want = [e for e in p.events if e.startTime <= t < e.startTime + e.duration]
        same([id(e) for e in got], [id(e) for e in want], "activeEventsAtTime " + what)
        same([id(e) for e in p.events if e.containsTime(t)], [id(e) for e in want], "containsTime " + what)
        got = p.getStartingEventsAtTime(t)
        same([id(e) for e in got], [id(e) for e in p.events if e.startTime == t], "getStartingEventsAtTime " + what)
        for tolerance in tolerances:
            got = p.getStartingEventsAtTime(t, tolerance)
            same([id(e) for e in got], [id(e) for e in p.events if e.startTime <= t <= e.startTime + tolerance],
                 "getStartingEventsAtTime %s, tolerance %r" % (what, tolerance))
        ctx.op(3 + len(tolerances))
    same(snap(p), before, "the queries changed the pattern")


@suite("small", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 3)) if sc.level else sequences(KINDS[:12], 0, 1),
       bounds="all sequences of 0..2 (thorough: 3) events of 24 kinds, at every eighth of a beat")
def small(ctx, case):
    for duration in (4, 0.25):
        check_times(ctx, pattern(case, duration), [i / 8.0 for i in range(-10, 44)] if len(case) < 3 else
                    [i / 4.0 for i in range(-4, 20)], (0, 0.25, 1) if duration == 4 else ())


@suite("wide", lambda sc: [(n, d) for n in (5, 30, 120) for d in (0.25, 0.75, 4, 33)],
       bounds="regular patterns of up to 120 events; each instant of an event belongs to it")
def wide(ctx, case):
    n, dur = case
    events = ladder(n, dur=dur)
    for order in (1, -1):
        p = pattern(events[::order], n)
        check_times(ctx, p, sorted(set(t[0] + x for t in events[:40] for x in (0, dur, dur / 2))), (0, 0.5))


def gen_cut(sc):
    for start in (0, 0.5, 3.25):
        for i in range(1, sc.pick(12, 40, 160)):
            for step in (0.25, 0.5, 1, 1.5, 3):
                yield (start, i / 4.0, step)
        for step in (0.1, 1 / 3.0, 0.7):
            for n in range(1, sc.pick(6, 30, 120)):
                yield (start, (n + 0.4) * step, step)


@suite("cut", gen_cut,
       bounds="cutInSteps of all durations of up to 10 (thorough: 40) beats in 5 exact steps, and in inexact ones")
def cut(ctx, case):
    start, duration, step = case
    e = event((start, duration, 61, 70, ("a", "b")))
    before = tup(e)
    got = e.cutInSteps(step)
    ctx.op()
    what = "cutInSteps(%r) of %r" % (step, before)
    n = max(1, int(duration / step))
    same(len(got), n, what + ": pieces")
    for i, piece in enumerate(got):
        check(near(piece.startTime, start + i * step) and near(piece.duration, step), "%s: %r", what, tup(piece))
        same((piece.pitch, piece.velocity, piece.tag), (61, 70, ("a", "b")), what + ": other fields")
        check(piece is not e, "%s: the event itself", what)
        piece.pitch, piece.startTime = 1, 99
    same(tup(e), before, what + ": the event changed")
    same(sum(1 for p in got if p.startTime == 99), n, what + ": shared pieces")


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(1, 3, 20)],
       bounds="files of the drum and harmony corpora")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case)
    p.events = p.events[:60]
    times = set(x for t in evs(p) for x in (t[0], t[0] + t[1], t[0] + t[1] / 2))
    ends = [t[0] + t[1] for t in evs(p)]
    # where rounding decides what comes first, both answers are right
    times = [t for t in times if t * 4096 % 1 == 0 or not any(abs(t - e) < 1e-9 for e in ends)]
    check_times(ctx, p, sorted(t for t in times if not any(0 < abs(t - e.startTime) < 1e-9 for e in p.events)), (0,))


@suite("varied", lambda sc: varied(sc, comb=2), bounds=VARIED + ", at, before and after onsets and ends of events")
def of_the_family(ctx, case):
    p = varied_pattern(case)
    p.viewpoints["v"] = pattern(evs(p)[:2], 3)
    events = evs(p)
    some = events[:4] + events[-2:]
    times = set(x for t in some for x in (t[0], t[0] + t[1], t[0] + t[1] / 2, t[0] + t[1] - 2.0 ** -24, t[0] + t[1] - 0.0004, t[0] - 0.0004))
    ends = [t[0] + t[1] for t in events]
    # where rounding decides what comes first, both answers are right
    times = [t for t in times if not any(0 < abs(t - s[0]) < 1e-9 for s in events)]
    times = [t for t in times if t * 2 ** 26 % 1 == 0 or not any(abs(t - e) < 1e-9 for e in ends)]
    check_times(ctx, p, sorted(times), (0,))
