# -*- coding: utf-8 -*-
"""C07 the duration of a pattern follows its events, through any history of additions and removals"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, product, same, sequences, suite
from lib import (VARIED, Pattern, bag, end, event, evs, kinds, ladder, meta, pattern, same_bag, snap, varied,
                 varied_pattern)

A = (0, 1, 60, 80, "k")
B = (1, 0.5, 62, 70, "s")
C = (0.5, 3, 64, 60, ("a", "b"))
D = (2, 2.5, 60, 80, "k")
OPS = [("addEvent", A), ("addEvent", B), ("addEvent", C), ("addEvent", D), ("removeEvent", A), ("removeEvent", C),
       ("removeByTags", ("k",)), ("removeByTags", ("a", "s")), ("durationToLastEvent",),
       ("durationToLastEvent", False), ("durationToBar",), ("timeStretch", 2), ("reorderEvents",)]


def check_queries(p):
    """what can be asked about the duration agrees with the events"""
    events = evs(p)
    before = bag(p)
    want = max(end(t) for t in events) if events else None
    same(p.lastNoteOff(), want, "lastNoteOff of %r" % (events,))
    same(bag(p), before, "lastNoteOff changed the events")
    same(len(p), len(events), "len")
    for i, e in enumerate(p.events):
        check(p[i] is e, "item %d", i)


@suite("histories", lambda sc: sequences(OPS[:8] if not sc.level else OPS, 1, sc.pick(3, 4, 5)),
       bounds="all histories of 1..4 (thorough: 5) of 13 operations from an empty pattern, in 4/4 (3/4 in others)")
def histories(ctx, case):
    p = Pattern(timeSignature=(3, 4) if len(case) % 2 else (4, 4))
    lastAdd = None
    for op in case:
        ops.step(p, op)
        ctx.op()
        if op[0] == "addEvent":
            check(all(end(t) <= p.duration for t in evs(p)), "an event ends after the pattern")
        elif op[0] == "durationToBar":
            n = p.timeSignature[0]
            check(p.duration % n == 0, "%r is no number of bars of %r", p.duration, n)
    check_queries(p)


def gen_states(sc):
    for case in sequences(kinds((0, 0.5, 2), (0.5, 1, 4), ((60, "k"), (60, "s"))), 0, sc.pick(1, 2, 3)):
        for duration in (0, 1, 3.25, 8):
            yield (case, duration)


@suite("states", gen_states,
       bounds="each operation on all patterns of 0..2 (thorough: 3) events of 18 kinds, of 4 durations, in 3 meters")
def states(ctx, case):
    events, duration = case
    for sig in ((4, 4), (3, 4), (7, 4)):
        for op in OPS:
            p = pattern(events, duration, timeSignature=sig, name="p")
            check_queries(p)
            ops.step(p, op)
            ctx.op()
            check_queries(p)
            if op[0].startswith("durationTo"):
                once = snap(p)
                ops.step(p, op)
                same(snap(p), once, "%s again" % op[0])
                ctx.op()


@suite("bars", lambda sc: [(i,) for i in range(sc.pick(40, 200, 800))],
       bounds="durations of 0..100 (thorough: 400) beats by half beats, bars of 1..9 beats")
def bars(ctx, case):
    for duration in (case[0] / 2.0, case[0] / 2.0 + 0.125, case[0] / 2.0 + 2.0 ** -13, case[0] + 1 - 2.0 ** -13, case[0] + 2.0 ** -20):
        for n in range(1, 10):
            p = Pattern(duration=duration, timeSignature=(n, 4))
            ops.step(p, ("durationToBar",))
            ctx.op()
            check(p.duration % n == 0 and duration <= p.duration < duration + n, "bars of %d: %r for %r",
                  n, p.duration, duration)


@suite("wide", lambda sc: [(n, d) for n in (3, 20, 100) for d in (0.1, 1, 7.5, 1000)],
       bounds="regular patterns of up to 100 events, built in and against time order")
def wide(ctx, case):
    n, dur = case
    for order in (1, -1):
        p = Pattern()
        for t in ladder(n, dur=dur)[::order]:
            ops.step(p, ("addEvent", t))
            ctx.op()
        check_queries(p)
        first = p.events[0]
        p[0] = event((500, 1, 1, 1, "x"))
        check(p.events[0] is not first and len(p) == n, "item assignment")
        ops.step(p, ("durationToLastEvent",))
        ops.step(p, ("durationToLastEvent", False))
        ctx.op(2)
        for tag in ("k", "s"):
            ops.step(p, ("removeByTags", (tag,)))
            ops.step(p, ("durationToLastEvent", False))
            ctx.op(2)


@suite("varied", varied, bounds=VARIED + ", built event by event, in other meters, and some of it removed again")
def of_the_family(ctx, case):
    p = varied_pattern(case, 0)
    events = evs(p)
    p.viewpoints["v"] = pattern(events[:2], 3)
    check_queries(p)
    del p.events[:]
    p.duration = 0
    for t in events:
        if case[0] < 20:
            ops.step(p, ("addEvent", t))
            ctx.op()
        else:
            p.addEvent(event(t))
    same_bag(evs(p), events, "the events added")
    same(p.duration, max(end(t) for t in events), "duration of the events added")
    check_queries(p)
    for extra in (0, 0.0015, 7):
        p.duration += extra
        for op in (("durationToLastEvent",), ("durationToLastEvent", False), ("durationToBar",)):
            ops.step(p, op)
            ctx.op()
    for t in events[:3]:
        ops.step(p, ("removeEvent", t))
    ops.step(p, ("durationToLastEvent", False))
    ops.step(p, ("removeByTags", (events[0][4], "k", 1)))
    ops.step(p, ("durationToLastEvent", False))
    ops.step(p, ("addEvent", (0.25, p.duration - 0.2495, 127, 0, "last")))
    check_queries(p)
    ctx.op(6)
