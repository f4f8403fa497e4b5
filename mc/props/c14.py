# -*- coding: utf-8 -*-
"""C14 copies and derived patterns are independent of the pattern they come from"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, product, same, sequences, suite
from lib import (VARIED, Event, Pattern, bag, event, evs, kinds, ladder, meta, not_shared, pattern, snap, tup, varied,
                 varied_pattern)

A = (0, 1, 60, 80, "k")
EDITS = [("removeOverlapped",), ("removeOverlapped", True), ("fillWithSilences", 1), ("fillWithSilences", 0, True),
         ("quantize", 0.5), ("quantize", 1, True, False), ("alignOnGrid", 1), ("alignOnGrid", 0.5, ("k",)),
         ("applyLegato",), ("applyLegato", False), ("fillWithPreviousEvent",), ("timeStretch", 2), ("transpose", 3),
         ("removeByTags", ("k", "a")), ("removeEvent", A), ("addEvent", (1, 7, 50, 80, "new")),
         ("durationToLastEvent", False), ("durationToBar",), ("reorderEvents",)]
DERIVE = {
    "copy": lambda p: [p.copy()],
    "copyWithoutEvents": lambda p: [p.copyWithoutEvents()],
    "patternFromTimeSlice": lambda p: [p.patternFromTimeSlice(0, 8), p.patternFromTimeSlice(0, 1, False)],
    "splitInEqualLengthPatterns": lambda p: [x for x in p.splitInEqualLengthPatterns(1)],
    "splitInEqualLengthPatterns of all": lambda p: [x for x in p.splitInEqualLengthPatterns(20)],
    "getFilledWithSilences": lambda p: [p.getFilledWithSilences(), p.getFilledWithSilences(1, True)],
    "getPatternWithTags": lambda p: [p.getPatternWithTags("k"), p.getPatternWithTags(["k", ("a", "b")]),
                                     p.getPatternWithTags("a", exactSearch=False)],
    "getPatternWithoutTags": lambda p: [p.getPatternWithoutTags("s"), p.getPatternWithoutTags("no")],
    "getPatternWithPitch": lambda p: [p.getPatternWithPitch(60)],
}
NAMES = sorted(DERIVE)
KINDS = kinds((0, 0.75, 2), (0.5, 1.5), ((60, "k"), (62, ("a", "b"))))


def make(case):
    p = pattern(case, 4, name="p", bpm=97.5, key="Am", timeSignature=(3, 4), startTime=2, originFilePath="x.mid",
                resolution=480)
    p.viewpoints["v"] = pattern([(0, 2, 60, 80, "view")], 4, name="v")
    p.viewpoints["v"].originPattern = p
    for e in p.events[:1]:
        e.originPattern = pattern([(0, 1, 50, 1, "origin")], 1)
    return p


def scramble(q):
    """changes everything within reach of a pattern"""
    for e in q.events:
        e.startTime, e.duration, e.pitch, e.velocity, e.tag = 99, 99, 99, 99, "changed"
        if e.originPattern is not None:
            e.originPattern.events.append(event(A))
            e.originPattern.duration = 99
    q.events.append(event((98, 1, 1, 1, "appended")))
    for v in q.viewpoints.values():
        for e in v.events:
            e.tag = "changed"
        v.events.append(event(A))
        v.duration = 77
    q.viewpoints["new"] = Pattern()
    q.duration, q.bpm, q.key, q.name, q.timeSignature, q.startTime = 99, 99, "C", "changed", (9, 9), 99


def origins(p):
    return [snap(e.originPattern) if e.originPattern is not None else None for e in p.events]


@suite("derived", lambda sc: product(NAMES, list(sequences(KINDS, 0, sc.pick(1, 2, 2)))),
       bounds="9 ways to derive patterns from all patterns of 0..2 events of 12 kinds: deriving changes nothing, and "
              "then no change of one (19 edits, and a change of every field) reaches the other")
def derived(ctx, case):
    name, events = case
    p = make(events)
    before = (snap(p), origins(p))
    for i, q in enumerate(DERIVE[name](p)):
        what = "%s of %r" % (name, events)
        same((snap(p), origins(p)), before, what + ": changed the original")
        not_shared(p.events, q.events, what)
        ctx.op()
        scramble(q)
        same((snap(p), origins(p)), before, what + ": a change of the result reached the original")
        q = DERIVE[name](p)[i]
        left = (snap(q), origins(q))
        scramble(p)
        same((snap(q), origins(q)), left, what + ": a change of the original reached the result")
        p = make(events)
        ctx.op()


@suite("edits", lambda sc: product(NAMES, range(len(EDITS)), list(sequences(KINDS, 1, sc.pick(1, 1, 2)))),
       bounds="the same with each of 19 edits, of the result and of the original")
def edits(ctx, case):
    name, k, events = case
    p = make(events)
    before = snap(p)
    for i, q in enumerate(DERIVE[name](p)):
        what = "%s of %r, then %r" % (name, events, EDITS[k])
        q = DERIVE[name](p)[i]
        if all(t[0] < q.duration for t in evs(q)):
            ops.step(q, EDITS[k])
        same(snap(p), before, what + " on the result reached the original")
        q = DERIVE[name](p)[i]
        left = snap(q)
        ops.step(p, EDITS[k])
        same(snap(q), left, what + " on the original reached the result")
        p = make(events)
        ctx.op(2)


@suite("copies", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 2)),
       bounds="copy keeps every field, event and viewpoint; copyWithoutEvents every field; events copy all their fields")
def copies(ctx, case):
    p = make(case)
    q = p.copy()
    same((snap(q), origins(q)), (snap(p), origins(p)), "copy of %r" % (case,))
    check(q == p and not q != p, "a copy is equal")
    check(q.viewpoints["v"].originPattern is q, "the viewpoint of a copy comes from the copy")
    r = p.copyWithoutEvents()
    same(meta(r), meta(p), "copyWithoutEvents: fields")
    check(len(r) == 0 and not r.viewpoints, "copyWithoutEvents: not empty")
    for e in p.events:
        f = e.copy()
        check(f is not e and f == e and tup(f) == tup(e), "copy of an event: %r", tup(f))
        f.pitch, f.tag = 1, "changed"
        same(snap(p), snap(make(case)), "a change of a copied event")
        ctx.op()
    ctx.op(2)


@suite("fresh", lambda sc: [(i,) for i in range(len(EDITS))], bounds="new patterns and events share nothing, whatever was done to others")
def fresh(ctx, case):
    a, b = Pattern(), Pattern()
    a.addEvent(event(A))
    a.viewpoints["v"] = Pattern()
    ops.step(a, EDITS[case[0]])
    same((snap(b), snap(Pattern())), (snap(Pattern()), ([], meta(b), {})), "new patterns share something")
    same((len(b), b.duration, b.bpm, tuple(b.timeSignature), b.startTime, b.key, b.name),
         (0, 0, 120, (4, 4), 0, None, None), "an empty pattern")
    c = pattern([A, A], 4)
    ops.step(c, EDITS[case[0]])
    d = pattern([A], 4)
    same(evs(d), [A], "a new pattern")
    for one in (Pattern(), Pattern(duration=4), Pattern(events=[]), Pattern(events=None), Pattern().copyWithoutEvents(),
                Pattern().copy()):
        one.events.append(event(A))
        one.events += [event(A)]
        one.viewpoints["w"] = Pattern()
        ops.step(one, EDITS[case[0]])
        for new in (Pattern(), Pattern(duration=4), Pattern(events=[]), Pattern().copyWithoutEvents()):
            check(len(new.events) == 0 and not new.viewpoints, "a new pattern shares its events or viewpoints")
        ctx.op(5)
    ctx.op(2)


@suite("wide", lambda sc: [(n, name) for n in (5, 40, 150) for name in NAMES], bounds="regular patterns of up to 150 events")
def wide(ctx, case):
    n, name = case
    p = make(ladder(n))
    before = snap(p)
    for i, q in enumerate(DERIVE[name](p)[:4]):
        same(snap(p), before, "%s changed the original" % name)
        not_shared(p.events, q.events, name)
        scramble(q)
        same(snap(p), before, "%s: a change of the result reached the original" % name)
        ctx.op()


@suite("varied", lambda sc: varied(sc, (3, 10, 60, 140) if sc.level else (3,), comb=8),
       bounds=VARIED + " (every 8th), all ways to derive patterns")
def of_the_family(ctx, case):
    def make_one():
        p = varied_pattern(case, 1)
        p.viewpoints["v"] = pattern(evs(p)[:2], 4, name="v")
        p.viewpoints["v"].originPattern = p
        p.viewpoints[u"\xe9"] = pattern([], 4)
        return p

    p = make_one()
    before = snap(p)
    same(snap(p.copy()), before, "copy of %r" % (before[0],))
    same(meta(p.copyWithoutEvents()), meta(p), "copyWithoutEvents: fields")
    for name in NAMES:
        for i, q in enumerate(DERIVE[name](p)[:3]):
            same(snap(p), before, "%s changed the original" % name)
            not_shared(p.events, q.events, name)
            scramble(q)
            same(snap(p), before, "%s: a change of the result reached the original" % name)
            q = DERIVE[name](p)[i]
            left = snap(q)
            scramble(p)
            same(snap(q), left, "%s: a change of the original reached the result" % name)
            p = make_one()
            ctx.op(2)
