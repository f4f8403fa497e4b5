# -*- coding: utf-8 -*-
"""C35 every edit keeps its own promise after any history of edits"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, product, same, sequences, suite
from lib import VARIED, bag, event, evs, ladder, meta, pattern, repr_tag, varied, varied_pattern
from gsapi.gsdescriptors import Density, NumberOfTags

A = (0, 1, 60, 80, "k")
B = (1.5, 4, 62, 70, "s")
C = (0.5, 0.5, 60, 90, ("k", "h"))


def touch(p, n):
    """what a caller may do to a pattern without its methods"""
    if n == "shift":
        for e in p.events[:1]:
            e.startTime, e.pitch, e.tag = e.startTime + 1.5, e.pitch + 2, "moved"
    elif n == "append":
        p.events.append(event(C))
    elif n == "pop":
        p.events = p.events[:-1]
    elif n == "set":
        if p.events:
            p[0] = event(B)
    elif n == "grow":
        p.duration += 2.5
    elif n == "fields":
        p.bpm, p.key, p.name, p.timeSignature, p.startTime = 77.25, "Eb", "other", (3, 4), 1
    elif n == "reverse":
        p.events.reverse()
    elif n == "ask":
        answers(p)
    elif n == "copy":
        q = p.copy()
        q.timeStretch(3)
        q.transpose(1)
        q.fillWithSilences()
    elif n == "slices":
        for q in p.splitInEqualLengthPatterns(1):
            q.quantize(1)
            q.addEvent(event((7, 9, 1, 1, "x")))
    elif n == "filled":
        p.getFilledWithSilences(1, True).removeOverlapped()
    elif n == "view":
        p.generateViewpoint("density", Density(), 1)
    elif n == "load":
        p.fromJSONDict(p.toJSONDict())


TOUCHES = ["shift", "append", "pop", "set", "grow", "fields", "reverse", "ask", "copy", "slices", "filled", "view", "load"]
EDITS = [("removeOverlapped",), ("removeOverlapped", True), ("fillWithSilences",), ("fillWithSilences", 1), ("fillWithSilences", 0, True),
         ("quantize", 0.5), ("quantize", 1, True, False), ("alignOnGrid", 1), ("alignOnGrid", 0.5, ("k",)), ("applyLegato",),
         ("applyLegato", False), ("fillWithPreviousEvent",), ("timeStretch", 2), ("timeStretch", 0.5), ("transpose", 5),
         ("removeByTags", ("k",)), ("removeByTags", ("silence", "C4", "s")), ("removeEvent", A), ("addEvent", A), ("addEvent", B),
         ("durationToLastEvent",), ("durationToLastEvent", False), ("durationToBar",), ("reorderEvents",)]
ALL = EDITS + TOUCHES
STARTS = [[], [A, B], [C, A, (1, 1, 60, 80, "s"), (3, 0.75, 64, 60, "k")], [(2, 1, 60, 80, "k"), (0, 3, 60, 70, "k"), (0, 1, 65, 60, "silence")]]


def unordered(tags):
    return sorted(tags, key=repr_tag)


def answers(p):
    """everything that a pattern answers, in plain values"""
    res = [bag(p), meta(p), len(p), p.lastNoteOff(), unordered(p.getAllTags()), sorted(p.getAllPitches())]
    for t in (0, 0.5, 1.25, 2, 4):
        res.append(bag(p.activeEventsAtTime(t)))
        res.append(bag(p.getStartingEventsAtTime(t)))
    for e in p.events[:2]:
        res.append(bag(p.getIdenticalEvents(e)))
        res.append(bag(p.getIdenticalEvents(e, False)))
    for q in [p.copy(), p.copyWithoutEvents(), p.patternFromTimeSlice(0.5, 2), p.getPatternWithTags("k", exactSearch=False),
              p.getPatternWithoutTags("k"), p.getPatternWithPitch(60)] + list(p.splitInEqualLengthPatterns(2)):
        res.append((bag(q), meta(q)))
    res.append(bag(p.getFilledWithSilences()))
    res += [Density().getDescriptorForPattern(p) if p.duration else None, NumberOfTags().getDescriptorForPattern(p)]
    return res


def rebuilt(p):
    m = meta(p)
    q = pattern(evs(p), m["duration"], bpm=m["bpm"], timeSignature=m["timeSignature"], key=m["key"],
                originFilePath=m["originFilePath"], name=m["name"], startTime=m["startTime"], resolution=m["resolution"])
    return q


def run(ctx, p, case, ask=True):
    for i, op in enumerate(case):
        q = rebuilt(p)
        what = "%r after %r" % (op, case[:i])
        if isinstance(op, tuple):
            ops.step(p, op)
            ops.step(q, op)
        else:
            before = (bag(p), meta(p))    # asking may put the events in time order
            touch(p, op)
            touch(q, op)
            if op in ("ask", "copy", "slices", "filled", "view"):
                same((bag(p), meta(p)), before, what + ": changed the pattern")
        same((evs(p), meta(p)), (evs(q), meta(q)), what + ": on the pattern itself, and on a new one like it")
        check(p == q and q == p and not p != q, "%s: not equal to a new one like it", what)
        ctx.op()
    if ask:
        same(answers(p), answers(rebuilt(p)), "answers after %r" % (case,))
        once = answers(p)
        same(answers(p), once, "answers again after %r" % (case,))


@suite("pairs", lambda sc: product(range(len(STARTS)), sequences(ALL, 0, sc.pick(1, 2, 2))),
       bounds="all histories of 0..2 of 37 edits (24 operations with arguments, 13 things a caller may do), from 4 patterns")
def pairs(ctx, case):
    k, history = case
    run(ctx, pattern(STARTS[k], 4, name="p", bpm=90.5, key="Am"), history)


@suite("triples", lambda sc: product(range(1, 4), product(range(len(ALL)), range(sc.pick(0, 8, 37)))),
       bounds="all histories of 3 edits from 3 patterns (quick: those whose second is one of every fifth), asked at the end")
def triples(ctx, case):
    k, (i, j) = case
    second = ALL[(j * 5 + i + k) % len(ALL)]
    for third in ALL:
        run(ctx, pattern(STARTS[k], 4), (ALL[i], second, third), ask=False)


GROUPS = {
    "durations": [("addEvent", A), ("addEvent", B), ("addEvent", (1, 2.5, 61, 60, "s")), ("timeStretch", 2), ("timeStretch", 0.5),
                  ("durationToLastEvent",), ("durationToLastEvent", False), ("durationToBar",), ("applyLegato",), "grow", "fields"],
    "tags": [("addEvent", A), ("removeByTags", ("k",)), ("removeByTags", ("s", "silence")), ("removeEvent", A), ("addEvent", C), "append",
             "set", "ask", "shift", ("transpose", 5)],
    "order": [("reorderEvents",), "reverse", "append", ("addEvent", (0.25, 0.5, 60, 80, "k")), ("removeOverlapped",), ("fillWithPreviousEvent",),
              ("quantize", 0.5), ("alignOnGrid", 1), ("fillWithSilences",), "shift"],
}


def gen_groups(sc):
    for g in sorted(GROUPS):
        for i, h in enumerate(sequences(range(len(GROUPS[g])), sc.pick(3, 4, 3), sc.pick(3, 4, 5))):
            if i % sc.pick(5, 9, 1) == 0:
                yield (g, 1 + (i // 3) % 3, h)


@suite("groups", gen_groups, bounds="every ninth history of 4 (thorough: every one of 3..5) edits out of three groups of 10 or 11")
def groups(ctx, case):
    g, k, h = case
    run(ctx, pattern(STARTS[k], 4, name="p"), tuple(GROUPS[g][i] for i in h), ask=False)


CYCLE = [("addEvent", A), "ask", ("timeStretch", 2), ("durationToBar",), "append", ("removeOverlapped",), ("quantize", 0.5), "ask",
         ("fillWithSilences",), ("applyLegato", False), ("transpose", 1), "shift", ("removeByTags", ("silence", "moved")), "pop"]


@suite("long", lambda sc: product(range(len(CYCLE)), range(1, sc.pick(2, 5, 12))),
       bounds="histories of up to 42 edits (thorough: 150) that go round a list of 14 by steps of 1..4 (thorough: 11)")
def long_ones(ctx, case):
    at, by = case
    p = pattern(ladder(6, tags=("k", "s")), 3)
    history = []
    for n in range(14 * 3):
        if len(p.events) > 60:
            p.events = p.events[:20]
        if p.duration > 64:
            ops.step(p, ("timeStretch", 0.125))
        op = CYCLE[(at + n * by) % len(CYCLE)]
        history.append(op)
        run(ctx, p, (op,), ask=n % 7 == 0)


CHAINS = [(("quantize", 0.25), ("removeOverlapped",), ("fillWithSilences",), ("timeStretch", 2), ("durationToBar",)),
          (("removeOverlapped", True), ("applyLegato",), "ask", ("transpose", 2), ("durationToLastEvent", False)),
          (("addEvent", A), ("fillWithPreviousEvent",), "load", ("applyLegato", False), ("removeByTags", ("k", 1))),
          ("reverse", ("alignOnGrid", 0.5), ("fillWithSilences", 0, True), "pop", ("reorderEvents",), "ask"),
          ("copy", ("timeStretch", 0.5), "shift", ("removeEvent", A), ("quantize", 0.5, True, False), "fields", ("addEvent", B))]


@suite("varied", lambda sc: varied(sc, (3, 10, 60, 140) if sc.level else (3,), comb=3),
       bounds=VARIED + ", histories of 5..7 edits")
def of_the_family(ctx, case):
    for chain in CHAINS:
        if "load" in chain and case[3] == "odd":
            chain = tuple(op for op in chain if op != "load")
        run(ctx, varied_pattern(case, 1), chain, ask=False)
