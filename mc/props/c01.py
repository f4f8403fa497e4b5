# -*- coding: utf-8 -*-
"""C01 cutting in slices of equal length loses, adds and moves no sound"""
from __future__ import absolute_import, division, print_function

import math

from core import check, fail, product, same, sequences, suite
from lib import (EPS, VARIED, bag, corpus, evs, kinds, ladder, meta, near, not_shared, pattern, repr_tag, same_bag,
                 snap, varied, varied_pattern)

LENGTHS = (0.5, 1, 1.5, 2, 4.5, 5, 1 / 3.0, 0.7, 0.1)


def pieces(events, L, duration):
    """what each slice must hold: {slice number: [event tuples from the start of the slice]}"""
    res = {}
    for s, d, pitch, vel, tag in events:
        k = int(math.floor(s / L + EPS))
        while k * L < s + d - EPS:
            a, b = max(s, k * L), min(s + d, (k + 1) * L)
            if b - a > EPS:
                res.setdefault(k, []).append((a - k * L, b - a, pitch, vel, tag))
            k += 1
    return res


def check_split(ctx, p, L, makeCopy, supress, viewpointName=None):
    src = p.viewpoints[viewpointName] if viewpointName else p
    events, before, duration, name = evs(src), snap(p), src.duration, src.name
    info = meta(src, ("duration", "name", "startTime"))
    objects = list(src.events)
    kw = {"viewpointName": viewpointName} if viewpointName else {}
    got = p.splitInEqualLengthPatterns(L, makeCopy=makeCopy, supressEmptyPattern=supress, **kw)
    ctx.op()
    what = "split(%r, makeCopy=%r, supressEmptyPattern=%r, viewpoint=%r) of %r, duration %r" % (
        L, makeCopy, supress, viewpointName, events, duration)
    want = pieces(events, L, duration)
    n = int(math.ceil(duration / L - EPS))
    check(isinstance(got, list), "%s: not a list", what)
    if supress:
        check(all(s is not None for s in got), "%s: an empty slice was not left out", what)
        numbered = [(int(round(s.startTime / L)), s) for s in got]
    else:
        check(n <= len(got) <= int(math.ceil(duration / L)), "%s: %d slices instead of %d", what, len(got), n)
        numbered = [(i, s) for i, s in enumerate(got) if s is not None]
    numbers = [k for k, s in numbered]
    check(numbers == sorted(set(numbers)), "%s: slices out of order %r", what, numbers)
    for k, s in numbered:
        where = "%s, slice %d" % (what, k)
        check(near(s.startTime, k * L), "%s starts at %r", where, s.startTime)
        check(near(s.duration, L), "%s has duration %r", where, s.duration)
        same(s.name, (name or "") + "_%d" % k, where + ": name")
        same(meta(s, ("duration", "name", "startTime")), info, where + ": other fields")
        found = [t for t in evs(s) if t[1] > EPS]
        same_bag(found, want.pop(k, []), where, EPS)
        for t in evs(s):
            check(-EPS <= t[0] and t[0] + t[1] <= L + EPS and t[1] >= 0, "%s: event out of the slice %r", where, t)
    check(not want, "%s: lost %r", what, want)
    origins = {e.originPattern is None for e in objects}
    if len(origins) == 1:
        check(all((e.originPattern is None) in origins for k, s in numbered for e in s.events), "%s: origins of the events", what)
    if makeCopy:
        same(snap(p), before, what + ": the original changed")
        for k, s in numbered:
            not_shared(objects, s.events, what)


KINDS = kinds((0, 0.5, 1.25, 2), (0.25, 1, 2.5), ((60, "k"), (62, ("a", "b"))))


@suite("small", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 2)),
       bounds="all sequences of 0..2 events of 24 kinds (starts 0..2, durations 0.25..2.5, two tags), duration 4.5, "
              "9 slice lengths (also 1/3, 0.7, 0.1), copy or not, empty slices kept or not")
def small(ctx, case):
    for L, makeCopy, supress in product(LENGTHS, (True, False), (True, False)):
        if L == 0.1 and not (makeCopy and supress):
            continue
        check_split(ctx, pattern(case, 4.5, name="p", bpm=100.5, key="Am", timeSignature=(3, 4), startTime=2),
                    L, makeCopy, supress)


@suite("three", lambda sc: sequences(kinds((0, 0.5, 1.5), (0.5, 2), ((60, "k"), (60, "s"))), 3, 3)
       if sc.level else sequences(kinds((0, 1.5), (0.5, 2), ((60, "k"),)), 3, 3),
       bounds="all sequences of 3 events of 12 kinds, 3 slice lengths")
def three(ctx, case):
    for L in (1, 1.5, 1 / 3.0):
        check_split(ctx, pattern(case, 4, name="p"), L, True, True)


def gen_wide(sc):
    for n in (5, 17, 40):
        for L in (0.25, 1, 3, 4, 7.5, 1 / 3.0, 0.3):
            for dur in (0.5, 0.75, 3.5):
                yield ("ladder", n, dur, L)
    for start, dur, L in product((0, 0.3, 0.5), (33, 100.7) + ((300,) if sc.level else ()),
                                 (0.25, 0.1, 0.7, 1 / 3.0, 1, 16)):
        yield ("long", start, dur, L)
    for n in range(1, sc.pick(30, 120, 600)):
        for L in (1 / 3.0, 0.7, 0.1, 0.3, 1.1):
            yield ("border", n, L)


@suite("wide", gen_wide,
       bounds="regular patterns of up to 40 events; one event over up to 3000 slices; events on the borders of "
              "up to 600 slices of lengths that are not exact in binary")
def wide(ctx, case):
    if case[0] == "ladder":
        _, n, dur, L = case
        events = ladder(n, dur=dur)
        total = max(t[0] + t[1] for t in events)
        for extra in (0, 3.25):
            check_split(ctx, pattern(events, total + extra, name=None), L, True, extra == 0)
    elif case[0] == "long":
        _, start, dur, L = case
        check_split(ctx, pattern([(start, dur, 60, 80, "k")], start + dur, name="p"), L, True, True)
    else:
        _, n, L = case
        events = [(n * L, L, 60, 80, "k"), ((n - 1) * L, 2.5 * L, 61, 80, "s"), ((n - 0.5) * L, L, 62, 80, "t")]
        check_split(ctx, pattern(events, (n + 2) * L, name="p"), L, False, True)


@suite("viewpoint", lambda sc: sequences(KINDS, 0, 1), bounds="slices of a viewpoint, all patterns of 0..1 events")
def viewpoint(ctx, case):
    for L, makeCopy, duration in product((1, 2), (True, False), (8, 1)):
        p = pattern([(0, 4, 50, 1, "other")], duration, name="p", bpm=60.5, key="C", startTime=3)
        p.viewpoints["v"] = pattern(case, 4.5, name="view", bpm=99.5)
        p.viewpoints["w"] = pattern([(1, 1, 50, 1, "w")], 5, name="w")
        check_split(ctx, p, L, makeCopy, True, "v")


@suite("corpus", lambda sc: [f for f in corpus("drums", "*.mid")][:sc.pick(1, 3, 20)],
       bounds="patterns of the drum corpus, slices of 4 and 1.5 beats")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case, checkForOverlapped=True)
    p.events = p.events[:150]
    p.duration = max(p.duration, 1 + max(e.startTime + e.duration for e in p.events))
    p.duration = min(p.duration, 400)
    if any(e.endTime() > p.duration for e in p.events):
        p.duration = max(e.endTime() for e in p.events)
    for L in (4, 1.5):
        check_split(ctx, p, L, True, True)


@suite("varied", varied, bounds=VARIED + ", slices of 0.7, 1.5 and 4 beats")
def of_the_family(ctx, case):
    for extra, L, makeCopy in ((0, 1.5, True), (0.02, 4, False), (2.9, 0.7, True)):
        if L == 0.7 and case[1] in ("far", "gap") and case[0] > 3:
            continue
        check_split(ctx, varied_pattern(case, extra), L, makeCopy, extra != 0.02)


@suite("origins", lambda sc: product(sequences(((0, 0.5), (0.5, 2), (1.25, 5)), 1, 2), (0.5, 1, 1.5), (False, True)), bounds="events that lead to a pattern of their own, in a pattern and in a viewpoint: every piece leads there too")
def origins(ctx, case):
    times, L, inside = case
    p = pattern([(t, d, 60, 100, "k") for t, d in times], 7, name="p")
    for i, e in enumerate(p.events):
        e.originPattern = pattern([(0, 1, 40 + i, 100, "x")], 1, name="of %d" % i)
    if inside:
        q = pattern([], 7, name="q")
        q.viewpoints["v"] = p
        p = q
    for makeCopy in (True, False):
        check_split(ctx, p.copy(), L, makeCopy, True, "v" if inside else None)
