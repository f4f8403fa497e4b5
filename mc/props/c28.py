# -*- coding: utf-8 -*-
"""C28 viewpoints describe each slice of the pattern, linked to it"""
from __future__ import absolute_import, division, print_function

import math

from core import check, fail, product, same, sequences, suite
from lib import (EPS, bag, corpus, evs, kinds, ladder, match, meta, near, order, pattern, snap, tup, varied,
                 varied_events)
from gsapi.gsdescriptors import Chord, Density, NumberOfTags, Syncopation


class Notes(object):
    """a descriptor that tells which notes it was given"""

    def __init__(self, withStarts=True):
        self.withStarts = withStarts

    def getDescriptorForPattern(self, p):
        return tuple(sorted((e.pitch, e.velocity) + ((round(e.startTime, 6),) if self.withStarts else ()) for e in p.events)) + (
            round(p.duration, 6),)


class Spoiler(object):
    """a descriptor that has no value for some slices"""

    def getDescriptorForPattern(self, p):
        return None if len(p.events) == 1 else 0


def slices(p, kind):
    """[(start, duration, events)] of a pattern of exact times"""
    res = []
    if kind == "all":
        return [(p.startTime, p.duration, evs(p))] if p.events else []
    if kind == "perEvent":
        for t in sorted(set(e.startTime for e in p.events)):
            active = [x for x in evs(p) if x[0] <= t < x[0] + x[1]]
            if active:
                res.append((t, max(x[0] + x[1] for x in active) - t, active))
        return res
    for k in range(int(math.ceil(p.duration / float(kind)))):
        a, b = k * kind, (k + 1) * kind
        parts = [(max(x[0], a) - a, min(x[0] + x[1], b) - max(x[0], a)) + x[2:] for x in evs(p) if x[0] < b and x[0] + x[1] > a]
        if parts:
            res.append((a, kind, parts))
    return res


def check_view(ctx, p, name, descriptor, kind, want=None, call=None, eps=0):
    before, before_meta = bag(p), meta(p)
    others = {k: v for k, v in p.viewpoints.items() if k != name}
    other_snaps = {k: snap(v) for k, v in others.items()}
    what = "viewpoint %r by %r of %r, duration %r" % (name, kind, before[:6], p.duration)
    if want is None:
        want = slices(p, kind)
    got = (call or (lambda: p.generateViewpoint(name, descriptor, kind)))()
    ctx.op()
    same(bag(p), before, what + ": changed the events of the pattern")
    same(meta(p), before_meta, what + ": changed the pattern")
    check(p.viewpoints[name] is got, "%s: not kept", what)
    same(set(p.viewpoints), set(others) | {name}, what + ": viewpoints")
    for k, v in others.items():
        check(p.viewpoints[k] is v, "%s: replaced %r", what, k)
        same(snap(v), other_snaps[k], "%s: changed %r" % (what, k))
    check(got is not p and got.originPattern is p, "%s: does not come from the pattern", what)
    same(meta(got, ("name",)), {k: v for k, v in before_meta.items() if k != "name"}, what + ": fields")
    same(got.name, name, what + ": name")
    same(len(got.events), len(want), "%s: number of events, %r" % (what, [(e.startTime, e.duration) for e in got.events][:9]))
    for e, (start, duration, events) in zip(got.events, want):
        check(near(e.startTime, start, eps) and near(e.duration, duration, eps), "%s: an event at %r lasts %r instead of %r, %r",
              what, e.startTime, e.duration, start, duration)
        s = e.originPattern
        check(s is not None and match([tup(x) for x in s.events], events, EPS), "%s: the slice at %r is %r instead of %r",
              what, start, s and bag(s), events)
        check(near(s.startTime, start, eps) and near(s.duration, duration, eps), "%s: slice from %r lasts %r", what, s.startTime, s.duration)
        again = pattern(events, duration)
        value = descriptor.getDescriptorForPattern(again)
        if isinstance(value, float):
            check(near(e.tag, value, 1e-7), "%s: %r at %r instead of %r", what, e.tag, start, value)
        elif eps == 0 or not isinstance(descriptor, Chord):
            same(e.tag, value, "%s: tag at %r" % (what, start))
        same(snap(s)[1]["bpm"], before_meta["bpm"], what + ": tempo of the slice")
    return got


KINDS = kinds((0, 0.5, 2, 3), (0.5, 1.5, 3), ((60, "k"), (64, ("a", "b"))))
SLICES = (1, 2, 3, "perEvent", "all", 4)


@suite("small", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 3)) if sc.level else sequences(KINDS[::2], 0, 2),
       bounds="all sequences of 0..2 (thorough: 3) events of 24 kinds, 6 kinds of slices")
def small(ctx, case):
    for kind in SLICES:
        p = pattern(case, 4, bpm=90.5, key="D minor", name="x")
        check_view(ctx, p, "notes", Notes(), kind)
    p = pattern(case, 3.5, startTime=2)
    for kind in ("perEvent", "all", 2):
        check_view(ctx, p, "d", Density(), kind)


CLOSE = kinds((0, 1 / 64.0, 1 / 16.0, 0.25, 0.3, 0.3125), (0.125, 0.5), ((60, "k"),))


@suite("close", lambda sc: sequences(CLOSE, 2, sc.pick(2, 3, 4)) if sc.level != 1 else
       [c for i, c in enumerate(sequences(CLOSE, 2, 3)) if len(c) < 3 or i % 3 == 0],
       bounds="all pairs and every third triple of events (thorough: all 2..4) whose onsets are close to each other")
def close(ctx, case):
    for kind in ("perEvent", 1):
        check_view(ctx, pattern(case, 1), "notes", Notes(), kind)


def many(n, k):
    return [((i * (3 + k) % 29) * 0.25, (1 + (i * i + k) % 7) * 0.5, 48 + (i * (5 + k)) % 24, 60 + i % 60, ("k", "s", ("a", "b"), "silence")[(i + k) % 4])
            for i in range(n)]


@suite("wide", lambda sc: [(n, k, s) for n in (5, 9, 20, 60) for k in range(sc.pick(1, 6, 40)) for s in range(len(SLICES))],
       bounds="patterns of 5..60 events, in and out of time order, every descriptor")
def wide(ctx, case):
    n, k, s = case
    for reverse in (False, True):
        events = many(n, k)
        if reverse:
            events = sorted(events, key=order)
        for name, d in (("n", Notes()), ("d", Density()), ("t", NumberOfTags()), ("s", Syncopation()), ("none", Spoiler()),
                        ("f", Density(includedTags=["k"]))):
            p = pattern(events, 11)
            check_view(ctx, p, name, d, SLICES[s])
        p = pattern([t[:1] + (1.25,) + t[2:] for t in events], 11)
        check_view(ctx, p, "c", Notes(False), SLICES[s])


@suite("chords", lambda sc: [(i, j) for i in range(12) for j in range(sc.pick(3, 12, 48))],
       bounds="the default viewpoint of chords, by bars of four beats, and asked for explicitly")
def chords(ctx, case):
    i, j = case
    events = []
    for bar in range(3):
        for x in ((0, 4, 7), (0, 3, 7), (0, 4, 7, 10))[(bar + j) % 3]:
            events.append((bar * 4 + (0.5 if j % 2 else 0), 2.5 if j % 4 < 3 else 5, 48 + i + x + bar * (j % 5), 80, "x"))
    p = pattern(events, 12)
    want = check_view(ctx, p, "chords", Chord(), 4, call=lambda: p.generateViewpoint("chords"))
    q = pattern(events, 12)
    got = check_view(ctx, q, "own", Chord(), 4)
    same([tup(e) for e in got.events], [tup(e) for e in want.events], "the default viewpoint and the same asked for")
    check_view(ctx, q, "chords", Chord(), 2)
    check_view(ctx, q, "chords", Chord(), "perEvent", call=lambda: q.generateViewpoint("chords", Chord(), "perEvent"))


HISTORY = (("a", 2), ("a", "perEvent"), ("b", "all"), ("b", 1), "edit", "copy", "slice")


@suite("histories", lambda sc: sequences(range(len(HISTORY)), 1, sc.pick(2, 4, 5)),
       bounds="all histories of 1..4 (thorough: 5) of: viewpoints under two names, edits, copies and cuts of them")
def histories(ctx, case):
    p = pattern([(0, 1.5, 60, 80, "k"), (1, 1, 62, 81, "s"), (3, 2, 64, 82, "k"), (3, 1, 65, 83, "h")], 5)
    for k in case:
        step = HISTORY[k]
        if step == "edit":
            views = {n: snap(v) for n, v in p.viewpoints.items()}
            p.events[0].pitch += 1
            p.timeStretch(1)
            same({n: [t[:2] for t in snap(v)[0]] for n, v in p.viewpoints.items()}, {n: [t[:2] for t in s[0]] for n, s in views.items()},
                 "an edit changed a viewpoint")
        elif step == "copy":
            q = p.copy()
            for n, v in p.viewpoints.items():
                w = q.viewpoints[n]
                check(w is not v and w.originPattern is q, "the viewpoint of a copy is not its own")
                same(snap(w), snap(v), "the viewpoint of a copy")
                for e, f in zip(v.events, w.events):
                    check(e is not f and f.originPattern is not e.originPattern, "the viewpoint of a copy shares its slices")
                    check((e.originPattern is p) == (f.originPattern is q), "a slice of the copy is the original")
                    same(bag(f.originPattern), bag(e.originPattern), "slices of the viewpoint of a copy")
            p = q
        elif step == "slice":
            for n, v in sorted(p.viewpoints.items()):
                before = snap(v)
                got = p.splitInEqualLengthPatterns(2, viewpointName=n)
                parts = [(x.startTime, sorted(evs(x), key=order)) for x in got]
                whole = [(a, sorted(b, key=order)) for a, _, b in slices(v, 2)]
                same(parts, whole, "cuts of the viewpoint %r" % (before[0],))
                same(snap(v), before, "cutting changed the viewpoint")
        else:
            old = p.viewpoints.get(step[0])
            kept = old is not None and snap(old)
            check_view(ctx, p, step[0], Notes(), step[1])
            if old is not None:
                same(snap(old), kept, "the viewpoint that was replaced")


@suite("errors", lambda sc: ["half", "", "perevent"], bounds="slices of no known kind are refused")
def errors(ctx, case):
    p = pattern([(0, 1, 60, 80, "k")], 4)
    before = snap(p)
    try:
        p.generateViewpoint("x", Notes(), case)
    except Exception:
        pass
    else:
        fail("slices by %r are accepted" % (case,))
    same(snap(p), before, "a refused viewpoint changed the pattern")
    ctx.op()


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(1, 8, 400)],
       bounds="files of the corpora, by 1 and 4 beats, per event and as a whole")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case)
    p.events = p.events[:80]
    for kind in (1, 4, "perEvent", "all"):
        want = None
        if isinstance(kind, int):
            want = [(s.startTime, s.duration, evs(s)) for s in p.copy().splitInEqualLengthPatterns(kind)]
        check_view(ctx, p, "v", Notes(), kind, want, eps=EPS)
        check_view(ctx, p, "t", NumberOfTags(), kind, want, eps=EPS)


@suite("varied", lambda sc: varied(sc, (3, 10, 40, 140) if sc.level else (3,), ("quarter", "stacked", "far", "gap"), ("exact", "step", "long")),
       bounds="patterns of 3..140 events, exact onsets up to 1200 beats, tags of odd types, extreme notes, by 2 beats and per event")
def of_the_family(ctx, case):
    if case[1] == "gap":
        case = case[:1] + ("quarter",) + case[2:]
        events = [(t[0] * 5,) + t[1:] for t in varied_events(case)]
    else:
        events = varied_events(case)
    total = math.ceil(max(t[0] + t[1] for t in events)) + case[0] % 2
    for kind in (2, "perEvent", "all", 512):
        if kind != 2 or total < 400 or case[0] == 3:
            p = pattern(events, total, bpm=61.5, timeSignature=(6, 8), name="x")
            check_view(ctx, p, "v", Notes(), kind)


@suite("closer", lambda sc: product((6, 9, 11, 13, 20, 30), range(sc.pick(2, 8, 24))),
       bounds="onsets from a sixtieth to a billionth of a beat apart, around different times, in and out of order")
def closer(ctx, case):
    k, i = case
    gap, t = 2.0 ** -case[0], (0, 0.5, 1, 3)[i // 2 % 4]
    events = [(t, 0.5, 60, 80, "k"), (t + gap, 0.5, 61, 81, "s"), (t + 2 * gap, 0.5, 62, 82, "k"), (t + 2 * gap, 0.25, 63, 83, ("a", "b"))][::(1, -1)[i % 2]]
    for kind in ("perEvent", "all"):
        check_view(ctx, pattern(events, 4), "notes", Notes(False), kind)
    check_view(ctx, pattern(events, 4), "d", Density(), "perEvent")
