# -*- coding: utf-8 -*-
"""C16 a pattern saved as a pickle comes back the same, links included"""
from __future__ import absolute_import, division, print_function

import copy
import os

from core import check, product, same, sequences, suite
from lib import VARIED, Pattern, bag, corpus, event, evs, kinds, ladder, meta, pattern, snap, varied, varied_pattern
from gsapi import gsio

TAGS = ("k", ("k", "s"), ("kick",), (), 1, 2.5, None, "", (("C", "maj"), ("x",)), frozenset(["a"]), u"\u00e9")
COUNT = [0]


def deep(p, depth=0):
    return (snap(p), [deep(e.originPattern, depth + 1) if e.originPattern is not None and depth < 3 else None
                      for e in p.events],
            sorted((k, deep(v, depth + 1)) for k, v in p.viewpoints.items()) if depth < 3 else None,
            p.originPattern.name if p.originPattern is not None else None)


def roundtrip(ctx, p, suffix=None):
    COUNT[0] += 1
    where = os.path.join("output", "pickle%d" % (COUNT[0] % 7), "new")
    before = deep(p)
    path = gsio.toPickleFile(p, where, suffix) if suffix else gsio.toPickleFile(p, where)
    what = "pickle of %r" % (before[0],)
    same(path, os.path.abspath(os.path.join(where, p.name + (suffix or "") + ".pickle")), what + ": path")
    same(deep(p), before, what + ": saving changed the pattern")
    got = gsio.fromPickleFile(path)
    same(deep(got), before, what)
    check(got == p and not got != p and type(got) is Pattern, "%s: not equal", what)
    ids = set(id(e) for e in p.events)
    check(not any(id(e) in ids for e in got.events), "%s: shared events", what)
    for t in evs(got):
        hash(t[4])
    other = copy.deepcopy(p)
    other.bpm, other.events = p.bpm + 1, other.events[:-1]
    same(gsio.toPickleFile(other, where, suffix) if suffix else gsio.toPickleFile(other, where), path, what + ": path")
    same(deep(gsio.fromPickleFile(path)), deep(other), what + ", over another")
    same(deep(got), before, what + ": what was read changed")
    ctx.op(4)
    os.remove(path)
    return got


def make(events, duration=8, **kw):
    args = dict(name="p", bpm=97.5, key="Am", timeSignature=(3, 4), startTime=2, originFilePath="x.mid", resolution=96)
    args.update(kw)
    return pattern(events, duration, **args)


@suite("tags", lambda sc: sequences(range(len(TAGS)), 0, sc.pick(1, 2, 3)),
       bounds="all patterns of 0..2 (thorough: 3) of 11 tags")
def tags(ctx, case):
    roundtrip(ctx, make([(0.5 * i, 1 / 3.0, 60 + i, 80 + i, TAGS[t]) for i, t in enumerate(case)]))


@suite("events", lambda sc: sequences(kinds((0, 0.1, 1 / 3.0), (0.25, 1e-6), ((60, "k"), (0, "s", 0))), 0, sc.pick(1, 2, 2)),
       bounds="all patterns of 0..2 events of 12 kinds, in their order")
def events(ctx, case):
    roundtrip(ctx, make(case, 1.7), "_suffix")


@suite("fields", lambda sc: product((0, 4, 7.3), (120, 99.9), ((4, 4), (6, 8)), (None, "F#m"), (0, 2.5), (None, "a/b"), (960, 24)),
       bounds="all combinations of 3 durations and 2 values of the other fields")
def fields(ctx, case):
    duration, bpm, signature, key, start, path, resolution = case
    roundtrip(ctx, make([], duration, bpm=bpm, timeSignature=signature, key=key, startTime=start, originFilePath=path,
                        resolution=resolution))


@suite("links", lambda sc: sequences(TAGS[:3], 0, 2) if sc.level else sequences(TAGS[:2], 1, 1),
       bounds="computed viewpoints, whose patterns and slices are linked to each other")
def links(ctx, case):
    p = make([(1.5 * i, 1, 60 + 4 * i, 80 + i, t) for i, t in enumerate(case)])
    p.generateViewpoint("chords")
    p.viewpoints["v"] = make([(0, 1, 1, 1, "v")], name="v")
    p.viewpoints["v"].viewpoints["w"] = make([(0, 1, 1, 1, "w")], name="w")
    got = roundtrip(ctx, p)
    check(got.viewpoints["chords"].originPattern is got, "the viewpoint lost its pattern")
    for e in got.viewpoints["chords"].events:
        check(isinstance(e.originPattern, Pattern), "an event lost its slice")
        check(e.originPattern is not got, "slices")
    shared = make([])
    shared.events = [event((0, 1, 1, 1, "x"))] * 2
    got = roundtrip(ctx, shared)
    check(got.events[0] is got.events[1], "one event became two")


@suite("wide", lambda sc: [(n,) for n in (10, 100, 400)], bounds="regular patterns of up to 400 events")
def wide(ctx, case):
    roundtrip(ctx, make(ladder(case[0]), case[0]))
    roundtrip(ctx, make(ladder(case[0])[::-1], 1))


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(1, 3, 30)],
       bounds="files of the drum and harmony corpora, with chords")
def from_corpus(ctx, case):
    p = gsio.fromMidiFile(case)
    p.events = p.events[:200]
    p.generateViewpoint("chords")
    roundtrip(ctx, p)


@suite("varied", lambda sc: varied(sc, comb=5), bounds=VARIED + ", with viewpoints and origins of events")
def of_the_family(ctx, case):
    p = varied_pattern(case, 0.7)
    p.name = {None: "none", u"\xe9": "e"}.get(p.name, p.name)
    p.viewpoints["v 1"] = make(evs(p)[::-1][:60], p.duration, name="v 1")
    p.viewpoints["v 1"].originPattern = p
    p.viewpoints[None] = make([], 3, name="")
    one = make([(0, 1, 60, 80, "origin")], 1)
    for e in p.events[:50:3]:
        e.originPattern = one
    path = gsio.toPickleFile(p, os.path.join("output", "pickles"))
    got = gsio.fromPickleFile(path)
    same(snap(got), snap(p), "pickle of %r" % (snap(p),))
    check(got.viewpoints["v 1"].originPattern is got, "the origin of the viewpoint")
    same(len(set(id(e.originPattern) for e in got.events[:50:3])), 1, "origins that were one")
    check(got.events[0].originPattern is not one, "the origin is shared")
    p.viewpoints = {}
    roundtrip(ctx, p, (None, ".x", "_" * 60)[len(p.events) % 3])


@suite("names", lambda sc: product((" p ", "a.b", "x.pickle", "UPPER", "%s", "n" * 90), (None, " s ", ".v2")),
       bounds="the path has the name of the pattern and the suffix as they are")
def names(ctx, case):
    roundtrip(ctx, make([(0, 1, 60, 80, ("k", "s"))], 4, name=case[0], key=case[0]), case[1])


@suite("folders", lambda sc: product(("sub/p", "sub/deep/p.x", "./p", "sub/../p"), (None, "_s")), bounds="names that lead to folders that are there")
def folders(ctx, case):
    where = os.path.join("output", "pickle%d" % ((COUNT[0] + 1) % 7), "new")
    if not os.path.isdir(os.path.join(where, "sub", "deep")):
        os.makedirs(os.path.join(where, "sub", "deep"))
    p = make([(0, 1, 60, 80, ("k", "s"))], 4, name=case[0])
    roundtrip(ctx, p, case[1])
