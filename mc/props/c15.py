# -*- coding: utf-8 -*-
"""C15 a pattern saved as JSON comes back the same"""
from __future__ import absolute_import, division, print_function

import copy
import io
import json
import os

import ops
from core import check, product, same, sequences, suite
from lib import (VARIED, Pattern, bag, corpus, end, event, evs, kinds, ladder, meta, pattern, same_bag, snap, varied,
                 varied_pattern)
from gsapi import gsio

TAGS = ("k", "kick", ("k", "s"), ("kick",), (), 1, 2.5, None, "", "with \"quotes\" and \\", ("a", 1))
FLAGS = tuple(product((True, False), (False, True)))
FIELDS = ("name", "duration", "bpm", "timeSignature", "key", "startTime")
COUNT = [0]


def folder():
    COUNT[0] += 1
    return os.path.join("output", "json%d" % (COUNT[0] % 7), "new")


def view(p):
    return {k: getattr(p, k) if k != "timeSignature" else tuple(p.timeSignature) for k in FIELDS}


def same_pattern(got, want, what):
    same_bag(evs(got), evs(want), what)
    starts = [e.startTime for e in want.events]
    if starts == sorted(starts):
        same(evs(got), evs(want), what + ": order of events")
    for a, b in zip(sorted(evs(got), key=ops.order), sorted(evs(want), key=ops.order)):
        check(isinstance(a[4], tuple) == isinstance(b[4], tuple), "%s: the tag %r became %r", what, b[4], a[4])
        hash(a[4])
    same(view(got), view(want), what)
    same(type(got.timeSignature), tuple, what + ": type of the meter")
    same(sorted(got.viewpoints), sorted(want.viewpoints), what + ": viewpoints")
    for k in want.viewpoints:
        same_pattern(got.viewpoints[k], want.viewpoints[k], what + ": viewpoint " + k)


def roundtrip(ctx, p, indexed, conserve, suffix=None):
    before = (view(p), bag(p))
    where = folder()
    path = gsio.toJSONFile(p, where, useTagIndexing=indexed, nameSuffix=suffix, conserveTuple=conserve)
    ctx.op()
    what = "JSON (indexed %r, conserveTuple %r) of %r" % (indexed, conserve, before)
    same(path, os.path.abspath(os.path.join(where, p.name + (suffix or "") + ".json")), what + ": path")
    same((view(p), bag(p)), before, what + ": saving changed the pattern")
    with io.open(path, encoding="utf-8") as f:
        text = f.read()
    json.loads(text)
    got = gsio.fromJSONFile(path, conserveTuple=conserve)
    ctx.op()
    same_pattern(got, p, what)
    again = gsio.toJSONFile(got, where, useTagIndexing=indexed, nameSuffix="again", conserveTuple=conserve)
    same_pattern(gsio.fromJSONFile(again, conserveTuple=conserve), p, what + ", twice")
    ctx.op(2)
    other = copy.deepcopy(p)
    other.bpm, other.events = p.bpm + 1, other.events[:-1]
    same(gsio.toJSONFile(other, where, useTagIndexing=indexed, nameSuffix=suffix, conserveTuple=conserve), path, what + ": path")
    same_pattern(gsio.fromJSONFile(path, conserveTuple=conserve), other, what + ", over another")
    ctx.op(2)
    os.remove(path)
    os.remove(again)
    return got


def make(events, duration=8, **kw):
    args = dict(name="p", bpm=97.5, key="Am", timeSignature=(3, 4), startTime=2)
    args.update(kw)
    return pattern(events, duration, **args)


@suite("tags", lambda sc: sequences(TAGS, 0, sc.pick(1, 2, 3)),
       bounds="all patterns of 0..2 (thorough: 3) of 11 tags (texts, tuples, numbers, none), all 4 formats")
def tags(ctx, case):
    p = make([(0.5 * i, 1, 60 + i, 80 + i, t) for i, t in enumerate(case)])
    for indexed, conserve in FLAGS:
        roundtrip(ctx, p, indexed, conserve)


@suite("events", lambda sc: sequences(kinds((0, 0.1, 1 / 3.0), (0.25, 1e-6, 2 / 3.0), ((60, "k"), (0, "s", 0))), 0,
                                      sc.pick(1, 2, 2)),
       bounds="all patterns of 0..2 events of 18 kinds, with times that are not exact in binary")
def events(ctx, case):
    for indexed, conserve in ((True, False), (False, True)):
        roundtrip(ctx, make(case, 1.7), indexed, conserve, "_suffix")


@suite("fields", lambda sc: product((0, 4, 7.3), (120, 99.9, 1e-3), ((4, 4), (6, 8), (7, 16)), (None, "C", "F#m", "")
                                    , (0, 2.5, -1)),
       bounds="all combinations of 3 durations, tempi, meters, start times and 4 keys")
def fields(ctx, case):
    duration, bpm, signature, key, start = case
    p = make([], duration, bpm=bpm, timeSignature=signature, key=key, startTime=start, name="p q")
    indexed, conserve = FLAGS[int(duration + start) % 4]
    roundtrip(ctx, p, indexed, conserve)


@suite("viewpoints", lambda sc: product(range(3), list(sequences(TAGS[:5], 0, 2))),
       bounds="viewpoints of viewpoints to a depth of 3, and computed ones, which still point to their pattern")
def viewpoints(ctx, case):
    depth, labels = case
    p = make([(0.5 * i, 1, 60 + i, 80 + i, t) for i, t in enumerate(labels)])
    at = p
    for i in range(depth + 1):
        at.viewpoints["v%d" % i] = make([(i, 1, 60, 80, t) for t in labels], name="view")
        at.viewpoints["w"] = make([], name="w")
        at = at.viewpoints["v%d" % i]
    for indexed, conserve in FLAGS:
        roundtrip(ctx, p, indexed, conserve)
    if labels and depth == 0:
        p.generateViewpoint("chords")
        for indexed, conserve in FLAGS:
            got = roundtrip(ctx, p, indexed, conserve)
            check(got.viewpoints["chords"].originPattern is got, "the viewpoint lost its pattern")


@suite("origins", lambda sc: sequences(range(3), 1, sc.pick(2, 4, 5)),
       bounds="chains of viewpoints to a depth of 4 (thorough: 5), each of which comes from its parent, from the first pattern or from none")
def origins(ctx, case):
    p = make([(0, 1, 60, 80, "k")], name="first")
    at, path = p, []
    for i, k in enumerate(case):
        v = make([(i, 1, 60, 80, "k")], name="view%d" % i)
        # one can only be found again from where the chain of origins leads
        reach = []
        up = at
        while up is not None:
            reach.append(up)
            up = up.originPattern
        v.originPattern = (at, reach[-1], None)[k]
        path.append((0, len(reach) - 1, None)[k])
        at.viewpoints["v"] = v
        at = v
    for indexed, conserve in FLAGS[:2]:
        at = roundtrip(ctx, p, indexed, conserve)
        for i, k in enumerate(path):
            v, reach, up = at.viewpoints["v"], [], at
            while up is not None:
                reach.append(up)
                up = up.originPattern
            check(v.originPattern is (None if k is None else reach[k]), "origin of viewpoint %d of %r", i, case)
            at = v


@suite("nested", lambda sc: sequences(((("C", "maj"), "x"), ((("a",), 1), "y"), "k", (), ("a", None, ("",)), (None,)), 0, 2),
       bounds="tags of tuples of tuples, with conserveTuple")
def nested(ctx, case):
    p = make([(0.5 * i, 1, 60 + i, 80 + i, t) for i, t in enumerate(case)])
    for indexed in (True, False):
        roundtrip(ctx, p, indexed, True)


@suite("dicts", lambda sc: sequences(TAGS, 0, sc.pick(1, 2, 2)),
       bounds="toJSONDict and fromJSONDict, all patterns of 0..2 of 11 tags")
def dicts(ctx, case):
    for indexed in (True, False):
        p = make([(0.5 * i, 1, 60 + i, 80 + i, t) for i, t in enumerate(case)])
        p.viewpoints["v"] = make([(0, 1, 60, 80, t) for t in case])
        before = snap(p)
        got = Pattern().fromJSONDict(p.toJSONDict(indexed))
        same(snap(p), before, "toJSONDict changed the pattern")
        same_pattern(got, p, "dict of %r" % (before,))
        same_pattern(Pattern().fromJSONDict(json.loads(json.dumps(p.toJSONDict(indexed)))), p, "json of %r" % (before,))
        ctx.op(2)


@suite("wide", lambda sc: [(n,) for n in (10, 100, 400)], bounds="regular patterns of up to 400 events and 60 tags")
def wide(ctx, case):
    n = case[0]
    tags = ["t%d" % i for i in range(60)] + [("a", "t%d" % i) for i in range(3)]
    p = make(ladder(n, tags=tags), n)
    for indexed, conserve in FLAGS:
        roundtrip(ctx, p, indexed, conserve)
    p = make(ladder(n, tags=tags)[::-1], 1)
    p.durationToLastEvent()
    roundtrip(ctx, p, True, False)


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(1, 3, 30)],
       bounds="files of the drum and harmony corpora, with chords")
def from_corpus(ctx, case):
    p = gsio.fromMidiFile(case)
    p.events = p.events[:200]
    p.durationToLastEvent()
    p.generateViewpoint("chords")
    for indexed, conserve in FLAGS:
        roundtrip(ctx, p, indexed, conserve)


@suite("varied", lambda sc: varied(sc, comb=5), bounds=VARIED + ", with viewpoints")
def of_the_family(ctx, case):
    for k, (indexed, conserve) in enumerate(FLAGS):
        p = varied_pattern(case, 0.7 if k % 2 else 0)
        for e in p.events:
            if isinstance(e.tag, frozenset):
                e.tag = ("no", None, "set", ()) if conserve else ("no", None, "set")
        p.timeSignature = tuple(p.timeSignature)
        p.name = {None: "none", u"\xe9": "e"}.get(p.name, p.name)
        p.viewpoints["v 1"] = make(evs(p)[::-1][:60], p.duration, name="v 1")
        p.viewpoints["v 1"].originPattern = p
        p.viewpoints[""] = make([], 3, name="")
        roundtrip(ctx, p, indexed, conserve, (None, "", ".x", "_" * 60)[k])


@suite("many tags", lambda sc: [(n, k) for n in (255, 256, 300, sc.pick(400, 1100, 5000)) for k in range(2)],
       bounds="patterns of 255..1100 (thorough: 5000) different tags")
def many_tags(ctx, case):
    n, k = case
    p = make([(i * 0.25, 0.25, i % 128, i % 128, ("t%d" % i, i, (i, "t"))[i % 3 if k else 0]) for i in range(n)], n)
    roundtrip(ctx, p, True, False)
    roundtrip(ctx, p, False, bool(k))


@suite("names", lambda sc: product((" p ", "a.b", "x.json", "p\t", "UPPER", "%s", "n" * 90), (None, " s ", ".v2")),
       bounds="the path has the name of the pattern and the suffix as they are")
def names(ctx, case):
    p = make([(0, 1, 60, 80, ("k", "s"))], 4, name=case[0], key=case[0])
    p.viewpoints[case[0]] = make([(0, 1, 60, 80, ("k", "s"))], 4, name=case[0])
    for indexed, conserve in FLAGS[:3]:
        roundtrip(ctx, p, indexed, conserve, case[1])


@suite("folders", lambda sc: product(("sub/p", "sub/deep/p.x", "./p", "sub/../p"), (None, "_s")), bounds="names that lead to folders that are there")
def folders(ctx, case):
    for k in range(7):
        where = os.path.join("output", "json%d" % k, "new", "sub", "deep")
        if not os.path.isdir(where):
            os.makedirs(where)
    p = make([(0, 1, 60, 80, ("k", "s"))], 4, name=case[0])
    for indexed, conserve in FLAGS[:3]:
        roundtrip(ctx, p, indexed, conserve, case[1])
