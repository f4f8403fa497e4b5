# -*- coding: utf-8 -*-
"""What a user can do with a pattern, each as a function of the pattern (and of a scratch folder) that gives a plain
description of all that came out of it: equal descriptions, equal results, in every interpreter and at any time."""
from __future__ import absolute_import, division, print_function

import json
import os
import shutil
import sys

from choices import Fixed, controlled
from lib import META, Pattern
from gsapi import gsdataset, gsdefs, gsdescriptors, gsextractors, gsio, gsstyles, gstransformers, gsutil

PY2 = sys.version_info[0] == 2


def plain(x):
    """nested lists of texts; numbers to their last bit, dictionaries and sets in an order of their own"""
    if x is None or x is True or x is False:
        return repr(x)
    if isinstance(x, float):
        return x.hex() if x != int_(x) else plain(int_(x))
    if isinstance(x, bytes) and not PY2:
        return "bytes " + x.decode("latin-1")
    if isinstance(x, str):
        return "text " + (x.decode("utf-8") if PY2 else x)
    if PY2 and isinstance(x, unicode):      # noqa: F821
        return "text " + x
    if isinstance(x, (list, tuple)):
        return [type(x).__name__ if type(x) in (list, tuple) else "tuple"] + [plain(y) for y in x]
    if isinstance(x, dict):
        return ["dict"] + sorted(([plain(k), plain(v)] for k, v in x.items()), key=repr_)
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted((plain(y) for y in x), key=repr_)
    if isinstance(x, Pattern):
        return ["pattern", plain([getattr(x, k) for k in META]), sorted((plain(e) for e in x.events), key=repr_),
                plain({k: v for k, v in x.viewpoints.items()})]
    if hasattr(x, "startTime"):
        res = ["event"] + [plain(getattr(x, k)) for k in ("startTime", "duration", "pitch", "velocity", "tag")]
        if getattr(x, "originPattern", None) is not None:
            res.append(plain([[e.startTime, e.duration, e.pitch, e.tag] for e in x.originPattern.events]))
        if hasattr(x, "components"):
            res.append(plain(x.components))
        return res
    if isinstance(x, int) or PY2 and isinstance(x, long):      # noqa: F821
        return "%d" % x
    return "a " + type(x).__name__


def int_(x):
    try:
        return int(x)
    except (OverflowError, ValueError):
        return None


repr_ = json.dumps


def edit(name, *args):
    def act(p, where):
        getattr(p, name)(*[list(a) if isinstance(a, list) else a for a in args])
        return p
    return act


def ask(function):
    return lambda p, where: function(p)


def bytes_of(path):
    with open(path, "rb") as f:
        return f.read()


def to_midi(p, where):
    path = gsio.toMidiFile(p, folderPath=where, name="m")
    return [bytes_of(path).decode("latin-1"), gsio.fromMidiFile(path), gsio.fromMidiFile(path, {"x": (60, "*"), "y": [61, 62]}),
            gsio.fromMidiFile(path, {"x": list(range(128))}, checkForOverlapped=True)]


def with_names(p, where):
    path = gsio.toMidiFile(p, folderPath=where, name="m")
    names = ["%s'" % x for x in "cdefgabhijkl"]
    return [gsio.fromMidiFile(path, {"pitchName": names}), gsio.fromMidiFile(path, "pitchName"), gsio.fromMidiFile(path, gsio.gsdefs.simpleDrumMap),
            gsio.fromMidiFile(path, {"x": 60}, tracksToGet=[0]), gsio.fromMidiFile(path)]


def to_json(p, where):
    res = []
    for indexed in (True, False):
        path = gsio.toJSONFile(p, where, useTagIndexing=indexed)
        res += [gsio.fromJSONFile(path)]
    return res + [p.toJSONDict(False)]


def to_pickle(p, where):
    return gsio.fromPickleFile(gsio.toPickleFile(p, where))


def in_dataset(p, where):
    gsio.toMidiFile(p, folderPath=where, name="a")
    q = p.copy()
    q.transpose(1)
    gsio.toMidiFile(q, folderPath=where, name="b")
    d = gsdataset.Dataset(midiFolder=where, midiGlob="*.mid")
    # the order of files is that of the folder
    slices = [[q.name, q.duration, q.startTime, q.events] for q in d.getAllSliceOfDuration(2)]
    d.generateViewpoint("d", gsdescriptors.Density(), 2)
    return [sorted((plain([q.name, q.duration, q.events, [e.tag for e in q.viewpoints["d"].events]]) for q in d), key=repr_),
            sorted((plain(x) for x in slices), key=repr_)]


def learn(order, steps):
    def act(p, where):
        s = gsstyles.MarkovStyle(order=order, numSteps=steps, loopDuration=4)
        s.generateStyle([q for q in p.splitInEqualLengthPatterns(4)])
        with controlled(Fixed("last")):
            a = s.generatePattern()
        with controlled(Fixed("first")):
            b = s.generatePattern(3)
        table = [{past: dict(row) for past, row in t.items()} for t in s.markovChain.transitionTable]
        s.saveToJSON(os.path.join(where, "s.json"))
        t = gsstyles.MarkovStyle()
        t.loadFromJSON(os.path.join(where, "s.json"))
        # which of several equal chances comes first is not promised, so not the generated patterns themselves
        return [table, a.duration, b.duration, t.markovChain.order,
                [{past: dict(row) for past, row in x.items()} for x in t.markovChain.transitionTable]]
    return act


def database(mode):
    def act(p, where):
        s = gsstyles.DatabaseStyle(mode)
        s.generateStyle([p, p.copy(), p.getFilledWithSilences()])
        with controlled(Fixed("last")):
            return [s.generatePattern(i) if mode == "indexed" else s.generatePattern() for i in range(2)]
    return act


def density(mode, *requests):
    def act(p, where):
        t = gstransformers.AgnosticDensity(mode, 16)
        res = []
        with controlled(Fixed("last")):
            for r in requests:
                got = t.transformPattern(p, {"normalizedDensities": {k: r for k in sorted(p.getAllTags(), key=repr)}})
                res.append(got and sorted((plain([e.startTime, e.tag]) for e in got.events), key=repr_))
        return res
    return act


def views(p, where):
    p.generateViewpoint("d", gsdescriptors.Density(), 1)
    p.generateViewpoint("c", gsdescriptors.Chord(), 2)
    p.generateViewpoint("chords")
    p.generateViewpoint("n", gsdescriptors.NumberOfTags(), "all")
    return [p, p.patternFromTimeSlice(1, 2), p.splitInEqualLengthPatterns(2, viewpointName="d")]


def descriptor(make):
    return lambda p, where: make().getDescriptorForPattern(p)

ACTS = [
    ("removeOverlapped", edit("removeOverlapped")), ("removeOverlapped pitch", edit("removeOverlapped", True)),
    ("silences", edit("fillWithSilences")), ("silences 1", edit("fillWithSilences", 1)), ("silences tag", edit("fillWithSilences", 0, True)),
    ("silences x", edit("fillWithSilences", 0.75, False, "x")),
    ("quantize", edit("quantize")), ("quantize 0.3", edit("quantize", 0.3)), ("quantize ends", edit("quantize", 0.5, False, True)),
    ("alignOnGrid", edit("alignOnGrid", 0.5)), ("alignOnGrid rep", edit("alignOnGrid", 1, ["k"])), ("alignOnGrid third", edit("alignOnGrid", 1 / 3.0)),
    ("legato", edit("applyLegato")), ("legato tag", edit("applyLegato", False)), ("previous", edit("fillWithPreviousEvent")),
    ("stretch", edit("timeStretch", 1.5)), ("stretch third", edit("timeStretch", 1 / 3.0)), ("transpose", edit("transpose", 3)),
    ("reorder", edit("reorderEvents")), ("to last", edit("durationToLastEvent", False)), ("to bar", edit("durationToBar")),
    ("remove k", edit("removeByTags", ["k", "tag3", "a"])), ("copy", ask(lambda p: p.copy())), ("bare", ask(lambda p: p.copyWithoutEvents())),
    ("filled", ask(lambda p: p.getFilledWithSilences(1))),
    ("slices", ask(lambda p: p.splitInEqualLengthPatterns(1.5))), ("slices third", ask(lambda p: p.splitInEqualLengthPatterns(4 / 3.0, supressEmptyPattern=False))),
    ("slices shared", ask(lambda p: p.copy().splitInEqualLengthPatterns(2, makeCopy=False))),
    ("window", ask(lambda p: [p.patternFromTimeSlice(0.5, 2), p.patternFromTimeSlice(1, 1.25, False)])),
    ("with", ask(lambda p: [p.getPatternWithTags(t, exactSearch=x) for t in ("k", ("a", "b"), "tag1", lambda e: True) for x in (True, False)])),
    ("without", ask(lambda p: [p.getPatternWithoutTags(t, exactSearch=x) for t in ("k", ("a", "b"), "tag1") for x in (True, False)])),
    ("pitch", ask(lambda p: [p.getPatternWithPitch(k) for k in (60, 0, 37)])),
    ("active", ask(lambda p: [p.activeEventsAtTime(t, x) for t in (0, 0.5, 0.999, 1, 1000) for x in (0, 0.1)])),
    ("starting", ask(lambda p: [p.getStartingEventsAtTime(t, x) for t in (0, 0.5, 0.999, 1, 1000) for x in (0, 0.1)])),
    ("tags", ask(lambda p: [set(p.getAllTags()), set(p.getAllPitches()), len(p), p.lastNoteOff()])),
    ("identical", ask(lambda p: [p.getIdenticalEvents(e, x) for e in p.events[:3] for x in (True, False)])),
    ("events", ask(lambda p: [[e.isTag("k"), e.hasOneOfTags(("k", "a")), e.containsTime(0.5), e.endTime(), e.cutInSteps(0.5) if e.duration < 50 else None, e.copy()]
                               for e in p.events[:5]])),
    ("equal", ask(lambda p: [p == p.copy(), p != p.copy(), p.events[:1] == p.copy().events[:1], p == p.copyWithoutEvents()])),
    ("new", ask(lambda p: [Pattern(), Pattern(4), Pattern(duration=3, bpm=90)])),
    ("midi", to_midi), ("midi names", with_names), ("json", to_json), ("pickle", to_pickle), ("dataset", in_dataset),
    ("markov 1", learn(1, 8)), ("markov 2", learn(2, 4)), ("database", database("indexed")), ("database random", database("random")),
    ("density", density("random", 0.5, 2, 1)), ("density other", density("hysteresis", 0, 1.5)),
    ("views", views), ("density of", descriptor(gsdescriptors.Density)), ("density of tags", descriptor(lambda: gsdescriptors.Density(["k"], None))),
    ("number of tags", descriptor(gsdescriptors.NumberOfTags)), ("syncopation", descriptor(gsdescriptors.Syncopation)),
    ("chord", descriptor(gsdescriptors.Chord)), ("chord forced", descriptor(lambda: gsdescriptors.Chord(True, True))),
    ("drum space", ask(lambda p: gsextractors.DensityDrumSpace().getFeatureSpace(p))),
    ("chordify", ask(lambda p: [gstransformers.Chordify(p).outputPattern])),
]


def do(act, p, where):
    """the description of what an act gives, or of what it refuses"""
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    try:
        return plain(act(p, where))
    except Exception as e:
        return "refused: " + type(e).__name__


def tables():
    """the tables of the modules, which nothing may change"""
    res = {}
    for m in (gsdefs, gsdescriptors, gsio, gsutil, gsstyles, gstransformers):
        for k, v in vars(m).items():
            if not k.startswith("__") and isinstance(v, (dict, list, set, tuple)):
                res[m.__name__ + "." + k] = plain(v)
    return res
