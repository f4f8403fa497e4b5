# -*- coding: utf-8 -*-
"""C21 a dataset holds one pattern per file, and its slices are those of its patterns"""
from __future__ import absolute_import, division, print_function

import copy
import fnmatch
import os
import shutil

import smf
from choices import explore
from core import check, fail, product, same, sequences, suite
from lib import bag, corpus, evs, pattern, snap
from gsapi import gsdefs, gsio
from gsapi.gsdataset import Dataset
from gsapi.gsdescriptors import NumberOfTags

NAMES = ["a.mid", "ab.mid", "b.mid", "b 2.mid", "c.mid", "a.txt", "mid", "notes.mid.bak"]
COUNT = [0]


def track(k, name=None):
    """a few notes that tell which file they come from; some of them overlap"""
    events = [smf.name(name)] if name else []
    for i in range(2 + k % 3):
        start = i * 96 * (1 + k % 2)
        events += [("on", start, 9, 36 + (i * 2 + k) % 10, 60 + k), ("off", start + 48 + 24 * (k % 4), 9, 36 + (i * 2 + k) % 10, 0)]
    if k % 2:
        events += [("on", 24, 9, 36 + k % 10, 50), ("off", 400, 9, 36 + k % 10, 0)]
    events.sort(key=lambda e: (e[1], e[0] == "on"))
    return events + [smf.end(96 * (5 + k))]


class Folder(object):
    """a folder of the files of a set of NAMES"""

    def __init__(self, chosen):
        COUNT[0] += 1
        self.path = os.path.join("output", "c21-%d" % (COUNT[0] % 5))
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(os.path.join(self.path, "sub"))
        self.names = []
        for k in chosen:
            self.add(k)
        smf.write(os.path.join(self.path, "sub", "a.mid"), [track(7)])

    def add(self, k):
        self.names.append(NAMES[k])
        smf.write(os.path.join(self.path, NAMES[k]), [track(k), track(k + 3, "second")], 96)

    def remove(self, k):
        self.names.remove(NAMES[k])
        os.remove(os.path.join(self.path, NAMES[k]))

    def matching(self, glob):
        glob = glob if glob.endswith(".mid") else glob + ".mid"
        return sorted(n for n in self.names if fnmatch.fnmatchcase(n, glob))


def check_dataset(ctx, ds, folder, glob, theMap, overlapped, what):
    files = list(ds.files)
    same(sorted(os.path.basename(f) for f in files), folder.matching(glob), what + ": files")
    for f in files:
        same(os.path.realpath(os.path.dirname(f)), os.path.realpath(folder.path), what + ": folder")
    same(len(ds.patterns), len(files), what + ": number of patterns")
    for i, f in enumerate(files):
        want = gsio.fromMidiFile(f, theMap, tracksToGet=[], checkForOverlapped=overlapped)
        same(snap(ds.patterns[i]), snap(want), "%s: pattern %d" % (what, i))
        same(ds.patterns[i].name, os.path.basename(f), what + ": name")
        check(ds[i] is ds.patterns[i], "%s: item %d", what, i)
    check(len(set(map(id, ds.patterns))) == len(files), "%s: a pattern twice", what)
    if files:
        check(0 <= ds.idx < len(files), "%s: index %r", what, ds.idx)
    ctx.op()


GLOBS = ("*.mid", "a*", "a.mid", "b", "*", "[ab].mid", "no", "?.mid", "b ?", "a*.mid")


def gen_folders(sc):
    for m in range(2 ** len(NAMES)):
        chosen = [i for i in range(len(NAMES)) if m >> i & 1]
        if m % sc.pick(37, 5, 1) == 0:
            yield (chosen, m % len(GLOBS))
            yield (chosen, (m * 7 + 3) % len(GLOBS))


@suite("folders", gen_folders,
       bounds="every fifth (thorough: every) set of 8 files, and another folder in it, under 2 of 10 globs each, with or without overlaps")
def folders(ctx, case):
    chosen, g = case
    folder = Folder(chosen)
    for overlapped in (True, False):
        ds = Dataset(midiFolder=folder.path, midiGlob=GLOBS[g], checkForOverlapped=overlapped)
        check_dataset(ctx, ds, folder, GLOBS[g], gsdefs.simpleDrumMap, overlapped, "folder %r, glob %r" % (folder.names, GLOBS[g]))
    theMap = {"one": [36, 38], "two": 37, "three": (39, 9)}
    given = copy.deepcopy(theMap)
    ds = Dataset(folder.path, GLOBS[g], given)
    check_dataset(ctx, ds, folder, GLOBS[g], theMap, True, "folder %r, glob %r, own map" % (folder.names, GLOBS[g]))
    same(given, theMap, "the map changed")
    ds = Dataset(midiGlob=os.path.join(folder.path, GLOBS[g]))
    check_dataset(ctx, ds, folder, GLOBS[g], gsdefs.simpleDrumMap, True, "no folder, glob %r in %r" % (GLOBS[g], folder.names))


STEPS = (("import", ""), ("import", "a*"), ("import", "b.mid"), ("import", "no"), ("add", 4), ("remove", 0), "slice", "view", "spoil")


@suite("histories", lambda sc: sequences(range(len(STEPS)), 1, sc.pick(2, 3, 5)),
       bounds="all histories of 1..3 (thorough: 5) imports, new and lost files, slices, viewpoints and edits")
def histories(ctx, case):
    folder = Folder([0, 1, 2])
    ds = Dataset(folder.path, "*.mid")
    glob, fresh = "*.mid", True
    known = list(folder.names)
    for i, k in enumerate(case):
        step = STEPS[k]
        what = "history %r" % ([STEPS[x] for x in case[:i + 1]],)
        if step[0] == "import":
            if not step[1] and sorted(folder.names) != sorted(known):
                # importing again reads the files that were found
                if any(n not in folder.names for n in known):
                    continue
                ds.setMidiGlob(glob)
            if step[1]:
                glob = step[1]
            got = ds.importMidi(step[1]) if step[1] else ds.importMidi()
            known = list(folder.names)
            check(got is ds.patterns, "%s: importMidi returns something else", what)
            check_dataset(ctx, ds, folder, glob, gsdefs.simpleDrumMap, True, what)
        elif step[0] == "add":
            if NAMES[step[1]] not in folder.names:
                folder.add(step[1])
        elif step[0] == "remove":
            if NAMES[step[1]] in folder.names:
                folder.remove(step[1])
        elif step == "slice":
            check_slices(ctx, ds, what)
        elif step == "view":
            ds.generateViewpoint("v", NumberOfTags(), 2)
            for p in ds.patterns:
                want = p.copy().generateViewpoint("v", NumberOfTags(), 2)
                same(evs(p.viewpoints["v"]), evs(want), what + ": viewpoint")
                check(p.viewpoints["v"].originPattern is p, "%s: viewpoint of another pattern", what)
            check_slices(ctx, ds, what, "v")
        else:
            for p in ds.patterns:
                p.events[:] = p.events[:1]
                p.duration += 1


def check_slices(ctx, ds, what, view=None):
    for length in (1, 2, 4, 1.5, 16):
        for supress in (True, False):
            before = [snap(p) for p in ds.patterns]
            want = []
            for p in ds.patterns:
                want += p.copy().splitInEqualLengthPatterns(length, viewpointName=view, supressEmptyPattern=supress)
            got = ds.getAllSliceOfDuration(length, view, supress) if view else ds.getAllSliceOfDuration(length, supressEmptyPattern=supress)
            ctx.op()
            same([x and snap(x) for x in got], [x and snap(x) for x in want], "%s: slices of %r" % (what, length))
            for x in got:
                for e in x.events if x else ():
                    e.pitch, e.startTime = 0, 99
            same([snap(p) for p in ds.patterns], before, what + ": slicing changed the patterns")
    default = [snap(x) for x in ds.getAllSliceOfDuration(2)]
    want = [snap(x) for p in ds.patterns for x in p.copy().splitInEqualLengthPatterns(2)]
    same(default, want, what + ": slices")


@suite("chosen", lambda sc: [tuple(range(n)) for n in range(0, 6)], bounds="every random choice of the file to start with")
def chosen(ctx, case):
    folder = Folder(case)
    files = folder.matching("*")
    seen = set()
    for ds, _, _ in explore(lambda: Dataset(folder.path)):
        check_dataset(ctx, ds, folder, "*", gsdefs.simpleDrumMap, True, "folder %r" % (folder.names,))
        seen.add(ds.idx)
    same(seen, set(range(len(files))) if files else {None}, "chosen files of %r" % (files,))


OPTIONS = [{}, {"noteToTagMap": {"k": [36, 37, 38], "s": 40}}, {"noteToTagMap": {"k": 36}, "filterOutNotMapped": False},
           {"tracksToGet": ["second"]}, {"tracksToGet": [0]}, {"noteToTagMap": {"s": ["second"]}, "tagFromTrackName": True}, {"noteToTagMap": "pitchName"}]


@suite("collections", lambda sc: [(c, o, g) for c in ([], [0], [0, 1, 2, 3], [1, 2, 5, 6, 7], [4, 2, 0]) for o in range(len(OPTIONS))
                                  for g in (range(len(GLOBS)) if sc.level else (0, 1))],
       bounds="fromMidiCollection of 5 folders under 10 globs, with 7 options, cut or not")
def collections(ctx, case):
    chosen, o, g = case
    folder = Folder(chosen)
    names = [n for n in folder.names + ["sub"] if fnmatch.fnmatchcase(n, GLOBS[g])]
    files = [os.path.join(folder.path, n) for n in names if n.endswith(".mid")]
    if len(files) < len(names):
        return
    for length in (0, 1, 2, 4, 2.5, 7, 16, 0.5, 0.75):
        options = copy.deepcopy(OPTIONS[o])
        what = "collection %r of %r, %r, length %r" % (GLOBS[g], folder.names, options, length)
        got = gsio.fromMidiCollection(os.path.join(folder.path, GLOBS[g]), desiredLength=length, **options)
        ctx.op()
        same(options, OPTIONS[o], what + ": the options changed")
        want = []
        for f in files:
            p = gsio.fromMidiFile(f, **copy.deepcopy(OPTIONS[o]))
            want.append(p.splitInEqualLengthPatterns(length) if length else [p])
        # the patterns of a file are together and in order, the files in any
        left = [[snap(x) for x in w] for w in want if w]
        rest = [snap(x) for x in got]
        while rest:
            first = [w for w in left if w == rest[:len(w)]]
            check(first, "%s: unexpected %r", what, rest[0])
            rest = rest[len(first[0]):]
            left.remove(first[0])
        check(not left, "%s: missing %r", what, left[:1])


@suite("corpus", lambda sc: [("drums",), ("harmony",)][:sc.pick(1, 2, 2)], bounds="the drum and harmony corpora as a whole", py=(3,))
def from_corpus(ctx, case):
    files = corpus(case[0], "*.mid")
    if not files:
        return
    ds = Dataset("/corpora/" + case[0], "*.mid")
    same(sorted(ds.files), files, "files")
    for f, p in zip(ds.files, ds.patterns):
        same(snap(p), snap(gsio.fromMidiFile(f, gsdefs.simpleDrumMap, checkForOverlapped=True)), f)
        ctx.op()
    check_slices(ctx, ds, "corpus")


@suite("many files", lambda sc: [(n, k) for n in (11, 13, sc.pick(40, 105, 400)) for k in range(3)],
       bounds="folders of 11..105 (thorough: 400) files, some of them without notes, names with .mid and dots in them")
def many_files(ctx, case):
    n, k = case
    folder = Folder([])
    for i in range(n):
        name = ("f%d.mid", "x.middle.%d.mid", "%d.mid.mid")[(i + k) % 3] % i
        folder.names.append(name)
        smf.write(os.path.join(folder.path, name), [track(i)] if i % 5 else [[smf.end(96 * 4)]], 96)
    for glob in ("*", "*.mid", "f*", "x.middle.*", "*.mid.mid", "*1*.mid", "x.mid*"):
        for overlapped in (True, False):
            ds = Dataset(folder.path, glob, checkForOverlapped=overlapped)
            check_dataset(ctx, ds, folder, glob, gsdefs.simpleDrumMap, overlapped, "%d files, glob %r" % (n, glob))
    ds = Dataset(folder.path)
    check_slices(ctx, ds, "%d files" % n)
    ds.generateViewpoint("v", NumberOfTags(), 1)
    for p in ds.patterns:
        check("v" in p.viewpoints and p.viewpoints["v"].originPattern is p, "a pattern of %d events has no viewpoint", len(p.events))
        want = p.copy().generateViewpoint("v", NumberOfTags(), 1)
        same(evs(p.viewpoints["v"]), evs(want), "viewpoint")
    check_slices(ctx, ds, "viewpoints of %d files" % n, "v")


@suite("crowd", lambda sc: [(n, k) for n in sc.pick((70, 300), (70, 140, 300, 530), (70, 140, 300, 530, 1100)) for k in range(sc.pick(1, 2, 3))],
       bounds="folders of 70, 140, 300 and 530 (thorough: 1100) tiny files")
def crowd(ctx, case):
    n, k = case
    folder = Folder([])
    for i in range(n):
        folder.names.append("%d.mid" % (i * 7 + k))
        smf.write(os.path.join(folder.path, folder.names[-1]), [[("on", 0, 9, 36 + i % 12, 1 + i % 120), ("off", 24 + i % 24, 9, 36 + i % 12, 0), smf.end(96)]], 96)
    check_dataset(ctx, Dataset(folder.path), folder, "*", gsdefs.simpleDrumMap, True, "%d tiny files" % n)
    same(len(gsio.fromMidiCollection(os.path.join(folder.path, "*.mid"))), n, "collection of %d tiny files" % n)
    ctx.op()
