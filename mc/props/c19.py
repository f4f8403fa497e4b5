# -*- coding: utf-8 -*-
"""C19 imported notes get exactly the tags that the map gives them"""
from __future__ import absolute_import, division, print_function

import copy
import os

import ops
import smf
from core import check, fail, product, same, sequences, suite
from lib import corpus, evs, near, repr_tag, same_bag
from gsapi import gsdefs, gsio

COUNT = [0]


def path():
    COUNT[0] += 1
    return os.path.join("output", "c19-%d.mid" % (COUNT[0] % 9))


def track_of(notes, name=None, start=0):
    """notes are (pitch, channel, velocity), one after the other, half a beat each"""
    events = [] if name is None else [smf.name(name)]
    for i, (pitch, channel, velocity) in enumerate(notes):
        t = (start + i) * 48
        events += [("on", t, channel, pitch, velocity), ("off", t + 24, channel, pitch, 0)]
    return events + [smf.end((start + len(notes)) * 48)]


def mapped(spec, pitch, channel):
    """whether one value of a map stands for the note"""
    if isinstance(spec, list):
        return any(mapped(x, pitch, channel) for x in spec)
    if isinstance(spec, tuple):
        return spec[0] in ("*", pitch) and spec[1] in ("*", channel)
    return spec == pitch


def tags_of(theMap, pitch, channel):
    return {tag for tag in theMap if mapped(theMap[tag], pitch, channel)}


def same_tags(tag, want, what):
    if len(want) == 1:
        one = list(want)[0]
        check(tag == one, "%s: tag %r instead of %r", what, tag, one)
        return
    check(isinstance(tag, tuple) and set(tag) == want and len(tag) == len(want),
          "%s: tag %r instead of the tags %r", what, tag, sorted(want, key=repr_tag))


def check_import(ctx, file, notes, theMap, **kw):
    """one track of notes, imported with a map"""
    for keep in (False, True):
        given = copy.deepcopy(theMap)
        p = gsio.fromMidiFile(file, given, filterOutNotMapped=not keep, **kw)
        ctx.op()
        what = "notes %r with the map %r%s" % (notes if len(notes) < 9 else len(notes), theMap if len(theMap) < 9 else len(theMap),
                                               ", unmapped ones kept" if keep else "")
        same(given, theMap, what + ": the map of the caller changed")
        want = [(i, n) for i, n in enumerate(notes) if keep or tags_of(theMap, n[0], n[1])]
        same([(e.startTime, e.duration, e.pitch, e.velocity) for e in p.events],
             [(i / 2.0, 0.25, n[0], n[2]) for i, n in want], what)
        for e, (i, n) in zip(p.events, want):
            tags = tags_of(theMap, n[0], n[1])
            if tags:
                same_tags(e.tag, tags, what + ", note %r" % (n,))
            else:
                same(e.tag, (), what + ", note %r without a tag" % (n,))
        check(near(p.duration, len(notes) / 2.0), "%s: duration %r", what, p.duration)


VALUES = [36, (36, "*"), (36, 9), ("*", 9), ("*", "*"), [36, 38], [36, (38, 9)], [], [(36, 0), ("*", 1)], [(38, 1)], 0,
          [36, (36, 9), (36, "*")], [("*", 9), (38, 9), 38, 38]]
NOTES = [(pitch, channel, 1 + 5 * pitch % 120 + channel) for channel in (0, 1, 9, 15) for pitch in (0, 36, 38, 40)]


@suite("maps", lambda sc: product(range(len(VALUES)), range(-1, len(VALUES))),
       bounds="all maps of one or two tags to 13 values (numbers, pairs, wildcards, lists), 16 notes of 4 channels")
def maps(ctx, case):
    theMap = {"k": VALUES[case[0]]}
    if case[1] >= 0:
        theMap["s"] = VALUES[case[1]]
    file = path()
    smf.write(file, [track_of(NOTES)])
    check_import(ctx, file, NOTES, theMap)
    if case[1] >= 0:
        check_import(ctx, file, NOTES, {("a", 1): VALUES[case[0]], 7: VALUES[case[1]]})
        check_import(ctx, file, NOTES, {"kick": VALUES[case[0]], "ki": VALUES[case[1]], "ic": VALUES[2]})


@suite("three", lambda sc: sequences(range(sc.pick(4, 7, 13)), 3, 3), bounds="maps of three tags")
def three(ctx, case):
    file = path()
    smf.write(file, [track_of(NOTES)])
    check_import(ctx, file, NOTES, {t: VALUES[i] for t, i in zip("abc", case)})


MAPS = ["generalMidiDrums", "simpleDrumMap", "verySimpleDrumMap", "noteMap"]


@suite("all notes", lambda sc: product(range(16), range(len(MAPS) + 3)),
       bounds="all 128 pitches on all 16 channels, the maps that gsapi defines, and names of pitches")
def all_notes(ctx, case):
    channel, k = case
    notes = [(pitch, channel, 1 + (pitch * 3 + channel) % 127) for pitch in range(128)]
    file = path()
    smf.write(file, [track_of(notes)])
    if k < len(MAPS):
        theMap = getattr(gsdefs, MAPS[k])
        before = copy.deepcopy(theMap)
        check_import(ctx, file, notes, theMap)
        same(theMap, before, "the map of gsdefs changed")
        return
    names = [None, ["C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B"],
             ["c", "c#", "d", "d#", "e", "f", "f#", "g", "g#", "a", "a#", "b"]][k - len(MAPS)]
    given = {"pitchName": list(names)} if names else "pitchName"
    for keep in (False, True):
        p = gsio.fromMidiFile(file, given, filterOutNotMapped=not keep) if k % 2 else \
            gsio.fromMidiFile(file, filterOutNotMapped=not keep) if not names else \
            gsio.fromMidiFile(file, noteToTagMap=given)
        ctx.op()
        want = [(names or ops.NAMES)[n[0] % 12] + str(n[0] // 12 - 1) for n in notes]
        same([(e.tag, e.pitch, e.velocity) for e in p.events], [(t, n[0], n[2]) for t, n in zip(want, notes)],
             "names of pitches %r" % (given,))
    same(given, {"pitchName": list(names)} if names else "pitchName", "the map of the caller changed")


NAMES = ["Kick", "my Kick 1", "Snare", "Snare+Kick", "kick", "", None, "Kic", "HiKickHat"]


@suite("track names", lambda sc: sequences(range(len(NAMES)), 1, sc.pick(1, 2, 3)),
       bounds="all files of 1..2 (thorough: 3) tracks of 9 names: the tags are those that the name of the track holds")
def track_names(ctx, case):
    theMap = {"Kick": 36, "Snare": [38, (40, 9)], "Hi": ("*", 1), "k": 37, "+": 1, "1": []}
    notes = [(36, 0, 5), (38, 1, 6), (41, 9, 7)]
    file = path()
    smf.write(file, [track_of(notes, NAMES[i], 4 * k) for k, i in enumerate(case)])
    for keep in (False, True):
        given = copy.deepcopy(theMap)
        p = gsio.fromMidiFile(file, given, tagFromTrackName=True, filterOutNotMapped=not keep)
        ctx.op()
        what = "tracks %r with tags of their names" % ([NAMES[i] for i in case],)
        same(given, theMap, what + ": the map of the caller changed")
        want = []
        for k, i in enumerate(case):
            tags = {t for t in theMap if NAMES[i] and t in NAMES[i]}
            if tags:
                want += [(4 * k + j, n, tags) for j, n in enumerate(notes)]
        same([(e.startTime, e.duration, e.pitch, e.velocity) for e in p.events],
             [(i / 2.0, 0.25, n[0], n[2]) for i, n, _ in want], what)
        for e, (_, n, tags) in zip(p.events, want):
            same_tags(e.tag, tags, what)
    # names of tracks do not matter unless asked for
    p = gsio.fromMidiFile(file, copy.deepcopy(theMap))
    ctx.op()
    want = []
    for k, i in enumerate(case):
        want += [(4 * k + j, n, tags_of(theMap, n[0], n[1])) for j, n in enumerate(notes) if tags_of(theMap, n[0], n[1])]
    same([(e.startTime, e.pitch) for e in p.events], [(i / 2.0, n[0]) for i, n, _ in want], "tags of the notes")
    for e, (_, n, tags) in zip(p.events, want):
        same_tags(e.tag, tags, "tags of the notes")


@suite("again", lambda sc: product(range(len(VALUES)), range(3)), bounds="importing many times with one map, of files and of folders")
def again(ctx, case):
    theMap = {"k": copy.deepcopy(VALUES[case[0]]), "s": [38, (40, "*")]}
    before = copy.deepcopy(theMap)
    folder = os.path.join("output", "c19-%d" % case[0])
    if not os.path.isdir(folder):
        os.makedirs(folder)
    for i in range(2):
        smf.write(os.path.join(folder, "%d.mid" % i), [track_of(NOTES)])
    first = gsio.fromMidiFile(os.path.join(folder, "0.mid"), theMap)
    results = [first]
    for i in range(case[1]):
        results.append(gsio.fromMidiFile(os.path.join(folder, "1.mid"), theMap))
    results += gsio.fromMidiCollection(os.path.join(folder, "*.mid"), theMap)
    ctx.op(2 + case[1])
    for p in results:
        same(evs(p), evs(first), "importing again with %r" % (before,))
    same(theMap, before, "the map of the caller changed")


@suite("wide", lambda sc: [(n,) for n in (20, 128)], bounds="maps of up to 128 tags with lists of all channels")
def wide(ctx, case):
    notes = [(pitch, pitch % 16, 1 + pitch % 100) for pitch in range(128)]
    file = path()
    smf.write(file, [track_of(notes)])
    theMap = {}
    for i in range(case[0]):
        theMap["t%d" % i] = [(i, c) for c in range(0, 16, 3)] + [i + 64, ("*", i)] if i % 2 else i
    check_import(ctx, file, notes, theMap)
