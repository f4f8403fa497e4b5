# -*- coding: utf-8 -*-
"""C17 a pattern exported as MIDI comes back the same, and the file follows the standard"""
from __future__ import absolute_import, division, print_function

import os

import ops
import smf
from core import check, fail, product, same, sequences, suite
from lib import (EPS, VARIED, Pattern, bag, corpus, end, event, evs, kinds, ladder, meta, near, pattern, same_bag,
                 snap, varied, varied_pattern)
from gsapi import gsio

MAJOR = ["Cb", "Gb", "Db", "Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#"]
MINOR = ["Abm", "Ebm", "Bbm", "Fm", "Cm", "Gm", "Dm", "Am", "Em", "Bm", "F#m", "C#m", "G#m", "D#m", "A#m"]
COUNT = [0]


def folder():
    COUNT[0] += 1
    return os.path.join("output", "midi%d" % (COUNT[0] % 5), "new")


def tick(x, resolution):
    return int(round(x * resolution))


def bpm_of(mpqn):
    return 6e7 / mpqn


def check_file(path, p, pitches, what):
    """the notes, the end and the meta events, as a strict reader finds them"""
    res = p.resolution
    frmt, resolution, tracks = smf.load(path)
    same(resolution, res, what + ": resolution")
    channels = set(e[2] for t in tracks for e in t if e[0] in ("on", "off"))
    check(len(channels) < 2, "%s: the notes are on several channels %r", what, sorted(channels))
    notes = sorted(e for t in tracks for e in t if e[0] in ("on", "off"))
    want = []
    for t, pitch in zip(evs(p), pitches):
        want += [("on", tick(t[0], res), pitch, t[3]), ("off", tick(t[0] + t[1], res), pitch)]
    same(sorted((e[0], e[1], e[3], e[4]) if e[0] == "on" else (e[0], e[1], e[3]) for e in notes), sorted(want),
         what + ": notes of the file")
    metas = {}
    for t in tracks:
        check(t and t[-1][0] == "meta" and t[-1][2] == smf.EOT, "%s: a track has no end", what)
        for e in t:
            if e[0] == "meta":
                metas.setdefault(e[2], []).append(e)
    same(max(e[1] for e in metas[smf.EOT]), tick(p.duration, res), what + ": end of the file")
    same([e[3] for e in metas[0x58]], [p.timeSignature[0]], what + ": meter")
    same([2 ** e[4] for e in metas[0x58]], [p.timeSignature[1]], what + ": meter")
    same([e[3] << 16 | e[4] << 8 | e[5] for e in metas[0x51]], [int(round(6e7 / p.bpm))], what + ": tempo")
    key = [(e[3] - 256 if e[3] > 127 else e[3], e[4]) for e in metas.get(0x59, [])]
    if p.key:
        table = MINOR if p.key.endswith("m") else MAJOR
        same(key, [(table.index(p.key) - 7, int(p.key.endswith("m")))], what + ": key signature")
    else:
        same(key, [], what + ": key signature")
    if p.name:
        same(["".join(map(chr, e[3:])) for e in metas[3]], [p.name], what + ": track name")


def roundtrip(ctx, p, midiMap=None, pitches=None, name=None, eps=None):
    before = snap(p)
    where = folder()
    kw = {"folderPath": where}
    if midiMap is not None:
        kw["midiMap"] = midiMap
    if name:
        kw["name"] = name
    path = gsio.toMidiFile(p, **kw)
    ctx.op()
    what = "MIDI of %r" % (before[:2],)
    base = name or p.name or "tests"
    base = base if ".mid" in base else base + ".mid"
    same(os.path.abspath(path), os.path.abspath(os.path.join(where, base)), what + ": path")
    same(snap(p), before, what + ": exporting changed the pattern")
    pitches = pitches or [t[2] for t in evs(p)]
    check_file(path, p, pitches, what)
    got = gsio.fromMidiFile(path)
    ctx.op()
    res = float(p.resolution)
    want = []
    for t, pitch in zip(evs(p), pitches):
        a, b = tick(t[0], res), tick(t[0] + t[1], res)
        want.append((a / res, (b - a) / res, pitch, t[3], ops.pitch_name(pitch)))
    same_bag(evs(got), want, what, EPS)
    check(near(got.duration, tick(p.duration, res) / res), "%s: duration %r", what, got.duration)
    same((tuple(got.timeSignature), got.key or None, got.resolution, got.name),
         (tuple(p.timeSignature), p.key or None, p.resolution, base), what + ": fields")
    check(near(got.bpm, bpm_of(int(round(6e7 / p.bpm)))), "%s: bpm %r", what, got.bpm)
    again = gsio.toMidiFile(got, folderPath=where, name="again")
    ctx.op()
    got.name = p.name
    if p.duration * res == int(p.duration * res) and midiMap is None:
        check_file_same(path, gsio.toMidiFile(got, folderPath=where, name="again"), what)
        ctx.op()
    other = p.copy()
    other.bpm, other.events = p.bpm + 1, other.events[:-1]
    same(gsio.toMidiFile(other, **kw), path, what + ": path")
    check_file(path, other, pitches[:-1], what + ", over another")
    ctx.op()
    os.remove(path)
    os.remove(again)
    return got


def check_file_same(a, b, what):
    one, two = smf.load(a), smf.load(b)
    same([sorted(t) for t in two[2]], [sorted(t) for t in one[2]], what + ": exported again")


def make(events, duration=8, **kw):
    args = dict(name="p", bpm=97, key="Am", timeSignature=(3, 4))
    args.update(kw)
    return pattern(events, duration, **args)


def legal(events):
    """no two events of a pitch overlap, as MIDI cannot tell them apart"""
    left = sorted(events, key=lambda t: (t[2], t[0]))
    return all(a[2] != b[2] or a[0] + a[1] <= b[0] for a, b in zip(left, left[1:]))


KINDS = kinds((0, 0.5, 1, 2), (0.25, 0.5, 1.5), ((60, "k"), (62, ("a", "b"), 1), (60, "other", 127)))


@suite("small", lambda sc: (c for c in sequences(KINDS if sc.level else KINDS[:12], 0, 2) if legal(c)),
       bounds="all sequences of 0..2 events of 36 kinds that do not overlap within a pitch, in every order")
def small(ctx, case):
    roundtrip(ctx, make(case, 4))


@suite("three", lambda sc: (c for c in sequences(kinds((0, 0.5, 1), (0.5, 1), ((60, "k"), (61, "s"))), 3, 3)
                            if legal(c)) if sc.level else [],
       bounds="all sequences of 3 events of 12 kinds that do not overlap within a pitch", py=(3,))
def three(ctx, case):
    roundtrip(ctx, make(case, 2.5, key=None))


@suite("notes", lambda sc: [(pitch,) for pitch in range(128)], bounds="every pitch, and every velocity from 1")
def notes(ctx, case):
    roundtrip(ctx, make([(i / 8.0, 1 / 8.0, case[0], 1 + (i * 8 + case[0]) % 127, "k") for i in range(16)], 4))


def gen_fields(sc):
    for k in [None] + MAJOR + MINOR:
        yield (k, 4, 4, 120, 960)
    for n in range(1, 17):
        for power in range(0, 7):
            yield (None, n, 2 ** power, 120, 960)
    for bpm in [60, 97, 99.9, 120, 128.5, 133, 174, 89.17, 120.031, 400.55, 33.333] + list(range(10, 400, sc.pick(60, 7, 1))):
        yield ("C", 4, 4, bpm, 96)
    for resolution in (1, 24, 96, 120, 480, 960, 9600, 32767):
        yield ("C", 4, 4, 120, resolution)


@suite("fields", gen_fields, bounds="all 30 keys, meters of 1..16 over 1..64, tempi of 10..400, 8 resolutions")
def fields(ctx, case):
    key, n, d, bpm, resolution = case
    roundtrip(ctx, make([(0, 1, 60, 80, "k"), (2, 1, 61, 80, "s")], 4, key=key, timeSignature=(n, d), bpm=bpm,
                        resolution=resolution, name="a name"))


@suite("rounding", lambda sc: product(range(sc.pick(10, 40, 200)), (1 / 3.0, 0.1, 0.7, 1 / 7.0), (24, 96, 960)),
       bounds="times that fall between ticks go to the nearest one, without drifting, up to 600 beats")
def rounding(ctx, case):
    i, step, resolution = case
    events = [(i * step * 3, step, 60, 80, "k"), ((i * 3 + 1) * step, step, 60, 81, "k"), (i * step, 2, 62, 82, "s")]
    roundtrip(ctx, make(events, i * step * 3 + 7, resolution=resolution, key=None))
    # close to half a tick
    f = (0.4, 0.4995, 0.5005, 0.6, 0.49, 0.51)[i % 6]
    events = [((i * 7 + f) / resolution, (9 + f) / resolution, 60, 80, "k"), ((i * 9 + 40 + f) / resolution, 2, 61, 81, "k"),
              (i + 20 + 2.0 / resolution, (3 - f) / resolution, 62, 82, "s")]
    roundtrip(ctx, make(events, i + 21 + f / resolution, resolution=resolution, key=None, bpm=97 + f))


def gen_maps(sc):
    for a in ("k", "s", "no", ("k", "s")):
        for b in ("k", "s", ("k", "s")):
            for k in range(6):
                yield (a, b, k)


@suite("maps", gen_maps, bounds="maps of tags to notes, lists of notes and notes with channels; unmapped tags keep their pitch")
def maps(ctx, case):
    a, b, k = case
    midiMap = ({"k": 36, "s": 38}, {"k": [36, 35], "s": [38]}, {"k": (36, 9), "s": [(38, "*"), 40]}, {},
               {"k": 0, "s": [127, 0]}, {("k", "s"): 0, "k": (0, 3)})[k]
    events = [(0, 1, 60, 80, a), (1, 1, 61, 81, b)]
    first = ({"k": 36, "s": 38} if k < 3 else {}, {"k": 0, "s": 127}, {("k", "s"): 0, "k": 0})[max(0, k - 3)]
    roundtrip(ctx, make(events, 4), midiMap, [first.get(t[4], t[2]) for t in events])


@suite("names", lambda sc: product(("p", "a b", None, "x.mid", "a.b", "v1.2 final.", "a name of more than thirty-two letters, and then some",
                                            "a:b*c?", "#1 (x) [y] {z}", "tab\there", "~%20&", "UPPER.MIDI", "'quoted' \"twice\""),
                                       (None, "other", "other.mid", "x.y", "one more name of more than thirty-two letters, or forty")),
       bounds="names of patterns and files")
def names(ctx, case):
    roundtrip(ctx, make([(0, 1, 60, 80, "k")], 4, name=case[0]), name=case[1])


@suite("wide", lambda sc: [(n, d) for n in (10, 60, 300) for d in (0.25, 0.5)], bounds="regular patterns of up to 300 events")
def wide(ctx, case):
    n, dur = case
    for order in (1, -1):
        roundtrip(ctx, make(ladder(n, dur=dur)[::order], n))


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(1, 4, 60)],
       bounds="files of the drum and harmony corpora")
def from_corpus(ctx, case):
    p = gsio.fromMidiFile(case, checkForOverlapped=True)
    p.events = [e for e in p.events if e.duration * p.resolution >= 0.99][:300]
    p.name = "corpus"
    p.durationToLastEvent()
    roundtrip(ctx, p)


@suite("varied", lambda sc: varied(sc, (3, 10, 60, 128) if sc.level else (3,), None, None, ("two", "many"), 2),
       bounds=VARIED + " (the 128 pitches, each once; velocities from 1)")
def of_the_family(ctx, case):
    case = case[:4] + ("all",) + case[5:]
    for extra in (0, 1.1):
        p = varied_pattern(case, extra)
        for e in p.events:
            e.velocity = max(1, e.velocity)
            e.duration = max(e.duration, 1.6 / p.resolution)
        p.durationToLastEvent()
        p.timeSignature = tuple(p.timeSignature)
        p.name = p.name if p.name != u"\xe9" else "e"
        roundtrip(ctx, p)


def in_file(path):
    """the notes in the order of the file: every off ends a note that began before"""
    _, _, tracks = smf.load(path)
    under, res = {}, []
    for e in tracks[0]:
        if e[0] == "on":
            under.setdefault(e[3], []).append(e[1])
        elif e[0] == "off":
            check(under.get(e[3]), "a note off of %r at %r comes before its note on in the file", e[3], e[1])
            res.append((under[e[3]].pop(0), e[1], e[3]))
    check(not any(under.values()), "notes that are never ended: %r", under)
    return sorted(res)


@suite("very short", lambda sc: product((0, 2.0 ** -20, 0.0001, 0.0004, 0.0006), (96, 960, 10000), range(sc.pick(2, 6, 12))),
       bounds="notes shorter than a tick, or with no duration, alone, beside others and where others begin or end")
def very_short(ctx, case):
    length, resolution, k = case
    t = 0.25 * (k // 2)
    events = [(t, length, 60, 80, "a"), (t + 1, length, 60, 90, "a"), (t + 1, 0.5, 61, 80, "b"), (t, 1, 62, 80, "b"),
              (t + 2, 0.5, 60, 1, "a"), (t + 2.5, length, 61, 80, "a")][::(1, -1)[k % 2]]
    p = make(events, 4, resolution=resolution)
    before = snap(p)
    path = gsio.toMidiFile(p, folderPath=folder())
    same(snap(p), before, "exporting changed the pattern")
    at = lambda x: tick(x, resolution)
    same(in_file(path), sorted((at(e[0]), at(e[0] + e[1]), e[2]) for e in events), "notes of %r in the file" % (events,))
    got = sorted(evs(gsio.fromMidiFile(path)), key=lambda e: (e[0], e[2]))
    ctx.op(2)
    for e, g in zip(sorted(events, key=lambda e: (e[0], e[2])), got):
        check(near(e[0], g[0]) and (e[2], e[3]) == (g[2], g[3]) and
              near(g[1], (at(e[0] + e[1]) - at(e[0])) / float(resolution), 0.000101), "%r came back as %r", e, g)
    same(len(got), len(events), "number of events")
    os.remove(path)
