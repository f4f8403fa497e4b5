# -*- coding: utf-8 -*-
"""C20 importing pairs every note on with its own note off, in the tracks asked for"""
from __future__ import absolute_import, division, print_function

import math
import os

import ops
import smf
from core import check, fail, product, same, sequences, suite
from lib import EPS, bag, corpus, evs, meta, near, pattern, same_bag
from gsapi import gsio

MAJOR = ["Cb", "Gb", "Db", "Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#"]
MINOR = ["Abm", "Ebm", "Bbm", "Fm", "Cm", "Gm", "Dm", "Am", "Em", "Bm", "F#m", "C#m", "G#m", "D#m", "A#m"]
COUNT = [0]


def path():
    COUNT[0] += 1
    return os.path.join("output", "c20-%d.mid" % (COUNT[0] % 9))


def pairs(tracks, tag=lambda pitch, channel: pitch):
    """[(start, end, pitch, velocity)] of the tracks, or None when a note on has no end, or begins while
    its pitch still sounds, or ends where it begins: MIDI does not say what those mean"""
    res = []
    for t in tracks:
        sounding = {}
        for e in t:
            if e[0] not in ("on", "off"):
                continue
            tick, pitch, k = e[1], e[3], tag(e[3], e[2])
            if e[0] == "on" and e[4] > 0:
                if (k, pitch) in sounding:
                    return None
                sounding[k, pitch] = (tick, e[4])
            elif (k, pitch) in sounding:
                start, velocity = sounding.pop((k, pitch))
                if start == tick:
                    return None
                res.append((start, tick, pitch, velocity))
        if sounding:
            return None
    return res


def load(ctx, tracks, resolution=4, running=False, **kw):
    file = path()
    smf.write(file, tracks, resolution, 1, running)
    p = gsio.fromMidiFile(file, **kw)
    ctx.op()
    same((p.name, p.resolution), (os.path.basename(file), resolution), "name and resolution")
    return p


def check_notes(p, want, resolution, what):
    res = float(resolution)
    same_bag(evs(p), [(a / res, (b - a) / res, pitch, vel, ops.pitch_name(pitch)) for a, b, pitch, vel in want], what, EPS)
    starts = {}
    for t in evs(p):
        starts.setdefault(t[2], []).append(t[0])


KIND = [("on", 0, 60, 80), ("on", 0, 60, 0), ("off", 0, 60, 64), ("on", 0, 61, 70), ("off", 0, 61, 0), ("off", 1, 60, 1)]


def gen_streams(sc):
    n = sc.pick(3, 4, 5)
    for length in range(0, n + 1):
        for kinds in sequences(range(len(KIND)), length, length):
            deltas = sequences((0, 1, 3) if length < n or sc.level > 1 else (0, 2), length, length)
            for d in deltas:
                yield (kinds, d)


def stream(case):
    kinds, deltas = case
    events, now = [], 0
    for k, d in zip(kinds, deltas):
        now += d
        events.append((KIND[k][0], now) + KIND[k][1:])
    return events + [smf.end(now + 2)]


@suite("streams", lambda sc: (c for c in gen_streams(sc) if pairs([stream(c)]) is not None),
       bounds="all streams of 0..4 (thorough: 5) of 6 note ons, offs and ons of velocity 0, at all distances of 3, "
              "that leave no note open or ambiguous, with stray note offs")
def streams(ctx, case):
    events = stream(case)
    for running in (False, True):
        p = load(ctx, [events], running=running)
        check_notes(p, pairs([events]), 4, "the stream %r" % (events,))
        check(near(p.duration, events[-1][1] / 4.0), "duration %r", p.duration)
    # as short as notes may be
    p = load(ctx, [events], 9000)
    check_notes(p, pairs([events]), 9000, "the stream %r at 9000 ticks per beat" % (events,))


@suite("retriggers", lambda sc: (c for c in sequences(((0, 1), (0, 2), (1, 1), (1, 3), (2, 2), (3, 1)), 2, sc.pick(2, 3, 4))),
       bounds="notes of one pitch that overlap: each onset is kept, and each one ends with one of the note offs")
def retriggers(ctx, case):
    events = []
    for i, (start, length) in enumerate(case):
        events += [("on", start * 2, 0, 60, 80 + i), ("off", (start + length) * 2, 0, 60, 0)]
    events.sort(key=lambda e: (e[1], e[0] == "on"))
    ends = sorted(e[1] / 4.0 for e in events if e[0] == "off")
    ctx.op()
    p = load(ctx, [events + [smf.end(40)]])
    what = "the stream %r" % (events,)
    same(sorted((e.startTime, e.velocity) for e in p.events), sorted((c[0] / 2.0, 80 + i) for i, c in enumerate(case)), what)
    if len({c[0] for c in case}) == len(case):
        same(sorted(e.endTime() for e in p.events), ends, what + ": ends")
    check(all(e.duration > 0 for e in p.events), "%s: durations", what)
    q = load(ctx, [events + [smf.end(40)]], checkForOverlapped=True)
    before = ops.State(p)
    p.removeOverlapped(usePitchValues=True)
    same(bag(q), bag(p), what + ": overlaps removed")


@suite("held", lambda sc: [(n, k) for n in (5, 20, 70, sc.pick(100, 700, 2000)) for k in range(4)],
       bounds="notes that last while up to 700 (thorough: 2000) others of other pitches or channels come and go, or go on")
def held(ctx, case):
    n, k = case
    events = [("on", 0, 0, 50, 80), ("on", 1, 3, 51, 70)]
    for i in range(n):
        pitch = 60 + i % 40
        if k < 2:
            events += [("on", 2 + i * 3, i % 4, pitch, 1 + i % 100), ("off", 4 + i * 3, i % 4, pitch, 0)]
        else:
            at = i - i % 40    # forty at a time
            events += [("on", 2 + at * 3 + i % 40, i % 4, pitch, 1 + i % 100), ("off", 2 + at * 3 + 60 + (i * 7) % 40, i % 4, pitch, 0)]
    last = 2 + n * 3 + 200
    events += [("off", last, 0, 50, 0), ("on", last + 1, 3, 51, 0), ("on", last + 2, 0, 50, 9), ("off", last + 5, 0, 50, 0)]
    events.sort(key=lambda e: (e[1], e[0] == "on"))
    made = [events + [smf.end(last + 8)]]
    want = pairs(made)
    check(want, "the reference")
    p = load(ctx, made, 24, bool(k % 2))
    check_notes(p, want, 24, "%d notes under two that are held" % n)


A = [("on", 0, 0, 60, 80), ("off", 3, 0, 60, 0), ("on", 3, 0, 60, 81), ("on", 8, 0, 60, 0)]
B = [("off", 0, 0, 60, 0), ("on", 1, 0, 60, 70), ("off", 2, 0, 60, 0), ("off", 7, 0, 60, 9)]
C = [("on", 2, 9, 61, 60), ("off", 6, 9, 61, 0)]
BODIES = [A, B, C, []]
TNAMES = [None, "a", "b", "ab", ""]
ASKED = [None, [], [0], [1], ["a"], ["b", 0], ["ab"], ["no"], [7], ["a", "b"], [0, 1, 2], [""], ["", "b"]]


def gen_tracks(sc):
    tracks = [(b, n, e) for b in range(len(BODIES)) for n in range(len(TNAMES)) for e in (10, 17)]
    for t in tracks:
        yield (t,)
    some = [t for t in tracks if t[0] != 3 or t[1] < 2] if sc.level > 1 else \
        [t for i, t in enumerate(tracks) if (i % 3 == 0) and (sc.level or i % 4 == 0)]
    for a, b in product(some, some):
        yield (a, b)
    if sc.level:
        for a, b, c in product(tracks[::9], tracks[::7], tracks[::sc.pick(11, 11, 5)]):
            yield (a, b, c)


@suite("tracks", gen_tracks,
       bounds="files of 1..3 tracks with and without names; 13 selections of tracks by names and numbers")
def tracks(ctx, case):
    made = []
    for b, n, e in case:
        made.append(([smf.name(TNAMES[n])] if TNAMES[n] is not None else []) + BODIES[b] + [smf.end(e)])
    for asked in ASKED:
        chosen = [t for i, t in enumerate(made) if not asked or i in asked
                  or TNAMES[case[i][1]] is not None and TNAMES[case[i][1]] in asked]
        p = load(ctx, made, tracksToGet=asked)
        what = "tracks %r of %r" % (asked, made)
        check_notes(p, pairs(chosen), 4, what)
        check(near(p.duration or 0, max([t[-1][1] for t in chosen] or [0]) / 4.0), "%s: duration %r", what, p.duration)


def gen_meta(sc):
    for sharps, minor in product(range(-7, 8), (0, 1)):
        yield ("key", sharps, minor)
    for n, power in product(range(1, 33), range(0, 7)):
        if sc.level or (n + power) % 5 == 0:
            yield ("meter", n, power)
    for mpqn in list(range(150000, 6000000, sc.pick(900000, 70001, 9001))) + [1, 500000, 2 ** 24 - 1]:
        yield ("tempo", mpqn)
    for r in (1, 2, 24, 96, 480, 960, 9600):
        yield ("resolution", r)
    for k in range(16):
        yield ("where", k)


@suite("fields", gen_meta, bounds="all keys, meters of 1..32 over 1..64, tempi, resolutions; in any track, or absent")
def fields(ctx, case):
    what = "fields of %r" % (case,)
    notes = [("on", 1, 0, 60, 80), ("off", 3, 0, 60, 0)]
    metas, want, resolution = [], {"key": "", "timeSignature": (4, 4), "bpm": 120}, 4
    if case[0] == "key":
        metas, want["key"] = [smf.key(case[1], case[2])], (MINOR if case[2] else MAJOR)[case[1] + 7]
    elif case[0] == "meter":
        metas, want["timeSignature"] = [smf.signature(case[1], case[2])], (case[1], 2 ** case[2])
    elif case[0] == "tempo":
        metas, want["bpm"] = [smf.tempo(case[1])], 6e7 / case[1]
    elif case[0] == "resolution":
        resolution = case[1]
    else:
        k = case[1]
        metas = [m for i, m in enumerate((smf.key(2), smf.signature(6, 3), smf.tempo(400000), smf.name("x"))) if k >> i & 1]
        if k & 1:
            want["key"] = "D"
        if k & 2:
            want["timeSignature"] = (6, 8)
        if k & 4:
            want["bpm"] = 150
    for made in ([metas + notes + [smf.end(8)]], [metas + [smf.end(0)], notes + [smf.end(8)]],
                 [notes + [smf.end(8)], metas + [smf.end(0)]], [notes + [(m[0], 3) + m[2:] for m in metas] + [smf.end(8)]]):
        for kw in ({}, {"tracksToGet": [0]}):
            p = load(ctx, made, resolution, **kw)
            same((p.key or "", tuple(p.timeSignature)), (want["key"], want["timeSignature"]), what)
            check(near(p.bpm, want["bpm"], 1e-10 * want["bpm"]), "%s: bpm %r", what, p.bpm)
            res = [pairs(made[:1])] if kw else [pairs(made)]
            check_notes(p, res[0], resolution, what)


@suite("bars", lambda sc: product(range(1, sc.pick(8, 40, 120)), ((4, 2), (3, 2), (6, 3), (5, 3), (2, 1), (7, 4), (9, 3), (1, 0), (1, 3), (1, 2), (3, 4), (1, 5), (11, 4))),
       bounds="without an end of track the pattern lasts until the end of its last bar")
def bars(ctx, case):
    last, (n, power) = case
    events = [smf.signature(n, power), ("on", 0, 0, 60, 80), ("off", last, 0, 60, 0)]
    p = load(ctx, [events])
    bar = n * 4.0 / 2 ** power
    same(p.duration, math.ceil(last / 4.0 / bar) * bar, "duration of %r" % (events,))
    for k in range(1, last + 9, 3 if last < 20 else 11):
        others = [("on", 0, 3, 61, 9), ("off", k, 3, 61, 0)]
        for made in ([events, others], [others, events], [events[:1], others, events[1:]], [events[:1] + others, events[1:]]):
            p = load(ctx, made)
            same(p.duration, math.ceil(max(last, k) / 4.0 / bar) * bar, "duration of %r" % (made,))
    p = load(ctx, [events + [smf.end(last + 3)]])
    same(p.duration, (last + 3) / 4.0, "duration of %r with an end" % (events,))


@suite("many tracks", lambda sc: [(n, k) for n in (7, 9, 17, sc.pick(20, 40, 200)) for k in range(6)],
       bounds="files of up to 40 (thorough: 200) tracks, with names and without; each track alone, and several")
def many_tracks(ctx, case):
    n, k = case
    names = [None if k == 3 else (" a %d", "%d", "t%d ", None, "name", "x%d")[k].replace("%d", str(i)) for i in range(n)]
    made = []
    for i in range(n):
        made.append(([smf.name(names[i])] if names[i] is not None else []) +
                    [("on", i, i % 16, 40 + i % 80, 1 + i % 127), ("off", i + 5, i % 16, 40 + i % 80, 0)] +
                    [smf.end(300 + ((i * 7) % n if k % 2 else i))])
    for asked in [[i] for i in range(n)] + [[0, n - 1], list(range(0, n, 2)), list(range(n)), [n], None] + \
            [[x] for x in names if x is not None] + [["a 1", " a 2"], ["t3", "t4 "], [names[-1], 0]]:
        chosen = [t for i, t in enumerate(made) if not asked or i in asked or names[i] is not None and names[i] in asked]
        p = load(ctx, made, 24, tracksToGet=asked)
        what = "tracks %r of %d named %r" % (asked, n, names[:3])
        check_notes(p, pairs(chosen), 24, what)
        check(near(p.duration or 0, max([t[-1][1] for t in chosen] or [0]) / 24.0), "%s: duration %r", what, p.duration)


@suite("wide", lambda sc: [(n, c, r) for n in (10, 100, sc.pick(200, 800, 4000)) for c in (1, 4, 16) for r in (24, 960)],
       bounds="files of up to 800 (thorough: 4000) notes on 16 channels, over 3 tracks")
def wide(ctx, case):
    n, channels, resolution = case
    made = [[smf.name("t%d" % t)] for t in range(3)]
    for i in range(n):
        length = 3 + i % 5
        made[i % 3].append(("on", i * 7, i % channels, 30 + i % 60, 1 + i % 127))
        made[i % 3].append(("off" if i % 2 else "on", i * 7 + length, i % channels, 30 + i % 60, 0))
    made = [t[:1] + sorted(t[1:], key=lambda e: e[1]) + [smf.end(n * 7 + 10 + k)] for k, t in enumerate(made)]
    want = pairs(made)
    p = load(ctx, made, resolution, True)
    check_notes(p, want, resolution, "%d notes" % n)
    check(near(p.duration, (n * 7 + 12) / float(resolution)), "duration %r", p.duration)
    p = load(ctx, made, resolution, True, tracksToGet=["t1"])
    check_notes(p, pairs(made[1:2]), resolution, "%d notes, one track" % n)


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(2, 12, 400)],
       bounds="files of the drum and harmony corpora")
def from_corpus(ctx, case):
    try:
        frmt, resolution, made = smf.load(case)
    except smf.Bad:
        return
    want = pairs(made)
    p = gsio.fromMidiFile(case)
    ctx.op()
    if want is not None:
        check_notes(p, want, resolution, case)
    same(len(p.events), len([e for t in made for e in t if e[0] == "on" and e[4]]), "number of notes")


@suite("far apart", lambda sc: product((0, 1, 127, 128, 4095, 4096, 16383, 16384, 65536, 2 ** 21 - 1, 2 ** 21, 2 ** 24 + 1), (1, 128, 8191, 8192, 65535, 2 ** 21 + 5), (1, 96, 9000)),
       bounds="notes and silences of up to 2^24 ticks, in files of 1, 96 and 9000 ticks per beat")
def far_apart(ctx, case):
    before, length, resolution = case
    events = [("on", before, 0, 60, 80), ("off", before + length, 0, 60, 0),
              ("on", before * 2 + length, 0, 61, 1), ("on", before * 2 + length + 3, 2, 60, 5), ("on", before * 2 + length * 2, 0, 61, 0),
              ("off", before * 3 + length * 3 + 9, 2, 60, 0)]
    events.sort(key=lambda e: (e[1], e[0] == "on"))
    made = [events + [smf.end(before * 4 + length * 4 + 10)], [("on", length, 1, 40, 9), ("off", length + before + 1, 1, 40, 0), smf.end(length + before + 2)]]
    if pairs(made) is None:
        return
    for running in (False, True):
        p = load(ctx, made, resolution, running)
        check_notes(p, pairs(made), resolution, "notes of %d ticks, %d apart" % (length, before))
        check(near(p.duration, made[0][-1][1] / float(resolution), 1e-9 * made[0][-1][1] + 1e-9), "duration %r", p.duration)


CHANGES = [lambda t: smf.tempo(400000, t), lambda t: smf.tempo(700001, t), lambda t: smf.signature(3, 2, t), lambda t: smf.signature(7, 3, t), lambda t: smf.key(2, 0, t),
           lambda t: smf.key(-3, 1, t)]


@suite("changes", lambda sc: product(sequences(range(len(CHANGES)), 2, sc.pick(2, 3, 4)), range(3)),
       bounds="all histories of 2..3 (thorough: 4) changes of tempo, meter and key within a piece, in one track or two: the notes, and fields that the file has")
def changes(ctx, case):
    order, k = case
    what = "changes %r" % (case,)
    notes = [(kind, t * 5 + d, 0, 60 + t, v) for t in range(len(order) + 2) for kind, d, v in (("on", 0, 80), ("off", 4, 0))]
    metas = [CHANGES[j](5 * i + 2) for i, j in enumerate(order)]
    last = notes[-1][1] + 3
    if k == 0:
        made = [sorted(notes + metas, key=lambda e: e[1]) + [smf.end(last)]]
    elif k == 1:
        made = [metas + [smf.end(last)], notes + [smf.end(last)]]
    else:
        made = [sorted(notes[::2] + notes[1::2] + metas[::2], key=lambda e: e[1]) + [smf.end(last)], metas[1::2] + [smf.end(last)]]
    p = load(ctx, made)
    check_notes(p, pairs(made), 4, what)
    same(p.duration, last / 4.0, what + ": duration")
    bpms = [6e7 / m for j, m in ((0, 400000), (1, 700001)) if j in order] or [120]
    check(any(near(p.bpm, b, 1e-9 * b) for b in bpms), "%s: bpm %r", what, p.bpm)
    meters = [m for j, m in ((2, (3, 4)), (3, (7, 8))) if j in order] or [(4, 4)]
    check(tuple(p.timeSignature) in meters, "%s: meter %r", what, p.timeSignature)
    keys = [m for j, m in ((4, "D"), (5, "Cm")) if j in order] or [""]
    check((p.key or "") in keys, "%s: key %r", what, p.key)
