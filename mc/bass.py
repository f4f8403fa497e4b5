# -*- coding: utf-8 -*-
"""Beat patterns, models and files for the bassline properties (CPython only)."""
from __future__ import absolute_import, division, print_function

import os
from fractions import Fraction

import smf
from core import check, same
from lib import near
from gsapi import bassmine

BITS = (8, 4, 2, 1)


def onsets(ids, jitter=0):
    """start times of a sequence of beat patterns: 8 is on the beat, 4, 2 and 1 the later quarters of it"""
    res = []
    for beat, x in enumerate(ids):
        for i, b in enumerate(BITS):
            if x & b:
                off = jitter * (1 if (beat + i) % 2 or i == 0 else -1)
                res.append(beat + i * 0.25 + off)
    return res


def counts(sequences):
    """(first beats, transitions) of sequences of beat patterns, each of which repeats"""
    first, follow = {}, {}
    for s in sequences:
        first[s[0]] = first.get(s[0], 0) + 1
        for a, b in zip(s, s[1:] + s[:1]):
            follow.setdefault(a, {}).setdefault(b, 0)
            follow[a][b] += 1
    return first, follow


def together(kicks, basses):
    res = {}
    for k, b in zip(kicks, basses):
        for x, y in zip(k, b):
            res.setdefault(x, {}).setdefault(y, 0)
            res[x][y] += 1
    return res


def shares(row):
    total = sum(row.values())
    return {k: Fraction(v, total) for k, v in row.items()}


def same_row(got, want, what):
    """a row of a matrix against shares"""
    for i, x in enumerate(got):
        check(near(float(x), float(want.get(i, 0)), 1e-9), "%s: %r at %d instead of %s", what, float(x), i, want.get(i, 0))


def same_model(model, first, follow, inter, what, size=16):
    same_row(model.get_initial(), shares(first), what + ": first beats")
    for matrix, want, name in ((model.get_temporal(), follow, "transitions"), (model.get_interlocking(), inter, "interlocking")):
        same(matrix.shape, (size, size), what + ": size of " + name)
        for i in range(size):
            same_row(matrix[i], shares(want[i]) if i in want else {}, "%s: %s, row %d" % (what, name, i))


def learn(basses, kicks):
    model = bassmine.MarkovModel(16)
    for b in basses:
        model.add_temporal(b)
    for k, b in zip(kicks, basses):
        model.add_interlocking(k, b)
    model.normalize_model()
    return model


def write(path, ids, pitch, jitter=0, others=(), resolution=96, beats=None, velocities=(100,)):
    events = []
    for i, t in enumerate(onsets(ids, jitter)):
        start = int(round(t * resolution))
        events += [("on", start, 0, pitch, velocities[i % len(velocities)]), ("off", start + resolution // 8, 0, pitch, 0)]
    for t, p in others:
        events += [("on", int(t * resolution), 0, p, 90), ("off", int(t * resolution) + 6, 0, p, 0)]
    events.sort(key=lambda e: (e[1], e[0] == "on"))
    end = int((len(ids) if beats is None else beats) * resolution)
    smf.write(path, [events + [smf.end(max([end] + [e[1] for e in events]))]], resolution)


def ids_of(p):
    """beat patterns of a generated bassline"""
    res = [0] * int(round(p.duration))
    for e in p.events:
        beat = int(e.startTime)
        i = (e.startTime - beat) * 4
        check(i == int(i) and beat < len(res), "an onset at %r", e.startTime)
        check(not res[beat] & BITS[int(i)], "two onsets at %r", e.startTime)
        res[beat] |= BITS[int(i)]
    same({(e.duration, e.pitch, e.velocity, e.tag) for e in p.events} - {(0.25, 36, 110, "bass")}, set(), "other notes than those of a bass")
    return tuple(res)
