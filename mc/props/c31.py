# -*- coding: utf-8 -*-
"""C31 basslines are binarised and generated without loss"""
from __future__ import absolute_import, division, print_function

import json
import math
import os
from fractions import Fraction

import numpy as np

from bass import BITS, counts, ids_of, learn, onsets, shares
from choices import explore
from core import check, fail, product, same, sequences, suite
from lib import near, pattern
from gsapi import bassmine


def grid(starts, beats, resolution):
    """per beat, the subdivisions that are the nearest one within their beat to an onset (of two, the first)"""
    rows = [[0] * resolution for _ in range(int(math.ceil(beats)))]
    for t in starts:
        beat = int(math.floor(t))
        rest = t - beat
        best = min(range(resolution), key=lambda i: (abs(i / float(resolution) - rest), i))
        if beat < len(rows):
            rows[beat][best] = 1
    return rows


def check_grid(ctx, starts, beats, resolution=None):
    given = list(starts)
    got = bassmine.binaryBeatPattern(starts, beats) if resolution is None else bassmine.binaryBeatPattern(starts, beats, resolution)
    ctx.op()
    same(starts, given, "binaryBeatPattern changed the onsets")
    same(np.array(got).tolist(), grid(starts, beats, resolution or 4), "onsets %r in %r beats, by %r" % (starts[:20], beats, resolution or 4))
    return got


def gen_onsets(sc):
    for m in range(256):
        yield (2, [i / 4.0 for i in range(8) if m >> i & 1])
    for m in range(sc.pick(64, 4096, 4096)):
        yield (3, [i / 4.0 for i in range(12) if m >> i & 1])


@suite("rhythms", gen_onsets, bounds="all rhythms of 2 and 3 beats in quarters of beats, forwards and backwards", py=(3,))
def rhythms(ctx, case):
    beats, starts = case
    rows = check_grid(ctx, list(starts), beats)
    check_grid(ctx, list(starts)[::-1], beats)
    ids = bassmine.translate_rhythm(rows)
    same(list(ids), [sum(b for i, b in enumerate(BITS) if beat + i * 0.25 in starts) for beat in range(beats)], "identifiers of %r" % (starts,))
    check(json.loads(json.dumps(ids)) == ids, "identifiers that cannot be stored")
    table = bassmine.createMarkovGenerationDictionary()["patterns"]
    same([beat + t for beat, x in enumerate(ids) for t in table[x]], sorted(starts), "onsets and back")
    ctx.op(2)


def gen_off(sc):
    for resolution in (1, 2, 3, 4, 6, 8, 12):
        for n in range(sc.pick(16, 48, 192)):
            yield (resolution, n)


@suite("off the grid", gen_off, bounds="onsets at every 32nd of a beat, and thirds and fifths of it, at 7 resolutions, in patterns of fractional length", py=(3,))
def off(ctx, case):
    resolution, n = case
    for beats in (1, 2, 1.5, 3.25, 0.5):
        for t in (n / 32.0, n / 32.0 + 1 / 128.0, n / 24.0 + 1 / 96.0):
            rest = (t % 1) * resolution
            if near(rest % 1, 0.5, 1e-6) and not (t * 256 == int(t * 256) and resolution in (1, 2, 4, 8)):
                continue
            check_grid(ctx, [t], beats, resolution)
            check_grid(ctx, [t, 0.75, t + 0.5] if not near(((t + 0.5) % 1 * resolution) % 1, 0.5, 1e-6) else [t, 0.0], beats, resolution)
    if resolution == 4:
        check_grid(ctx, [n / 32.0 + 1 / 256.0], 2)


@suite("patterns", lambda sc: [(x,) for x in range(16)], bounds="the 16 beat patterns, as numbers, onsets and files", py=(3,))
def patterns(ctx, case):
    x = case[0]
    bits = [1 if x & b else 0 for b in BITS]
    same(bassmine.translate_rhythm([bits]), [x], "identifier of %r" % (bits,))
    same(bassmine.translate_rhythm([bits, [1, 0, 0, 0], bits]), [x, 8, x], "identifiers")
    got = bassmine.createMarkovGenerationDictionary()
    same(sorted(got["patterns"]), list(range(16)), "identifiers in the dictionary")
    same(got["patterns"][x], [t for t, b in zip((0, 0.25, 0.5, 0.75), bits) if b], "onsets of %d" % x)
    got["patterns"][x].append(9)
    same(bassmine.createMarkovGenerationDictionary()["patterns"][x], [t for t, b in zip((0, 0.25, 0.5, 0.75), bits) if b], "onsets again")
    got = bassmine.createMarkovGenerationDictionary(toJSON=True, _path="output/p%d_" % x)
    with open("output/p%d_pattern_dict.json" % x) as f:
        same({int(k): v for k, v in json.load(f)["patterns"].items()}, got["patterns"], "stored dictionary")
    ctx.op(5)


@suite("files", lambda sc: [(r, x) for r in (4, 24, 96, 480, 960) for x in range(sc.pick(16, 64, 256))],
       bounds="the same rhythm of 2 beats in files of 5 resolutions", py=(3,))
def files(ctx, case):
    import smf
    from gsapi import gsio
    resolution, x = case
    ids = [x % 16, (x * 7 + x // 16) % 16]
    events = []
    for t in onsets(ids):
        start = int(t * resolution)
        events += [("on", start, 0, 40, 90), ("off", start + resolution // 4, 0, 40, 0)]
    events.sort(key=lambda e: (e[1], e[0] == "on"))
    smf.write("output/c31.mid", [events + [smf.end(2 * resolution)]], resolution)
    p = gsio.fromMidiFile("output/c31.mid")
    rows = check_grid(ctx, [e.startTime for e in p.events], p.duration)
    same(bassmine.translate_rhythm(rows), ids, "identifiers of the file")


def partitions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in partitions(n - i, k - 1):
            yield (i,) + rest


@suite("sampling", lambda sc: [c for k in range(1, 5) for c in partitions(sc.pick(4, 8, 16), k)] +
       [tuple(1 + (i + k) % 3 // 2 for i in range(n)) for n in (10, 33, 40, 65) for k in range(3)],
       bounds="all distributions over 1..4 outcomes in eighths (thorough: sixteenths), and others of up to 65 outcomes, every random number", py=(3,))
def sampling(ctx, case):
    n = sum(case)
    weights = [x / float(n) for x in case]
    for form in (weights, np.array(weights), tuple(weights)):
        got = {}
        for res, weight, _ in explore(lambda: bassmine.pdf_sampling(form), grid=n):
            got[res] = got.get(res, 0) + weight
            ctx.op()
        for res, _, _ in explore(lambda: bassmine.pdf_sampling(form), grid=n, shift=0):
            check(0 <= res < len(case) and case[res], "draws %r of %r, which has no probability", res, weights)
            ctx.op()
        same({k: str(v) for k, v in got.items()}, {i: str(Fraction(x, n)) for i, x in enumerate(case) if x}, "outcomes of %r" % (weights,))


@suite("borders", lambda sc: [(n, k) for n in (2, 3, 7, 12, 50, 200) for k in range(sc.pick(4, 12, 60))],
       bounds="distributions over up to 200 outcomes, of parts down to 1e-9: random numbers just before and after the border between each two", py=(3,))
def borders(ctx, case):
    import random
    n, k = case
    parts = [((i * i + k) % 5 + 1) * (1, 1e-3, 1e-6)[(i + k) % 3] for i in range(n)]
    total = math.fsum(parts)
    weights = [x / total for x in parts]
    old = random.random
    try:
        for i in range(n):
            low, high = math.fsum(weights[:i]), math.fsum(weights[:i + 1])
            step = (high - low) / 64
            for form in (weights, np.array(weights)):
                for x in (low + step, (low + high) / 2, high - step):
                    random.random = lambda: x
                    same(bassmine.pdf_sampling(form), i, "outcome of %r among %r" % (x, weights[:12]))
                    ctx.op()
    finally:
        random.random = old


VALUES = (0, 1, 3)


@suite("matrices", lambda sc: [c for c in sequences(VALUES, 4, 4)] + [c for c in sequences(VALUES, 6, 6)][::sc.pick(29, 3, 1)],
       bounds="all matrices of 2x2 and a comb of 2x3 and 3x2 of 0, 1 and 3: rows normalized, positive columns, indices", py=(3,))
def matrices(ctx, case):
    shapes = [(2, 2)] if len(case) == 4 else [(2, 3), (3, 2)]
    for shape in shapes:
        for form in (int, float, None):
            a = np.array(case, dtype=form or float).reshape(shape)
            given = a.tolist()
            arg = given if form is None else a
            got = np.array(bassmine.normalize(arg)).tolist()
            same(np.array(arg).tolist(), given, "normalize changed its argument")
            want = [[x / float(sum(r)) if sum(r) else 0.0 for x in r] for r in given]
            check(all(near(x, y, 1e-12) for r, s in zip(got, want) for x, y in zip(r, s)) and len(got) == len(want),
                  "normalize(%r) is %r", given, got)
            ctx.op()
        table = bassmine.markov_tm_2dict(a)
        same(table, {i: {str(j) for j, x in enumerate(r) if x > 0} for i, r in enumerate(given) if any(x > 0 for x in r)}, "columns of %r" % (given,))
        same(bassmine.markov_tm_2dict(a[0]), {str(j) for j, x in enumerate(given[0]) if x > 0}, "columns of %r" % (given[0],))
    for limit in (0, 1, 3):
        same(bassmine.indices(case, lambda x: x >= limit), [i for i, x in enumerate(case) if x >= limit], "indices of %r" % (case,))
    ctx.op(3)


@suite("generated", lambda sc: [(i, n) for i in range(sc.pick(16, 60, 240)) for n in (1, 2, 3)],
       bounds="basslines of 1..3 beats of models of 2 lessons: every random choice gives only learnt beats, written down right", py=(3,))
def generated(ctx, case):
    i, n = case
    basses = [[i % 16, (i * 3 + 1) % 16, (i * 5 + 2) % 16], [(i * 7) % 16, i % 16]]
    model = learn(basses, [[8, 8, 8], [8, 8]])
    learnt = {x for b in basses for x in b}
    for res, _, _ in explore(lambda: bassmine.generateBassRhythm(model, n)):
        ids = ids_of(res)
        check(set(ids) <= learnt, "%r has beats that are not learnt from %r", ids, basses)
        same(res.duration, n, "duration")
        starts = [e.startTime for e in res.events]
        same(starts, sorted(onsets(ids)), "onsets in order")
        same(bassmine.translate_rhythm(bassmine.binaryBeatPattern(starts, res.duration)), list(ids), "binarised again")
        ctx.op()


@suite("long", lambda sc: [(n, res, k) for n in (20, 90, 300, sc.pick(500, 1200, 5000)) for res in (4, 16, 24, 32, 48) for k in range(sc.pick(2, 4, 12))],
       bounds="rhythms of up to 5000 beats, up to 48 parts each, with onsets on and off the grid, and durations with fractions", py=(3,))
def long(ctx, case):
    n, res, k = case
    starts = []
    for i in range(n * 2):
        beat = (i * (k + 3)) % n
        part = (i * i + k) % res
        starts.append(beat + part / float(res) + (0, 0.3, 0.37, -0.4)[(i + k) % 4] / res * (1 if part else 0))
    check_grid(ctx, starts, n, res)
    check_grid(ctx, sorted(starts), n, res)
    for rest in (0.01, 0.04, 0.25, 0.5, 0.96, 0.999, 1e-6):
        for beats in (n + rest, n // 2 + rest):
            check_grid(ctx, starts[:8] + [beats - rest, beats - 1], beats, res)


@suite("far", lambda sc: [(t, k) for t in (1000, 4096, 20000) + sc.pick((), (70000,), (70000, 300000)) for k in range(sc.pick(8, 33, 99))],
       bounds="onsets up to 300000 beats from the start, just before and after the middle between two parts", py=(3,))
def far(ctx, case):
    t, k = case
    off = (k % 3 - 1) * 0.001
    starts = [t + k / 32.0 + off, t + 0.125 + off, t + 1.375 - off, t + 2.12, t + 2.63]
    starts = [x for x in starts if not near((x % 1) * 4 % 1, 0.5, 1e-6)]
    check_grid(ctx, starts, t + 4)


@suite("rows", lambda sc: [(rows, cols, k) for rows, cols in ((1, 1), (70, 3), (3, 70), (130, 2), (300, 4), (16, 16)) for k in range(sc.pick(4, 8, 40))],
       bounds="matrices of up to 300 rows of small, large and uneven values", py=(3,))
def rows(ctx, case):
    rows, cols, k = case
    scale = (1, 1e-3, 1e-9, 1e6, 1 / 3.0, 0.004, 1e-200, 1e100)[k % 8]
    given = [[scale * ((i * (k + 1) + j * j * 3 + i * j) % 7 % 4) for j in range(cols)] for i in range(rows)]
    if cols > 1:
        given[rows // 2] = [1e4 * scale] + [0] * (cols - 2) + [scale]
        given[-1] = [0] * (cols - 1) + [scale * 1e-3]
    for arg in (given, np.array(given)):
        got = np.array(bassmine.normalize(arg)).tolist()
        want = [[x / float(math.fsum(r)) if sum(r) else 0.0 for x in r] for r in given]
        check(len(got) == rows and all(near(x, y, 1e-12) for r, s in zip(got, want) for x, y in zip(r, s)), "normalize of %d rows, by %r", rows, scale)
        ctx.op()
    a = np.array(given)
    same(bassmine.markov_tm_2dict(a), {i: {str(j) for j, x in enumerate(r) if x > 0} for i, r in enumerate(given) if any(r)}, "columns of %d rows, by %r" % (rows, scale))
    column = a[:, 0]
    same(bassmine.markov_tm_2dict(column), {str(j) for j, r in enumerate(given) if r[0] > 0}, "rows")
    for form in (column, column.tolist(), tuple(column)):
        for func in (lambda x: x > scale, lambda x: x == scale, lambda x: x, lambda x: 1 if x == 0 else None):
            same(bassmine.indices(form, func), [i for i, r in enumerate(given) if func(r[0])], "indices among %d" % rows)
    ctx.op(4)


@suite("sizes", lambda sc: [(n, m, k) for n in (1, 2, 5, 16, 30) for m in (1, 2, 5, 16, 30) for k in (0, 1)], bounds="models of all sizes and shapes", py=(3,))
def sizes(ctx, case):
    n, m, k = case
    for size in [(n, m)] + ([n] if n == m else []):
        model = bassmine.MarkovModel(size)
        model.add_interlocking([i % n for i in range(40)], [(i * 3 + k) % m for i in range(40)])
        seq = [(i * i + k) % min(n, m) for i in range(30)]
        model.add_temporal(seq)
        model.normalize_model()
        same((np.shape(model.get_initial()), np.shape(model.get_temporal()), np.shape(model.get_interlocking())), ((n,), (n, m), (n, m)), "sizes of a model of %r" % (size,))
        want = [[0] * m for _ in range(n)]
        for i in range(40):
            want[i % n][(i * 3 + k) % m] += 1
        got = model.get_interlocking().tolist()
        check(all(near(x, y / float(sum(r))) for g, r in zip(got, want) for x, y in zip(g, r) if sum(r)), "interlocking of a model of %r: %r", size, got)
        same([float(x) for x in model.get_initial()], [1.0 if i == seq[0] else 0.0 for i in range(n)], "first beats of a model of %r" % (size,))
        ctx.op(3)


def chains(first, follow, n):
    """exact probability of each sequence of n beats"""
    res = {(x,): w for x, w in shares(first).items()}
    for _ in range(n - 1):
        res = {s + (x,): w * v for s, w in res.items() for x, v in shares(follow[s[-1]]).items()}
    return res


FREE = ([[8, 10, 8, 2]], [[8, 8, 2]], [[1, 2], [2, 4, 4]], [[15, 0, 15, 0, 0]], [[8, 4], [4, 8, 8]], [[3, 3]], [[0, 1, 2]], [[5, 5, 5, 9]])


@suite("free", lambda sc: product(range(len(FREE)), range(1, sc.pick(6, 9, 12))), bounds="8 models of few beats: the exact probability of every free bassline of up to 8 (thorough: 11) beats", py=(3,))
def free(ctx, case):
    basses, n = FREE[case[0]], case[1]
    model = learn(basses, [[8] * len(b) for b in basses])
    want = chains(*(counts(basses) + (n,)))
    got = {}
    for res, weight, _ in explore(lambda: bassmine.generateBassRhythm(model, n)):
        got[ids_of(res)] = got.get(ids_of(res), 0) + weight
        ctx.op()
    check(set(got) == set(want) and all(near(float(got[x]), float(want[x]), 1e-6) for x in want), "%d beats learnt from %r: %r instead of %r",
          n, basses, sorted(got.items())[:5], sorted(want.items())[:5])


@suite("rounds", lambda sc: product((1, 2, 3, 5, 7, 11, 16), (1, 4, 9, 12, 17, 33, 65, 130)[:sc.pick(4, 8, 8)]), bounds="models in which each of up to 16 beats has one that follows: basslines of up to 130 beats", py=(3,))
def rounds(ctx, case):
    m, n = case
    beats = [(i * 5 + 3) % 16 for i in range(m)]
    for first in range(m if n < 20 else 1):
        lesson = beats[first:] + beats[:first]
        model = learn([lesson * (1 + (m == 1))], [[8] * m])
        for res, weight, _ in explore(lambda: bassmine.generateBassRhythm(model, n)):
            same((ids_of(res), weight), (tuple(lesson[i % m] for i in range(n)), 1), "%d beats learnt from %r" % (n, lesson))
            ctx.op()


@suite("defaults", lambda sc: [(k,) for k in range(16)], bounds="8 beats when no number is asked for; nothing is written unless asked for", py=(3,))
def defaults(ctx, case):
    k = case[0]
    lesson = [k, (k + 5) % 16, (k + 3) % 16]
    model = learn([lesson], [[8, 8, 8]])
    before = sorted(os.listdir("."))
    inside = sorted(os.listdir("output"))
    for res, _, _ in explore(lambda: bassmine.generateBassRhythm(model)):
        same(ids_of(res), tuple(lesson[i % 3] for i in range(8)), "a bassline learnt from %r" % (lesson,))
    bassmine.createMarkovGenerationDictionary()
    same((sorted(os.listdir(".")), sorted(os.listdir("output"))), (before, inside), "files")
    steps = {i: {lesson[i % 3]: {"pattern": [lesson[(i + 1) % 3]], "probs": [1.0]}} for i in range(7)}
    first = {"initial": {"pattern": [k], "prob": [1.0]}}
    for res, _, _ in explore(lambda: bassmine._generateBassRhythm([first, steps])):
        same(ids_of(res), tuple(lesson[i % 3] for i in range(8)), "a bassline of a constrained model")
    ctx.op(3)
