# -*- coding: utf-8 -*-
"""C30 constrained bass models have no dead ends and lose no solution"""
from __future__ import absolute_import, division, print_function

import json
import os
from fractions import Fraction
from itertools import product as every

import numpy as np

from bass import counts, ids_of, learn, onsets, shares, together
from choices import Fixed, controlled, explore
from core import check, product, same, sequences, suite
from lib import near, pattern, snap
from gsapi import bassmine

# what the models learnt: basslines and the kicks they go with
LESSONS = [
    ([[8, 10, 8, 2]], [[8, 8, 8, 8]]),
    ([[8, 10, 0, 8], [10, 8, 2, 0]], [[8, 0, 8, 0], [8, 8, 0, 0]]),
    ([[8, 2, 10, 2], [2, 8, 8, 0], [0, 10]], [[8, 4, 8, 4], [4, 8, 8, 4], [8, 4]]),
    ([[8, 8, 2, 0], [8, 0, 10, 10], [10, 2, 8, 8]], [[8, 0, 0, 8], [8, 4, 4, 0], [0, 8, 8, 8]]),
    ([[15, 0, 15, 8], [1, 8, 1, 15]], [[8, 10, 8, 8], [10, 8, 10, 8]]),
    ([[0, 0, 0, 8]], [[8, 0, 8, 0]]),
    ([[8, 2, 10, 2], [8, 10, 2, 2]], [[8, 4, 0, 4], [8, 0, 4, 4]]),
]


class Truth(object):
    """the learnt frequencies, counted apart"""

    def __init__(self, k):
        self.basses, self.kicks = [list(x) for x in LESSONS[k][0]], [list(x) for x in LESSONS[k][1]]
        first, follow = counts(self.basses)
        self.first = shares(first)
        self.follow = {a: shares(r) for a, r in follow.items()}
        self.allowed = {a: set(r) for a, r in together(self.kicks, self.basses).items()}

    def domains(self, kicks):
        """the beats that go with each kick, those of a kick on the beat where it is new"""
        return [self.allowed.get(k, self.allowed.get(8)) for k in kicks]

    def solutions(self, domains, starts=None):
        """all sequences within the domains"""
        res = [(a,) for a in sorted(self.first if starts is None else starts) if domains[0] is None or a in domains[0]]
        for d in domains[1:]:
            res = [s + (b,) for s in res for b in sorted(self.follow.get(s[-1], ())) if d is None or b in d]
        return res


def split(solutions):
    """[{prefix end: continuations}] of each step"""
    n = len(solutions[0])
    res = [{} for _ in range(n - 1)]
    for s in solutions:
        for i in range(n - 1):
            res[i].setdefault(s[i], set()).add(s[i + 1])
    return res


def restricted(row, chosen):
    part = {k: row[k] for k in chosen}
    total = sum(part.values())
    return {k: v / total for k, v in part.items()}


def same_row(got, names, what, want):
    found = dict(zip(got["pattern"], got[names]))
    same(len(found), len(got["pattern"]), what + ": a beat twice")
    check(set(found) == set(want) and all(near(float(found[k]), float(want[k]), 1e-9) for k in want), "%s: %r instead of %r",
          what, found, {k: str(v) for k, v in want.items()})


def check_steps(truth, model, steps, what):
    same(sorted(model), list(range(len(steps))), what + ": steps")
    for i, step in enumerate(steps):
        for a in step:
            check(a in model[i], "%s: %r at step %d has no continuation", what, a, i)
            same_row(model[i][a], "probs", "%s: step %d after %r" % (what, i, a), restricted(truth.follow[a], step[a]))


def stored(name):
    with open("output/" + name) as f:
        return json.load(f)


def keys(model):
    return {str(i): {str(a): {k: list(v) for k, v in r.items()} for a, r in s.items()} for i, s in model.items()}


def target_pattern(kicks):
    return pattern([(t, 0.25, 36, 100, "Kick") for t in onsets(kicks)], len(kicks))


def chain(truth, solutions, start, length, steps=None):
    """{sequence: probability} of the first beats of the solutions"""
    res = {}
    first = start
    for a, p in first.items():
        res[(a,)] = p
    for i in range(length - 1):
        new = {}
        for s, p in res.items():
            row = truth.follow[s[-1]] if steps is None else restricted(truth.follow[s[-1]], steps[i][s[-1]])
            for b, q in row.items():
                new[s + (b,)] = p * q
        res = new
    return res


def same_distribution(ctx, run, want, what, limit=100000):
    got = {}
    for res, weight, _ in explore(run, limit=limit):
        ids = ids_of(res)
        same([(e.duration, e.pitch, e.tag) for e in res.events], [(0.25, 36, "bass")] * len(res.events), what + ": notes")
        got[ids] = got.get(ids, 0) + weight
        ctx.visited(0, 1, 1)
    check(set(got) == set(want), "%s: generates %r beyond and not %r", what, sorted(set(got) - set(want))[:4], sorted(set(want) - set(got))[:4])
    for s in want:
        check(near(float(got[s]), float(want[s]), 1e-6), "%s: %r has probability %s instead of %s", what, s, float(got[s]), want[s])


def matrices(model):
    return [np.array(x).tolist() for x in (model.get_initial(), model.get_temporal(), model.get_interlocking())]


KICKS = (8, 0, 4, 3)


def no_sequence(ctx, run, what):
    """an error or nothing, whatever is drawn: what cannot be satisfied is not answered by something else"""
    def attempt():
        try:
            return list(run())
        except Exception:
            return []
    for res, _, _ in explore(attempt, limit=2000):
        ctx.op()
        check(not res, "%s, but %r", what, res)


@suite("constrained", lambda sc: [(k,) + c for k in range(len(LESSONS)) for c in sequences(KICKS, 2, sc.pick(3, 4, 5))],
       bounds="7 models, all kicks of 2..4 (thorough: 6) of 4 beats, one of which is in no model", py=(3,))
def constrained(ctx, case):
    truth, kicks = Truth(case[0]), list(case[1:])
    what = "model of %r, kicks %r" % (LESSONS[case[0]], kicks)
    domains = truth.domains(kicks)
    solutions = truth.solutions(domains)
    model = learn(truth.basses, truth.kicks)
    target = target_pattern(kicks)
    before, given = matrices(model), snap(target)
    if not solutions:
        no_sequence(ctx, lambda: bassmine.constrainMM(model, target)[0]["initial"]["pattern"], what + ": first beats of no sequence")
        if any(kicks):
            no_sequence(ctx, lambda: ids_of(bassmine.generateBassRhythm(model, len(kicks), target)), what + ": no sequence goes with the kicks")
        same(matrices(model), before, what + ": changed the model")
        return
    init, nhmm = bassmine.constrainMM(model, target)
    ctx.op()
    same(matrices(model), before, what + ": changed the model")
    same(snap(target), given, what + ": changed the target")
    steps = split(solutions)
    start = restricted(truth.first, {s[0] for s in solutions})
    same_row(init["initial"], "prob", what + ": first beat", start)
    check_steps(truth, nhmm, steps, what)
    same(stored("NHModel.json"), keys(nhmm), what + ": NHModel.json")
    same(stored("Model_init.json"), init, what + ": Model_init.json")
    for length in sorted({2, len(kicks), 8}):
        if not any(kicks):
            break   # a target without kicks is no target
        n = min(length, len(kicks))
        want = chain(truth, solutions, start, n, steps)
        if n == len(kicks):
            same(set(want), set(solutions), "reference")
        same_distribution(ctx, lambda: bassmine.generateBassRhythm(model, length, target), want, "%s, %d beats" % (what, length))
    same(matrices(model), before, what + ": changed the model")


@suite("free", lambda sc: [(k, n) for k in range(len(LESSONS)) for n in range(1, sc.pick(4, 6, 9))],
       bounds="7 models, sequences of 1..5 (thorough: 8) beats without constraints", py=(3,))
def free(ctx, case):
    k, n = case
    truth = Truth(k)
    model = learn(truth.basses, truth.kicks)
    want = chain(truth, None, truth.first, n)
    same_distribution(ctx, lambda: bassmine.generateBassRhythm(model, n), want, "model of %r, %d beats" % (LESSONS[k], n))


def gen_variations(sc):
    for k in range(len(LESSONS)):
        for n in range(2, sc.pick(4, 5, 7)):
            whole = Truth(k).solutions([None] * n)
            for i, s in enumerate(whole):
                for m, mask in enumerate(every((1, -1), repeat=n)):
                    if n < 5 or (i + m) % sc.pick(5, 5, 3) == 0:
                        yield (k, s, mask)


@suite("variations", gen_variations,
       bounds="7 models, every rhythm of 2..4 (thorough: 6) beats that they can generate, every mask of beats to keep", py=(3,))
def variations(ctx, case):
    k, rhythm, mask = case
    truth = Truth(k)
    model = learn(truth.basses, truth.kicks)
    what = "model of %r, rhythm %r, mask %r" % (LESSONS[k], rhythm, mask)
    domains = [{x} if i == 0 or mask[i] > 0 else None for i, x in enumerate(rhythm)]
    solutions = truth.solutions(domains, {rhythm[0]})
    steps = split(solutions)
    before = matrices(model)
    masked = [x if i == 0 or mask[i] > 0 else -1 for i, x in enumerate(rhythm)]
    given = list(masked)
    init, nhmm = bassmine.variationMM(model, masked)
    ctx.op()
    same(masked, given, what + ": changed the mask")
    same((init["initial"]["pattern"], init["initial"]["prob"]), (rhythm[0], 1.0), what + ": first beat")
    check_steps(truth, nhmm, steps, what)
    for i, step in enumerate(nhmm):
        same(set(nhmm[i]), set(steps[i]), "%s: beats at step %d" % (what, i))
    same(stored("NHModel_var.json"), keys(nhmm), what + ": NHModel_var.json")
    same(stored("Model_init_var.json"), init, what + ": Model_init_var.json")
    target = pattern([(t, 0.25, 36, 110, "bass") for t in onsets(rhythm)], len(rhythm))
    before_target = snap(target)
    want = chain(truth, solutions, {rhythm[0]: Fraction(1)}, len(rhythm), steps)
    same(set(want), set(solutions), "reference")
    same_distribution(ctx, lambda: bassmine.generateBassRhythmVariation(model, target, list(mask)), want, what)
    same(snap(target), before_target, what + ": changed the target")
    same(matrices(model), before, what + ": changed the model")


def big(k):
    """basslines and kicks of 16 beats of all beat patterns"""
    m = 6 + 24 * (k % 2)
    basses = [[((i * (3 + k) + j * 5) * (i + 1) // 3) % 16 for i in range(16)] for j in range(m)]
    kicks = [[(8, 0, 10, 2, 8)[(i + j * k) % 5] for i in range(16)] for j in range(m)]
    return basses, kicks


@suite("wide", lambda sc: [(k, n, rule) for k in range(sc.pick(2, 6, 30)) for n in (4, 8, 16, 24, 40, 70) for rule in ("first", "last", 3, 7)],
       bounds="models of 6 basslines of 16 beats, 4..16 beats, under fixed rules of choice: every step against the reference", py=(3,))
def wide(ctx, case):
    k, n, rule = case
    LESSONS.append(big(k))
    try:
        truth = Truth(len(LESSONS) - 1)
    finally:
        LESSONS.pop()
    model = learn(truth.basses, truth.kicks)
    kicks = [(8, 0, 10, 2, 8, 7)[(i * i + k) % 6] for i in range(n)]
    domains = truth.domains(kicks)
    alive = [None] * n
    alive[-1] = set(domains[-1])
    for i in reversed(range(n - 1)):
        alive[i] = {a for a in domains[i] if set(truth.follow.get(a, ())) & alive[i + 1]}
    starts = alive[0] & set(truth.first)
    what = "model %d of %d beats" % (k, n)
    if starts:
        target = target_pattern(kicks)
        init, nhmm = bassmine.constrainMM(model, target)
        ctx.op()
        same_row(init["initial"], "prob", what + ": first beat", restricted(truth.first, starts))
        reached = starts
        for i in range(n - 1):
            for a in reached:
                check(a in nhmm[i], "%s: %r at step %d has no continuation", what, a, i)
                same_row(nhmm[i][a], "probs", "%s: step %d after %r" % (what, i, a),
                         restricted(truth.follow[a], set(truth.follow[a]) & alive[i + 1]))
            reached = {b for a in reached for b in set(truth.follow[a]) & alive[i + 1]}
        with controlled(Fixed(rule)):
            s = ids_of(bassmine.generateBassRhythm(model, n, target))
        check(s[0] in truth.first and all(b in truth.follow[a] for a, b in zip(s, s[1:])) and all(x in d for x, d in zip(s, domains)) and
              len(s) == n, "%s: generated %r", what, s)
    with controlled(Fixed(rule)):
        s = ids_of(bassmine.generateBassRhythm(model, n))
    check(s[0] in truth.first and all(b in truth.follow[a] for a, b in zip(s, s[1:])) and len(s) == n, "%s: generated %r", what, s)
    mask = [1 if (i * 5 + k) % 3 == 0 else -1 for i in range(n)]
    init, nhmm = bassmine.variationMM(model, [x if i == 0 or mask[i] > 0 else -1 for i, x in enumerate(s)])
    domains = [{x} if i == 0 or mask[i] > 0 else None for i, x in enumerate(s)]
    reach = [{s[0]}]
    for d in domains[1:]:
        reach.append({b for a in reach[-1] for b in truth.follow.get(a, ()) if d is None or b in d})
    for i in reversed(range(n - 1)):
        reach[i] = {a for a in reach[i] if set(truth.follow.get(a, ())) & reach[i + 1]}
    for i in range(n - 1):
        same(set(nhmm[i]), reach[i], "%s, %r varied by %r: beats at step %d" % (what, s, mask, i))
        for a in reach[i]:
            same_row(nhmm[i][a], "probs", "%s varied: step %d after %r" % (what, i, a), restricted(truth.follow[a], set(truth.follow[a]) & reach[i + 1]))
    target = pattern([(t, 0.25, 36, 110, "bass") for t in onsets(s)], n)
    with controlled(Fixed(rule)):
        v = ids_of(bassmine.generateBassRhythmVariation(model, target, mask))
    check(all(b in truth.follow[a] for a, b in zip(v, v[1:])) and len(v) == n and v[0] == s[0] and
          all(v[i] == s[i] for i in range(n) if mask[i] > 0), "%s: %r varied by %r is %r", what, s, mask, v)
    ctx.op(2)


@suite("rare", lambda sc: [(n, length, k) for n in (30, 60, 257) + sc.pick((), (1001,), (1001, 5001)) for length in (2, 3, 4) for k in range(3)],
       bounds="models with first beats, transitions and kicks that were learnt once in 30..5001 times: every sequence which holds them", py=(3,))
def rare(ctx, case):
    n, length, k = case
    basses = [[8, 10, 8, 10]] * n + [[2, 8, 3, 3], [8, 0, 10, 8]]
    kicks = [[8, 8, 8, 8]] * n + [[8, 8, 4, 8], [8, 8, 8, 8]]
    LESSONS.append((basses, kicks))
    try:
        truth = Truth(len(LESSONS) - 1)
    finally:
        LESSONS.pop()
    model = learn(truth.basses, truth.kicks)
    kick = [[8] * length, [8] * (length - 1) + [4], [15] + [8] * (length - 1)][k]
    what = "model of %d equal basslines and 2 others, kicks %r" % (n, kick)
    before = matrices(model)
    solutions = truth.solutions(truth.domains(kick))
    if solutions:
        steps = split(solutions)
        start = restricted(truth.first, {s[0] for s in solutions})
        target = target_pattern(kick)
        init, nhmm = bassmine.constrainMM(model, target)
        same_row(init["initial"], "prob", what + ": first beat", start)
        check_steps(truth, nhmm, steps, what)
        same_distribution(ctx, lambda: bassmine.generateBassRhythm(model, length, target), chain(truth, solutions, start, length, steps), what)
    same_distribution(ctx, lambda: bassmine.generateBassRhythm(model, length), chain(truth, None, truth.first, length), "model of %d equal basslines" % n)
    for rhythm in sorted(truth.solutions([None] * length))[k::3]:
        solutions = truth.solutions([{x} if i in (0, length - 1) else None for i, x in enumerate(rhythm)], {rhythm[0]})
        target = pattern([(t, 0.25, 36, 110, "bass") for t in onsets(rhythm)], length)
        mask = [1] + [-1] * (length - 2) + [1]
        same_distribution(ctx, lambda: bassmine.generateBassRhythmVariation(model, target, mask),
                          chain(truth, solutions, {rhythm[0]: Fraction(1)}, length, split(solutions)), what + ", %r varied" % (rhythm,))
    same(matrices(model), before, what + ": changed the model")
    ctx.op()


@suite("folders", lambda sc: [(k, i) for k in range(len(LESSONS)) for i in range(3)], bounds="the files of each model in other folders, written again", py=(3,))
def in_folders(ctx, case):
    k, i = case
    truth = Truth(k)
    model = learn(truth.basses, truth.kicks)
    folder = os.path.join("output", "c30 %d" % i) + "/"
    if not os.path.isdir(folder):
        os.makedirs(folder)
    for name in os.listdir("output"):
        if name.endswith(".json"):
            os.remove(os.path.join("output", name))
    kicks = truth.kicks[i % len(truth.kicks)][:3]
    target = target_pattern(kicks)
    for turn in (0, 1):
        if truth.solutions(truth.domains(kicks)):
            init, nhmm = bassmine.constrainMM(model, target, folder)
            same((stored("c30 %d/NHModel.json" % i), stored("c30 %d/Model_init.json" % i)), (keys(nhmm), init), "files of the constrained model %d" % k)
        rhythm = truth.solutions([None] * 3)[turn]
        init, nhmm = bassmine.variationMM(model, [rhythm[0], -1, rhythm[2]], folder)
        same((stored("c30 %d/NHModel_var.json" % i), stored("c30 %d/Model_init_var.json" % i)), (keys(nhmm), init), "files of the variations of model %d" % k)
        init, rows = model.rhythm_model(folder)
        same(stored("c30 %d/HModel_init.json" % i), init, "files of model %d" % k)
        same(stored("c30 %d/HModel.json" % i), {str(a): {x: list(y) for x, y in r.items()} for a, r in rows.items()}, "files of model %d" % k)
        ctx.op(3)
    check(not [x for x in os.listdir("output") if x.endswith(".json")], "files elsewhere")


@suite("every kick", lambda sc: [(a, b, n) for a in range(16) for b in range(16) for n in (2, 3) + sc.pick((), (9,), (9, 17)) if sc.level or (a + b) % 3 == 0 or a == 15 or n == 2],
       bounds="a model which learnt all 16 kicks: targets of every two of them, 2..3 (thorough: 17) beats", py=(3,))
def every_kick(ctx, case):
    a, b, n = case
    basses = [[(i * 3 + j * (i // 4 + 1)) % 7 + 8 * ((i + j) % 2) for i in range(16)] for j in range(3)]
    kicks = [[(i * (2 * j + 1) + j) % 16 for i in range(16)] for j in range(3)]
    LESSONS.append((basses, kicks))
    try:
        truth = Truth(len(LESSONS) - 1)
    finally:
        LESSONS.pop()
    model = learn(basses, kicks)
    checked(ctx, truth, model, [a] + [b] * (n - 1), "all kicks learnt")
    checked(ctx, truth, model, ([a, b] * n)[:n], "all kicks learnt")


def checked(ctx, truth, model, kicks, what):
    """the constrained model, step by step against what is reachable and can be completed"""
    n = len(kicks)
    what = "%s, kicks %r" % (what, kicks)
    if not any(kicks):
        return
    domains = truth.domains(kicks)
    alive = [None] * n
    alive[-1] = set(domains[-1])
    for i in reversed(range(n - 1)):
        alive[i] = {a for a in domains[i] if set(truth.follow.get(a, ())) & alive[i + 1]}
    starts = alive[0] & set(truth.first)
    if not starts:
        return
    before = matrices(model)
    init, nhmm = bassmine.constrainMM(model, target_pattern(kicks))
    ctx.op()
    same(matrices(model), before, what + ": changed the model")
    same_row(init["initial"], "prob", what + ": first beat", restricted(truth.first, starts))
    reached = starts
    for i in range(n - 1):
        for a in reached:
            check(a in nhmm[i], "%s: %r at step %d has no continuation", what, a, i)
            same_row(nhmm[i][a], "probs", "%s: step %d after %r" % (what, i, a), restricted(truth.follow[a], set(truth.follow[a]) & alive[i + 1]))
        reached = {b for a in reached for b in set(truth.follow[a]) & alive[i + 1]}


@suite("runs", lambda sc: [(k, n, run) for k in range(len(LESSONS) + 2) for n in (5, 9, 13, 20) + sc.pick((), (33,), (33, 64)) for run in (2, 3, 4, n)],
       bounds="7 models and two wide ones: targets of 5..20 (thorough: 64) beats, with runs of 2 to all of the same kick", py=(3,))
def runs(ctx, case):
    k, n, run = case
    lesson = LESSONS[k] if k < len(LESSONS) else big(k - len(LESSONS))
    LESSONS.append(lesson)
    try:
        truth = Truth(len(LESSONS) - 1)
    finally:
        LESSONS.pop()
    model = learn(truth.basses, truth.kicks)
    known = sorted(truth.allowed)
    for shift in range(len(known)):
        checked(ctx, truth, model, [known[(i // run + shift) % len(known)] for i in range(n)], "model %d" % k)
