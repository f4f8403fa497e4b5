# -*- coding: utf-8 -*-
"""C38 a stored bass model generates like the one that was learnt"""
from __future__ import absolute_import, division, print_function

import glob
import json
import os
import pickle
import shutil

import numpy as np

from bass import ids_of, learn, onsets
from choices import explore
from core import check, product, same, sequences, suite
from lib import near, pattern
from gsapi import bassmine, gsio

LESSONS = [
    ([[8, 10, 8, 2]], [[8, 8, 8, 8]]),
    ([[8, 10, 0, 8], [10, 8, 2, 0]], [[8, 0, 8, 0], [8, 8, 0, 0]]),
    ([[8, 2, 10, 2], [2, 8, 8, 0], [0, 10]], [[8, 4, 8, 4], [4, 8, 8, 4], [8, 4]]),
    ([[15, 0, 15, 8], [1, 8, 1, 15]], [[8, 10, 8, 8], [10, 8, 10, 8]]),
    ([[0, 0, 0, 8]], [[8, 0, 8, 0]]),
    ([[i, (i * 7 + 3) % 16, (i + 5) % 16] for i in range(16)], [[8, (i * 3) % 16, 8] for i in range(16)]),
]
NAMES = ("initial", "temporal", "interlocking")


def parts(model):
    return (model.get_initial(), model.get_temporal(), model.get_interlocking())


def load(path):
    with open(path, "rb") as f:
        return pickle.load(f)


def same_array(got, want, what):
    check(type(got) is type(want) and got.dtype == want.dtype and got.shape == want.shape and got.tobytes() == want.tobytes(),
          "%s: %r instead of %r", what, got, want)


def fresh(name):
    path = "output/" + name
    shutil.rmtree(path, ignore_errors=True)
    return path


def files_in(path):
    return sorted(os.path.relpath(os.path.join(a, f), path) for a, _, c in os.walk(path) for f in c)


def rebuilt(path):
    """a model made of what is stored"""
    model = bassmine.MarkovModel(16)
    model.initial_model, model.temporal_model, model.interlocking_model = [load(path + n + ".pickle") for n in NAMES]
    return model


def distribution(ctx, run, limit=60000):
    res = {}
    for p, weight, _ in explore(run, limit=limit):
        ids = ids_of(p)
        same([(e.duration, e.pitch, e.velocity, e.tag) for e in p.events], [(0.25, 36, 110, "bass")] * len(p.events), "notes")
        res[ids] = res.get(ids, 0) + weight
        ctx.visited(0, 1, 1)
    return res


def same_distribution(got, want, what):
    check(set(got) == set(want) and all(near(float(got[k]), float(want[k]), 1e-9) for k in want), "%s: generates %r instead of %r",
          what, sorted(got.items())[:6], sorted(want.items())[:6])


def target(kicks):
    return pattern([(t, 0.25, 36, 100, "Kick") for t in onsets(kicks)], len(kicks))


def kicks_of(k, n):
    """targets that the model of lesson k has an answer to: the kicks it has learnt with"""
    return [x[:n] for x in LESSONS[k][1] if len(x) >= n]


@suite("pickled", lambda sc: product(range(len(LESSONS)), range(1, sc.pick(3, 4, 6))), bounds="6 models stored as three matrices and as a whole: every bassline of 1..3 (thorough: 5) beats, free and to kicks, that "
       "they generate", py=(3,))
def pickled(ctx, case):
    k, n = case
    if k == 5:
        n = min(n, 3)
    model = learn(*LESSONS[k])
    before = [x.copy() for x in parts(model)]
    path = fresh("c38") + "/deep/er/"
    for name, x in zip(NAMES, parts(model)):
        gsio.write2pickle(name, x, path)
    gsio.write2pickle("all", model, path)
    gsio.write2pickle("list", list(parts(model)), path=path)
    same(files_in("output/c38"), sorted("deep/er/%s.pickle" % x for x in NAMES + ("all", "list")), "files")
    for name, x, y, z in zip(NAMES, before, parts(model), load(path + "list.pickle")):
        same_array(load(path + name + ".pickle"), x, name)
        same_array(y, x, name + ", which writing it changed")
        same_array(z, x, name + " in the list")
    copies = [("the matrices", rebuilt(path)), ("the model", load(path + "all.pickle"))]
    free = distribution(ctx, lambda: bassmine.generateBassRhythm(model, n))
    for what, copy in copies:
        same_distribution(distribution(ctx, lambda: bassmine.generateBassRhythm(copy, n)), free, "%s stored of %r" % (what, LESSONS[k]))
    for kicks in kicks_of(k, n) if n > 1 else []:
        want = distribution(ctx, lambda: bassmine.generateBassRhythm(model, n, target(kicks)))
        for what, copy in copies:
            same_distribution(distribution(ctx, lambda: bassmine.generateBassRhythm(copy, n, target(kicks))), want, "%s stored of %r to %r" % (what, LESSONS[k], kicks))
    for x, y in zip(before, parts(model)):
        same_array(y, x, "the model, which generating changed")


@suite("goes on learning", lambda sc: product(range(len(LESSONS)), range(len(LESSONS))), bounds="each of 6 models, stored as a whole before it learns another of the lessons", py=(3,))
def goes_on(ctx, case):
    a, b = case
    path = fresh("c38g") + "/"
    model = bassmine.MarkovModel(16)

    def lesson(m, k):
        for x in LESSONS[k][0]:
            m.add_temporal(x)
        for x, y in zip(LESSONS[k][1], LESSONS[k][0]):
            m.add_interlocking(x, y)
    lesson(model, a)
    gsio.write2pickle("m", model, path)
    both = [model, load(path + "m.pickle")]
    for normal in (False, True):
        if normal:
            model.normalize_model()
            gsio.write2pickle("m", model, path)
            both.append(load(path + "m.pickle"))
    for m in both:
        lesson(m, b)
        m.normalize_model()
        ctx.op(3)
    for m in both[1:]:
        for x, y, name in zip(parts(m), parts(model), NAMES):
            same_array(x, y, "%s of the model of %r and then %r" % (name, LESSONS[a], LESSONS[b]))
    want = learn(LESSONS[a][0] + LESSONS[b][0], LESSONS[a][1] + LESSONS[b][1])
    for x, y, name in zip(parts(model), parts(want), NAMES):
        check(np.allclose(x, y, 1e-12, 1e-12), "%s of the model of %r and then %r", name, LESSONS[a], LESSONS[b])


def as_numbers(model):
    return {int(i): {int(a): r for a, r in s.items()} for i, s in model.items()}


@suite("constrained", lambda sc: [(k,) + tuple(x[:n]) for k in range(len(LESSONS)) for n in range(2, sc.pick(4, 5, 5)) for x in kicks_of(k, n)[:sc.pick(3, 16, 16)]],
       bounds="the models constrained to kicks that are learnt, as returned and as stored in JSON: every bassline of every length", py=(3,))
def constrained(ctx, case):
    k, kicks = case[0], list(case[1:])
    model = learn(*LESSONS[k])
    path = fresh("c38c") + "/"
    os.makedirs(path)
    returned = bassmine.constrainMM(model, target(kicks), path)
    with open(path + "Model_init.json") as f:
        first = json.load(f)
    with open(path + "NHModel.json") as f:
        steps = as_numbers(json.load(f))
    same(files_in(path), ["Model_init.json", "NHModel.json"], "files")
    for n in range(1, len(kicks) + 1):
        want = distribution(ctx, lambda: bassmine.generateBassRhythm(model, n, target(kicks)))
        for what, m in (("returned", returned), ("stored", [first, steps])):
            same_distribution(distribution(ctx, lambda: bassmine._generateBassRhythm(m, n)), want, "the model of %r constrained to %r, as %s" % (LESSONS[k], kicks, what))


WRITES = [("a", 0), ("a", 1), ("b", 0), ("b", 1), ("a.1", 0), ("a.2", 0), ("b.pickle", 1), (" ", 0)]


@suite("histories", lambda sc: [c for c in sequences(range(len(WRITES)), 1, sc.pick(2, 3, 4))], bounds="all sequences of up to 3 (thorough: 4) writes under 6 names in 2 folders: each file has what was written last", py=(3,))
def histories(ctx, case):
    path = fresh("c38h")
    held = {}
    for i, c in enumerate(case):
        name, sub = WRITES[c]
        data = np.array([[i, 1.0 / (i + 3)], [c, -0.0]]) if i % 2 else np.arange(3 * (5 - i))
        gsio.write2pickle(name, data, "%s/%d/" % (path, sub))
        held["%d/%s.pickle" % (sub, name)] = data
        same(files_in(path), sorted(held), "files")
        for f in held:
            same_array(load(path + "/" + f), held[f], "%s after %r" % (f, [WRITES[x] for x in case[:i + 1]]))
        ctx.op()


def by_hand(n, k):
    """(first beats, what may follow at each step) of a model of n beats"""
    states = [[(i * 3 + j * 5 + k) % 16 for j in range(1 + ((i + k) % 5 == 2))] for i in range(n)]
    first = {"initial": {"pattern": list(states[0]), "prob": [1.0 / len(states[0])] * len(states[0])}}
    steps = {}
    for i in range(n - 1):
        row = {"pattern": list(states[i + 1]), "probs": [0.25, 0.75] if len(states[i + 1]) == 2 else [1.0]}
        steps[i] = {a: row for a in states[i]}
    return states, first, steps


@suite("by hand", lambda sc: product((1, 2, 9, 10, 11, 12, 21, sc.pick(22, 30, 40)), range(5)), bounds="models of up to 30 (thorough: 40) steps that differ from step to step, written down by hand, in any order, and stored: exact probabilities", py=(3,))
def handmade(ctx, case):
    n, k = case
    states, first, steps = by_hand(n, k)
    keys = list(steps)
    orders = [keys, keys[::-1], sorted(keys, key=str), keys[1::2] + keys[::2]]
    os.makedirs(fresh("c38w"))
    for j, order in enumerate(orders):
        made = {i: steps[i] for i in order}
        with open("output/c38w/%d.json" % j, "w") as f:
            json.dump(made, f)
        with open("output/c38w/%d.json" % j) as f:
            stored = as_numbers(json.load(f))
        for m in (made, stored):
            for beats in sorted({n, max(1, n // 2), 1}):
                want = {(x,): 1.0 / len(states[0]) for x in states[0]}
                for i in range(beats - 1):
                    row = steps[i][states[i][0]]
                    want = {s + (x,): w * v for s, w in want.items() for x, v in zip(row["pattern"], row["probs"])}
                same_distribution(distribution(ctx, lambda: bassmine._generateBassRhythm([first, m], beats)), want, "%d beats of a model of %d" % (beats, n))
