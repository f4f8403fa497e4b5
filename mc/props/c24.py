# -*- coding: utf-8 -*-
"""C24 saved styles generate like the style they were saved from"""
from __future__ import absolute_import, division, print_function

import json
import os

import choices
from core import check, fail, product, same, sequences, suite
from lib import VARIED, bag, evs, meta, near, pattern, snap, varied, varied_pattern
from markov import SILENCE, generated, grid_of, learnt, model, steps_of, steps_to_pattern
from gsapi import gsstyles

KINDS = [[SILENCE, frozenset(["k"]), frozenset(["s"]), frozenset(["k", "s"])],
         [SILENCE, frozenset([("a", "b")]), frozenset(["a", "b"]), frozenset([("a", ("b", "c"))])],
         [SILENCE, frozenset([1]), frozenset([2.5]), frozenset(["1"])],
         [SILENCE, frozenset([u"\u00e9"]), frozenset(["with \"quotes\""]), frozenset([""])]]
COUNT = [0]


def file(suffix):
    COUNT[0] += 1
    return os.path.join("output", "c24-%d.%s" % (COUNT[0] % 7, suffix))


def built(seqs, order, loop):
    s = gsstyles.MarkovStyle(order=order, numSteps=len(seqs[0]), loopDuration=loop)
    s.generateStyle([steps_to_pattern(x, loop) for x in seqs])
    return s


def same_style(s, seqs, order, loop, what):
    chain = s.markovChain
    n = len(seqs[0])
    same((chain.order, chain.numSteps, chain.loopDuration), (order, n, loop), what + ": parameters")
    check(s.isBuilt(), "%s: is not built", what)
    want, got = model(seqs, order), learnt(chain, n)
    for g, w in zip(got, want):
        check(set(g) == set(w) and all(set(g[p]) == set(w[p]) and all(near(g[p][x], float(w[p][x]), 1e-9) for x in w[p])
                                       for p in w), "%s: transitions %r", what, g)


def outcomes(ctx, s, seqs, order, loop):
    n = len(seqs[0])
    res = {}
    for p, weight, _ in choices.explore(lambda: s.generatePattern(), grid=grid_of(model(seqs, order)), limit=20000):
        steps = steps_of(p, n, loop)
        check(isinstance(steps, tuple), "a generated pattern has %s", steps)
        res[steps] = res.get(steps, 0) + weight
        ctx.visited(1, n, 1)
    return res


def saved(ctx, s, how, into):
    path = file("json" if how == "json" else "pickle")
    if how == "json":
        s.saveToJSON(path)
        with open(path) as f:
            json.load(f)
        into.loadFromJSON(path)
    else:
        s.saveToPickle(path)
        into.loadFromPickle(path)
    if COUNT[0] % 2 or not s.isBuilt():
        os.remove(path)     # else saved over by a later one
    ctx.op(2)
    return into


def gen_markov(sc):
    seqs = list(product(range(4), range(4), range(4)))
    for i, (a, b) in enumerate(product(seqs, seqs)):
        if i % sc.pick(397, 23, 5) == 0:
            for kind in range(len(KINDS)):
                yield (kind, a, b)


@suite("markov", gen_markov, bounds="a comb of pairs of the patterns of 3 steps, orders 0..2, tags of 4 types, both formats")
def markov(ctx, case):
    kind, a, b = case
    seqs = [tuple(KINDS[kind][k] for k in c) for c in (a, b)]
    for order in (0, 1, 2):
        s = built(seqs, order, 3)
        want = outcomes(ctx, s, seqs, order, 3)
        for how in ("json", "pickle"):
            what = "%s of order %d, patterns %r" % (how, order, seqs)
            # into a style of the same parameters, of others, and into one that learnt something else
            for into in (gsstyles.MarkovStyle(order=order, numSteps=3, loopDuration=3), gsstyles.MarkovStyle(),
                         built([(KINDS[0][3],) * 4], 1, 2)):
                got = saved(ctx, s, how, into)
                same_style(got, seqs, order, 3, what)
                same(outcomes(ctx, got, seqs, order, 3), want, what + ": what it generates")
            same_style(s, seqs, order, 3, what + ": the saved style")


OPS = ("json", "pickle", "learn 0", "learn 1", "over json", "over pickle", "generate")


@suite("histories", lambda sc: sequences(range(len(OPS)), 1, sc.pick(2, 3, 4)),
       bounds="all histories of 1..3 (thorough: 4) of saving, loading, learning and generating")
def histories(ctx, case):
    lessons = [[(1, 0, 1), (1, 2, 0)], [(3, 3, 0)]]
    K = KINDS[0]
    seqs = [tuple(K[x] for x in c) for c in ((1, 0, 2), (2, 0, 2))]
    s = built(seqs, 1, 3)
    for k in case:
        op = OPS[k]
        if op in ("json", "pickle"):
            s = saved(ctx, s, op, gsstyles.MarkovStyle())
        elif op.startswith("learn"):
            seqs = [tuple(K[x] for x in c) for c in lessons[int(op[-1])]]
            s.generateStyle([steps_to_pattern(x, 3) for x in seqs])
        elif op.startswith("over"):
            other = [tuple(K[x] for x in c) for c in ((0, 0, 0), (2, 1, 2))]
            saved(ctx, built(other, 1, 3), op[5:], s)
            seqs = other
        else:
            s.generatePattern(1).events[:] = []
        same_style(s, seqs, 1, 3, "the history %r" % ([OPS[x] for x in case],))
        want = generated(model(seqs, 1), 1)
        same(set(outcomes(ctx, s, seqs, 1, 3)), set(want), "what it generates after %r" % ([OPS[x] for x in case],))


@suite("grids", lambda sc: [(n, loop, order, how) for n, loop in ((4, 4), (8, 4), (16, 4), (4, 1.5), (32, 8), (3, 0.125), (6, 10 / 3.0), (5, 5 / 7.0)) for order in (1, 2, 3, 5, 7)
                            for how in ("json", "pickle")], bounds="other grids, orders 1..7; equal seeds give equal patterns after loading")
def grids(ctx, case):
    n, loop, order, how = case
    if order >= n:
        return
    seqs = [tuple(KINDS[0][((i * 5 + c * 3) * (i + c) % 13) % 4] for i in range(n)) for c in range(5)]
    s = built(seqs, order, loop)
    got = saved(ctx, s, how, gsstyles.MarkovStyle())
    same_style(got, seqs, order, loop, "%d steps of %r beats" % (n, loop))
    for seed in range(5):
        a, b = s.generatePattern(seed), got.generatePattern(seed)
        ctx.op(2)
        same(b.duration, a.duration, "duration")
        table = model(seqs, order)
        for p in (a, b):
            steps = steps_of(p, n, loop)
            check(isinstance(steps, tuple), "a generated pattern has %s", steps)
            for i in range(order, n):
                check(steps[i] in table[i].get(steps[i - order:i], {}), "%r does not follow", steps[i])
        if how == "pickle":
            same(evs(b), evs(a), "seed %d" % seed)


@suite("unbuilt", lambda sc: [(how,) for how in ("json", "pickle")], bounds="styles that were not built")
def unbuilt(ctx, case):
    for s in (gsstyles.MarkovStyle(order=2, numSteps=4), gsstyles.DatabaseStyle()):
        check(not s.isBuilt(), "a new style is built")
        got = saved(ctx, s, case[0], type(s)())
        check(not got.isBuilt(), "a style that was not built is built once it is loaded")


# database

def patterns(case):
    res = []
    for i, k in enumerate(case):
        i = i if i < 3 else 1
        i = 0 if sum(case) % 3 == 0 else i
        events = [(x * 0.5, 0.25 + i, 60 + x, 70 + k, ("k", "s", "t")[(x + k) % 3]) for x in range(k)]
        res.append(pattern(events, 2 + i, name="p%d" % (i and len(case) % 2 and i), bpm=100 + i / 4.0, timeSignature=(3, 4), key="Am"))
    return res


def content(p):
    m = meta(p, ("resolution", "originFilePath"))
    m["timeSignature"] = tuple(m["timeSignature"])
    return evs(p), m


@suite("database", lambda sc: sequences(range(4), 0, sc.pick(2, 3, 4)),
       bounds="all databases of 0..3 (thorough: 4) patterns of 0..3 events, the three modes, both formats")
def database(ctx, case):
    for mode in ("indexed", "increasing", "random"):
        s = gsstyles.DatabaseStyle(generatePatternOrdering=mode)
        check(not s.isBuilt(), "a new style is built")
        given = patterns(case)
        before = [snap(p) for p in given]
        s.generateStyle(given)
        ctx.op()
        check(bool(s.isBuilt()) == bool(case), "isBuilt with %d patterns", len(case))
        want = [content(p) for p in given]
        check_mode(ctx, s, mode, want, "database of %d patterns, %s" % (len(case), mode))
        same([snap(p) for p in given], before, "the patterns changed")
        for how in ("json", "pickle"):
            s = gsstyles.DatabaseStyle(generatePatternOrdering=mode)
            s.generateStyle(patterns(case))
            other = gsstyles.DatabaseStyle(generatePatternOrdering=mode)
            other.generateStyle(patterns((1, 1)))
            for into in (gsstyles.DatabaseStyle(generatePatternOrdering=mode), other):
                got = saved(ctx, s, how, into)
                check(bool(got.isBuilt()) == bool(case), "isBuilt with %d patterns, once loaded", len(case))
                check_mode(ctx, got, mode, want, "%s of %d patterns, %s" % (how, len(case), mode))


def check_mode(ctx, s, mode, want, what):
    if not want:
        return
    if mode == "indexed":
        for i in list(range(len(want))) + [0]:
            s.currentIdx = i
            for _ in range(2):
                same(content(s.generatePattern()), want[i], "%s: pattern %d" % (what, i))
                ctx.op()
        s.currentIdx = 0
    elif mode == "increasing":
        same([content(s.generatePattern()) for _ in want], want, what)
        ctx.op(len(want))
    else:
        got = [0] * len(want)
        for p, weight, _ in choices.explore(lambda: s.generatePattern(), grid=len(want)):
            c = content(p)
            check(c in want, "%s: %r is not a pattern of the database", what, c)
            got[want.index(c)] += weight
            ctx.visited(1, 1, 1)
        expected = [sum(1.0 / len(want) for x in want if x == w) if want.index(w) == i else 0 for i, w in enumerate(want)]
        check(all(near(float(a), b) for a, b in zip(got, expected)), "%s: probabilities %r", what, got)


@suite("large databases", lambda sc: product((33, 65, 101, sc.pick(130, 300, 1100)), ("indexed", "increasing", "random"), ("json", "pickle")),
       bounds="databases of 33..300 (thorough: 1100) patterns, some of them alike or without events, saved and loaded")
def large(ctx, case):
    n, mode, how = case
    given = [pattern([(x * 0.5, 0.5, 60 + i % 60, 80, ("t%d" % i, i % 7)) for x in range(i % 3)], 4, name="p%d" % (i % 50)) for i in range(n)]
    for p in given:
        for e in p.events:
            e.tag = e.tag[0] if e.pitch % 2 else e.tag[1]
    want = [content(p) for p in given]
    s = gsstyles.DatabaseStyle(generatePatternOrdering=mode)
    s.generateStyle(given)
    if mode == "random":
        check_draws(ctx, s, want, "database of %d" % n)
        check_draws(ctx, saved(ctx, s, how, gsstyles.DatabaseStyle(generatePatternOrdering=mode)), want, "%s of a database of %d" % (how, n))
        return
    got = saved(ctx, s, how, gsstyles.DatabaseStyle(generatePatternOrdering=mode))
    check_mode(ctx, s, mode, want, "database of %d" % n)
    check_mode(ctx, got, mode, want, "%s of a database of %d" % (how, n))


def check_draws(ctx, s, want, what):
    got = [content(p) for p, _, _ in choices.explore(lambda: s.generatePattern(), grid=len(want))]
    ctx.visited(len(got), len(got), len(got))
    same(got, want, what + ": one draw of each")


@suite("varied", lambda sc: varied(sc, sc.pick((3,), (3, 10), (3, 10, 40)), comb=11), bounds=VARIED)
def of_the_family(ctx, case):
    given = []
    for k in range(2):
        p = varied_pattern(case, k)
        p.name = "none" if p.name is None else p.name
        for e in p.events:
            if isinstance(e.tag, (tuple, frozenset)):
                e.tag = "t"      # these are lists in JSON
        p.events.sort(key=lambda e: e.startTime)
        given.append(p)
    want = [content(p) for p in given]
    for how in ("json", "pickle"):
        s = gsstyles.DatabaseStyle("increasing")
        s.generateStyle(given)
        check_mode(ctx, saved(ctx, s, how, gsstyles.DatabaseStyle("increasing")), "increasing", want, how)
