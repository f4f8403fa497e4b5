# -*- coding: utf-8 -*-
"""C22 a Markov model holds exactly the transition frequencies of what it learnt"""
from __future__ import absolute_import, division, print_function

import json
import sys
import types

from core import check, fail, product, same, sequences, suite
from lib import corpus, near, pattern, snap
from markov import SILENCE, learnt, model, steps_to_pattern
from gsapi import gsio, gspattern, gsstyles

STEPS = [SILENCE, frozenset(["k"]), frozenset(["s"]), frozenset(["k", "s"])]
TUPLES = [SILENCE, frozenset([("a", "b")]), frozenset(["a", 1]), frozenset(["ab"])]


def style(order, steps, loop, kind=0):
    if kind:
        return gsstyles.MarkovStyle(order=order, numSteps=steps, loopDuration=loop).markovChain
    return gsstyles.PatternMarkov(order=order, numSteps=steps, loopDuration=loop)


def same_table(chain, want, what):
    got = learnt(chain, len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        ok = set(g) == set(w) and all(set(g[p]) == set(w[p]) and all(near(g[p][s], float(w[p][s]), 1e-9) for s in w[p])
                                      for p in w)
        if not ok:
            same(show(g), show(w), "%s: transitions to step %d" % (what, i))
        ins = [tuple(frozenset(x) for x in past) for past in chain.getPossibleInStatesAtStep(i)]
        outs = [frozenset(x) for x in chain.getPossibleOutStatesAtStep(i)]
        same((len(ins), set(ins)), (len(w), set(w)), "%s: histories at step %d" % (what, i))
        same((len(set(outs)), len(outs), set(outs)), (len(outs), len(outs), {s for d in w.values() for s in d}),
             "%s: steps at step %d" % (what, i))
    check(chain.isBuilt(), "%s: not built", what)


def show(t):
    return sorted((repr([sorted(map(str, s)) for s in past]), sorted((sorted(map(str, s)), round(float(p), 9)) for s, p in d.items()))
                  for past, d in t.items())


def learn(ctx, chain, patterns):
    before = [snap(p) for p in patterns]
    chain.generateTransitionTableFromPatternList(patterns)
    ctx.op()
    same([snap(p) for p in patterns], before, "learning changed the patterns")


def gen_small(sc):
    kinds = list(range(4))
    seqs = list(product(kinds, kinds, kinds))
    for a in seqs:
        yield (a,)
    step = sc.pick(37, 3, 1)
    for i, (a, b) in enumerate(product(seqs, seqs)):
        if i % step == 0:
            yield (a, b)
    for i, (a, b, c) in enumerate(product(seqs, seqs, seqs)):
        if i % sc.pick(9973, 331, 41) == 0:
            yield (a, b, c)


@suite("small", gen_small,
       bounds="all patterns of 3 steps of 4 kinds; every third pair (thorough: all), a comb of triples; orders 0..2")
def small(ctx, case):
    seqs = [tuple(STEPS[k] for k in c) for c in case]
    for order in (0, 1, 2):
        chain = style(order, 3, 3)
        learn(ctx, chain, [steps_to_pattern(s, 3, reverse=i % 2) for i, s in enumerate(seqs)])
        same_table(chain, model(seqs, order), "order %d, patterns %r" % (order, seqs))


@suite("long histories", lambda sc: (c for c in sequences(range(2), 4, 4)), bounds="orders of 1..4 on 4 steps")
def long_histories(ctx, case):
    for order in (1, 2, 3):
        seqs = [tuple(STEPS[k] for k in case), tuple(STEPS[1 - k] for k in case), (STEPS[3],) + tuple(STEPS[k] for k in case[1:])]
        chain = style(order, 4, 4)
        learn(ctx, chain, [steps_to_pattern(s, 4) for s in seqs])
        same_table(chain, model(seqs, order), "order %d, patterns %r" % (order, seqs))


GRIDS = [(2, 4), (4, 4), (4, 2), (8, 4), (16, 4), (3, 4), (4, 1), (6, 3), (4, 8), (32, 4), (12, 4), (16, 8), (5, 3), (7, 4)]


def gen_grids(sc):
    for g in range(len(GRIDS)):
        for order in (0, 1, 2):
            for offset in (0, 0.3, -0.3):
                for dur in (None, 0.1, 7):
                    if sc.level or (g + order) % 3 == 0:
                        yield (g, order, offset, dur)


@suite("grids", gen_grids, bounds="14 grids, orders 0..2, events off the grid or of other durations")
def grids(ctx, case):
    g, order, offset, dur = case
    n, loop = GRIDS[g]
    if order >= n:
        return
    seqs = [tuple(STEPS[(i * i * (k + 1) + i // 3 + k) % 4] for i in range(n)) for k in range(3)]
    chain = style(order, n, loop, kind=1)
    learn(ctx, chain, [steps_to_pattern(s, loop, offset=offset, duration=dur) for s in seqs])
    same_table(chain, model(seqs, order), "%d steps of %r beats, order %d" % (n, loop, order))


@suite("order", lambda sc: [(i, j) for i in range(4) for j in range(sc.pick(8, 64, 256))],
       bounds="neither the order of patterns nor of simultaneous events matters, repeated events count once, tags of any type")
def order_of(ctx, case):
    i, j = case
    kinds = STEPS if i % 2 else TUPLES
    seqs = [tuple(kinds[(j >> (2 * k)) % 4] for k in range(3)), tuple(kinds[(j + 3 * k + i) % 4] for k in range(3)),
            tuple(kinds[(j * 3 + k) % 4] for k in range(3))]
    for order in (0, 1, 2):
        for perm in ((0, 1, 2), (2, 0, 1), (1, 0, 2)):
            chain = style(order, 3, 6)
            ps = []
            for k, x in enumerate(perm):
                p = steps_to_pattern(seqs[x], 6, reverse=(k + perm[0]) % 2, pitch=50 + k)
                if i > 1:   # each event once more, at another pitch
                    p.events = p.events + [e.copy() for e in p.events]
                    for e in p.events[len(p.events) // 2:]:
                        e.pitch += 12
                ps.append(p)
            learn(ctx, chain, ps)
            same_table(chain, model(seqs, order), "order %d, patterns %r in the order %r" % (order, seqs, perm))


@suite("histories", lambda sc: sequences(range(4), 1, sc.pick(2, 3, 4)),
       bounds="all histories of 1..3 (thorough: 4) lessons of 4, on one style: each one starts afresh")
def histories(ctx, case):
    lessons = [[(1, 0, 1)], [(1, 0, 2), (1, 2, 3)], [(0, 0, 0)], [(1, 0, 1), (1, 0, 1), (1, 1, 1)]]
    s = gsstyles.MarkovStyle(order=1, numSteps=3, loopDuration=3)
    check(not s.isBuilt(), "a new style is built")
    for k in case:
        seqs = [tuple(STEPS[x] for x in c) for c in lessons[k]]
        patterns = [steps_to_pattern(c, 3) for c in seqs]
        before = [snap(p) for p in patterns]
        s.generateStyle(patterns)
        ctx.op()
        same([snap(p) for p in patterns], before, "learning changed the patterns")
        same_table(s.markovChain, model(seqs, 1), "the history %r" % (case,))
        s.buildStyle()
        ctx.op()
        same_table(s.markovChain, model(seqs, 1), "the history %r, built again" % (case,))
        text = repr(s.markovChain)
        check("step 2" in text, "text of the chain %r", text)
        s.markovChain.getStringTransitionTable()
        s.markovChain.getAllPossibleStates()
        same_table(s.markovChain, model(seqs, 1), "the history %r, printed" % (case,))


@suite("two styles", lambda sc: sequences(range(4), 2, 2), bounds="styles do not share what they learn")
def two(ctx, case):
    a, b = style(1, 3, 3), style(2, 3, 3)
    one, two = [tuple(STEPS[(x + k) % 4] for k in range(3)) for x in case]
    learn(ctx, a, [steps_to_pattern(one, 3)])
    learn(ctx, b, [steps_to_pattern(two, 3), steps_to_pattern(one, 3)])
    same_table(a, model([one], 1), "first style")
    same_table(b, model([two, one], 2), "second style")


@suite("wide", lambda sc: [(n, order, count) for n in (16, 32) for order in (1, 2, 3) for count in (2, 10, sc.pick(10, 40, 200))],
       bounds="up to 40 (thorough: 200) patterns of 16 and 32 steps")
def wide(ctx, case):
    n, order, count = case
    seqs = [tuple(STEPS[((i * 7 + k * 3 + (i * k) // 5) % 11) % 4] for i in range(n)) for k in range(count)]
    chain = style(order, n, 4)
    learn(ctx, chain, [steps_to_pattern(s, 4) for s in seqs])
    same_table(chain, model(seqs, order), "%d patterns of %d steps" % (count, n))


@suite("corpus", lambda sc: [(o, n) for o in (1, 2) for n in sc.pick((16,), (16, 32), (8, 16, 32, 64))],
       bounds="the drum corpus, cut in bars")
def from_corpus(ctx, case):
    from gsapi import gsdefs
    order, n = case
    patterns = []
    for f in corpus("drums", "*.mid"):
        p = gsio.fromMidiFile(f, dict(gsdefs.simpleDrumMap))
        patterns += p.splitInEqualLengthPatterns(4)
    seqs, chosen = [], []
    for p in patterns:
        steps = [set() for _ in range(n)]
        places = [e.startTime * n / 4.0 for e in p.events]
        if any(abs(x - int(x) - 0.5) < 1e-6 for x in places):
            continue   # half way between two steps
        for e, x in zip(p.events, places):
            if int(x + 0.5) < n:
                steps[int(x + 0.5)].add(e.tag)
        chosen.append(p)
        seqs.append(tuple(frozenset(s) if s else SILENCE for s in steps))
    patterns = chosen
    if not patterns:
        return
    chain = style(order, n, 4)
    learn(ctx, chain, patterns)
    same_table(chain, model(seqs, order), "the drum corpus, order %d, %d steps" % case)


ODD = (None, "", (), 0, 1, "1", "None", 2.5, ("a", "b"), "('a', 'b')", ("b", "a"), "a", "silenced", ("silence", "k"), "snare drum left", "snare drum right",
       "snare drum", u"\u00e9", False or "0", ("k",), "k")


@suite("odd tags", lambda sc: [(i, j, order) for i in range(len(ODD)) for j in range(1, sc.pick(4, len(ODD), len(ODD))) for order in (0, 1, 2)
                               if (i + j + order) % sc.pick(5, 2, 1) == 0],
       bounds="pairs of 21 tags: empty ones, of other types, long, and alike when printed, alone and together in either order")
def odd_tags(ctx, case):
    i, j, order = case
    a, b = ODD[i], ODD[(i + j) % len(ODD)]
    if a == b and hash(a) == hash(b):
        return
    seqs = [(frozenset([a, b]), SILENCE, frozenset([a])), (frozenset([a, b]), frozenset([b]), frozenset([a])),
            (frozenset([b]), SILENCE, frozenset([a, b, "x"])), (frozenset([a]), frozenset([b]), frozenset([a, b]))]
    for turn in (0, 1):
        chain = style(order, 3, 1.5)
        learn(ctx, chain, [steps_to_pattern(s, 1.5, reverse=(k + turn) % 2) for k, s in enumerate(seqs)])
        same_table(chain, model(seqs, order), "order %d, tags %r and %r" % (order, a, b))


@suite("high orders", lambda sc: [(order, n, k) for n in (6, 8, 9) for order in range(3, n) for k in range(sc.pick(1, 4, 20))],
       bounds="orders 3..8 on 6..9 steps")
def high_orders(ctx, case):
    order, n, k = case
    seqs = [tuple(STEPS[((i * 5 + c * (3 + k)) * (i + c + k) % 13) % 4] for i in range(n)) for c in range(4)]
    chain = style(order, n, n / 2.0)
    learn(ctx, chain, [steps_to_pattern(s, n / 2.0) for s in seqs])
    same_table(chain, model(seqs, order), "%d steps, order %d" % (n, order))


@suite("rare", lambda sc: [(n, k) for n in (33, 100, 257, sc.pick(300, 1000, 5000)) for k in range(3)],
       bounds="a step that comes once in up to 1000 (thorough: 5000) equal patterns")
def rare(ctx, case):
    n, k = case
    seqs = [(STEPS[1], STEPS[1])] * (n - 1)
    seqs.insert((0, n // 2, n - 1)[k], (STEPS[1], STEPS[2]))
    ps = [steps_to_pattern(s, 2) for s in seqs]
    for order in (0, 1):
        chain = style(order, 2, 2)
        learn(ctx, chain, ps)
        same_table(chain, model(seqs, order), "one of %d patterns is different" % n)


def alike(k):
    """two tags that differ, but are alike when printed, or for a long time"""
    return [(k, str(k)), ((k, "a"), str((k, "a"))), ("snare drum left %d" % k, "snare drum right %d" % k), ("%d" % k, " %d" % k)]


@suite("alike", lambda sc: [(k, order) for k in range(sc.pick(24, 64, 200)) for order in (1, 2)],
       bounds="steps of two or three tags which are alike when printed, met in each order")
def alike_tags(ctx, case):
    k, order = case
    for a, b in alike(k):
        seqs = [(frozenset([a, b]), SILENCE, frozenset([a])), (frozenset([a, b]), frozenset([b]), frozenset([a])),
                (frozenset([a, b]), SILENCE, frozenset([a, b, "x"])), (frozenset([a, b]), SILENCE, frozenset([a, b]))]
        for turn in (0, 1):
            chain = style(order, 3, 1.5)
            pats = []
            for i, s in enumerate(seqs):
                pat = steps_to_pattern(s, 1.5)
                x, y = (a, b) if (i + turn) % 2 else (b, a)
                rank = {x: 0, y: 1}
                pat.events.sort(key=lambda e: (e.startTime, rank.get(e.tag, 2)))
                pats.append(pat)
            learn(ctx, chain, pats)
            same_table(chain, model(seqs, order), "order %d, tags %r and %r" % (order, a, b))


def readable(state, reduced):
    """a state as the string table names it"""
    if not isinstance(state, tuple):
        return state
    res = tuple(readable(x, reduced) for x in state)
    return res[0] if reduced and len(res) == 1 else res


@suite("questions", lambda sc: product((1, 2, 3), range(sc.pick(6, 40, 300))), bounds="what a learnt chain answers about its states: at every step, also from the end and beyond, over all, as text and as matrices over given states")
def questions(ctx, case):
    order, k = case
    n = 3 + k % 3
    seqs = [tuple(STEPS[(k * (i + 1) + i * j * (k % 5 + 1) + (j * j) % 3) % 4] for i in range(n)) for j in range(1 + k % 4)]
    chain = style(order, n, n)
    learn(ctx, chain, [steps_to_pattern(c, n) for c in seqs])
    want = model(seqs, order)

    def histories(states):
        return sorted(sorted(map(sorted, x)) for x in states)
    for step in range(-n, 3 * n):
        w = want[step % n]
        ins, outs = chain.getPossibleInStatesAtStep(step), chain.getPossibleOutStatesAtStep(step)
        same(len(ins), len(set(ins)), "histories at step %d: a history twice" % step)
        same({tuple(frozenset(x) for x in past) for past in ins}, set(w), "histories at step %d" % step)
        same(len(outs), len(set(outs)), "states at step %d: a state twice" % step)
        same({frozenset(x) for x in outs}, {s for d in w.values() for s in d}, "states at step %d" % step)
        both = chain.getAllPossibleStatesAtStep(step)
        same((len(both), set(both)), (len(set(ins) | set(outs)), set(ins) | set(outs)), "histories and states at step %d" % step)
        ctx.op(3)
        if step >= n:
            continue
        for given_in, given_out in ((ins[::-1], outs[::-1]), (list(ins) + [("none",)], ["none"] + list(outs))):
            filled = [[j * 10 + i for i in range(len(given_out))] for j in range(len(given_in))]
            for start in (None, filled):
                base = [[0] * len(given_out) for _ in given_in] if start is None else [list(r) for r in start]
                matrix, a, b = chain.getMatrixAtStep(step, given_in, given_out, start)
                same((list(a), list(b)), (given_in, given_out), "the states of the matrix")
                for j, past in enumerate(given_in):
                    row = w.get(tuple(frozenset(x) for x in past), {})
                    for i, s in enumerate(given_out):
                        p = float(row.get(frozenset(s), 0)) if past != ("none",) and s != "none" else 0
                        check(near(matrix[j][i] - base[j][i], p, 1e-9), "step %d: %r after %r has probability %r in the matrix instead of %r", step, s, past, matrix[j][i] - base[j][i], p)
                ctx.op()
    every = chain.getAllPossibleStates()
    found = set()
    for t in chain.transitionTable:
        found |= set(t)
        for row in t.values():
            found |= set(row)
    same((len(every), set(every)), (len(found), found), "all states")
    for reduced in (True, False):
        for text in (True, False):
            table = chain.getStringTransitionTable(reduced, text)
            same(len(table), n, "steps of the table of texts")
            for t, real in zip(table, chain.transitionTable):
                t = json.loads(t) if text else t
                names = {str(readable(past, reduced)): {str(readable(s, reduced)): p for s, p in row.items()} for past, row in real.items()}
                same(set(t), set(names), "histories as texts (reduced: %r)" % reduced)
                for past in names:
                    check(set(t[past]) == set(names[past]) and all(near(t[past][s], names[past][s], 1e-9) for s in names[past]), "as texts (reduced: %r), after %r: %r instead of %r",
                          reduced, past, t[past], names[past])
            ctx.op()
    lines = repr(chain).split("\n")
    same([x for x in lines if x.startswith("step ")], ["step %d" % i for i in range(n)], "steps in the text")
    same_table(chain, want, "the chain, after all questions")


@suite("defaults", lambda sc: [(k,) for k in range(sc.pick(2, 6, 24))], bounds="styles and chains made without arguments: of order 2 and 1, 16 and 32 steps, in 4 beats")
def defaults(ctx, case):
    k = case[0]
    for n, order, make in ((16, 2, lambda: gsstyles.MarkovStyle().markovChain), (32, 1, gsstyles.PatternMarkov)):
        seqs = [tuple(STEPS[(i * (k + 1) + i * i // (j + 2)) % 4] for i in range(n)) for j in range(3)]
        chain = make()
        learn(ctx, chain, [steps_to_pattern(c, 4) for c in seqs])
        same_table(chain, model(seqs, order), "defaults of order %d" % order)


class Canvas(object):
    """stands for a plotting library; keeps the matrices and labels it is given"""

    def __init__(self):
        self.matrices, self.labels = [], {}

    def matshow(self, m, *args, **kw):
        self.matrices.append([list(r) for r in m])

    imshow = matshow

    def set_xticklabels(self, labels, *args, **kw):
        self.labels["x"] = list(labels)

    def set_yticklabels(self, labels, *args, **kw):
        self.labels["y"] = list(labels)

    def subplots(self, *args, **kw):
        return self, self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kw: self

    cm = OrRd = property(lambda self: Shade())


class Shade(object):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Shade()

    def __call__(self, *args, **kw):
        return self


def plotted(run):
    """what a call plots"""
    canvas = Canvas()
    module, plt = types.ModuleType(str("matplotlib")), types.ModuleType(str("matplotlib.pyplot"))
    for name in ("subplots", "matshow", "imshow", "figure", "show", "colorbar", "cm", "xticks", "yticks", "set_cmap", "get_cmap", "close", "axes", "gca", "gcf"):
        setattr(plt, name, getattr(canvas, name))
    module.pyplot = plt
    kept = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "matplotlib"}
    for k in kept:
        del sys.modules[k]
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = module, plt
    try:
        run()
    finally:
        for k in [k for k in sys.modules if k.split(".")[0] == "matplotlib"]:
            del sys.modules[k]
        sys.modules.update(kept)
    return canvas


@suite("plots", lambda sc: product((0, 1, 2), range(sc.pick(4, 30, 200))), bounds="what a learnt chain plots, at every step (also from the end) and over all steps")
def plots(ctx, case):
    order, k = case
    n = 3 + k % 3
    seqs = [tuple(STEPS[(k * (i + 1) + i * j * (k % 5 + 1) + (j * j) % 3) % 4] for i in range(n)) for j in range(1 + k % 4)]
    chain = style(order, n, n)
    learn(ctx, chain, [steps_to_pattern(c, n) for c in seqs])
    want = model(seqs, order)
    for step in list(range(-n, n)) + ["all"]:
        canvas = plotted(chain.plotGlobalMatrix if step == "all" else lambda: chain.plotMatrixAtStep(step))
        ctx.op()
        tables = want if step == "all" else [want[step]]
        total = {}
        for t in tables:
            for past, row in t.items():
                for s, pr in row.items():
                    total[past, s] = total.get((past, s), 0) + float(pr)
        if len(canvas.matrices) != 1 or set(canvas.labels) != {"x", "y"}:
            continue   # drawn in another way
        ins = [tuple(frozenset(x) for x in past) for past in canvas.labels["y"]]
        outs = [frozenset(s) for s in canvas.labels["x"]]
        same((len(ins), set(ins)), (len(set(ins)), {a for a, _ in total}), "step %r: rows" % step)
        same((len(outs), set(outs)), (len(set(outs)), {b for _, b in total}), "step %r: columns" % step)
        m = canvas.matrices[0]
        for j, a in enumerate(ins):
            for i, b in enumerate(outs):
                check(near(m[j][i], total.get((a, b), 0), 1e-9), "step %r: plots %r for %r after %r instead of %r", step, m[j][i], b, a, total.get((a, b), 0))
    same_table(chain, want, "the chain, after all plots")


@suite("chords", lambda sc: [(m, k, order) for m in (4, 6, 9, 14, sc.pick(20, 40, 90)) for k in range(sc.pick(2, 4, 12)) for order in (1, 2)],
       bounds="steps of 4..40 (thorough: 90) simultaneous tags with equal beginnings, in several orders")
def chords(ctx, case):
    m, k, order = case
    tags = [("t%d" % i, "snare drum %d" % i, ("t", i), i)[k % 4 if (i + k) % 5 else (i + k) % 4] for i in range(m)]
    whole, less, other = frozenset(tags), frozenset(tags[1:]), frozenset(tags[:-1])
    seqs = [(whole, less, other), (whole, less, whole), (other, less, whole), (whole, other, less)]
    chain = style(order, 3, 1.5)
    pats = []
    for i, s in enumerate(seqs):
        pat = steps_to_pattern(s, 1.5, reverse=bool(i % 2))
        turn = (i * 3 + k) % len(pat.events)
        pat.events = pat.events[turn:] + pat.events[:turn]
        pats.append(pat)
    learn(ctx, chain, pats)
    same_table(chain, model(seqs, order), "order %d, steps of %d tags" % (order, m))
