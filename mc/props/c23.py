# -*- coding: utf-8 -*-
"""C23 Markov generation follows the learnt model exactly"""
from __future__ import absolute_import, division, print_function

import itertools
import random

import choices
from core import check, fail, product, same, sequences, suite
from lib import evs, meta, near, snap
from markov import SILENCE, generated, grid_of, learnt, model, steps_of, steps_to_pattern
from gsapi import gsstyles

STEPS = [SILENCE, frozenset(["k"]), frozenset(["s"]), frozenset(["k", "s"])]


def make(seqs, order, loop, patterns=None):
    s = gsstyles.MarkovStyle(order=order, numSteps=len(seqs[0]), loopDuration=loop)
    s.generateStyle(patterns or [steps_to_pattern(x, loop) for x in seqs])
    return s


def show(x):
    return [sorted(map(str, tags)) for tags in x]


def check_style(ctx, s, seqs, order, loop, what):
    n = len(seqs[0])
    table = model(seqs, order)
    grid = grid_of(table)
    want = generated(table, order)
    got, runs = {}, 0
    for p, weight, seeds in choices.explore(lambda: s.generatePattern(), grid=grid, limit=200000):
        check(all(x is None for x in seeds), "%s: without a seed, the choices are those of the seed %r", what, seeds)
        steps = steps_of(p, n, loop)
        check(isinstance(steps, tuple), "%s: a generated pattern has %s", what, steps)
        got[steps] = got.get(steps, 0) + weight
        runs += 1
    ctx.visited(runs, n * runs, runs)
    for p, _, _ in itertools.islice(choices.explore(lambda: s.generatePattern(), grid=grid, shift=0), 32):
        got.setdefault(steps_of(p, n, loop), 0)
    unknown = [x for x in got if x not in want]
    check(not unknown, "%s: generates %r, which is not in the model", what, [show(x) for x in unknown[:1]])
    missing = [x for x in want if x not in got]
    check(not missing, "%s: never generates %r", what, [show(x) for x in missing[:1]])
    starts = {}
    for x in got:
        starts[x[:order]] = starts.get(x[:order], 0) + got[x]
    check(sum(starts.values()) == 1, "%s: probabilities add up to %r", what, sum(starts.values()))
    for x in want:
        p = got[x] / starts[x[:order]]
        check(near(float(p), float(want[x]), 1e-6), "%s: %r has probability %s instead of %s", what,
              show(x), p, want[x])


def gen_small(sc):
    kinds = list(range(4))
    seqs = list(product(kinds, kinds, kinds))
    for i, (a, b) in enumerate(product(seqs, seqs)):
        if i % sc.pick(61, 5, 1) == 0:
            yield (a, b)
    for i, (a, b, c) in enumerate(product(seqs, seqs, seqs)):
        if i % sc.pick(20011, 1009, 101) == 0:
            yield (a, b, c)


@suite("small", gen_small,
       bounds="every fifth pair (thorough: all) of the 64 patterns of 3 steps, a comb of triples; orders 0..2; all random choices")
def small(ctx, case):
    seqs = [tuple(STEPS[k] for k in c) for c in case]
    for order in (0, 1, 2):
        s = make(seqs, order, 3)
        check_style(ctx, s, seqs, order, 3, "order %d, patterns %r" % (order, seqs))


def gen_long(sc):
    for count in (1, 2, 3, 4, 6):
        for n in (2, 4, 5):
            for order in (0, 1, 2, 3):
                if order < n and (count < 4 or n - order < 3) and (sc.level or (count + n) % 2) and (order or n < 5):
                    for k in range(sc.pick(1, 3, 12)):
                        yield (count, n, order, k)


@suite("long", gen_long, bounds="up to 6 patterns of 2..5 steps, orders 0..3, all random choices, loops of other lengths")
def long_ones(ctx, case):
    count, n, order, k = case
    if order == 0 and count > 3:
        count = 2
    kinds = 2 if n > 4 or order == 0 else 4
    seqs = [tuple(STEPS[((i * 7 + c * 3 + k * i * i + (i * c) // 2 + k) % 11) % kinds] for i in range(n)) for c in range(count)]
    loop = (4, 2, 3, 1)[(k + n) % 4]
    if (n, loop) in ((5, 3), (5, 2), (5, 1), (5, 4)):
        loop = 5
    s = make(seqs, order, loop)
    check_style(ctx, s, seqs, order, loop, "order %d, %d patterns of %d steps" % (order, count, n))


@suite("weights", lambda sc: [(a, b) for a in range(1, sc.pick(3, 6, 8)) for b in range(0, sc.pick(3, 6, 8))],
       bounds="one choice between three steps learnt 1..5, 0..5 and 2 times")
def weights(ctx, case):
    a, b = case
    seqs = [(STEPS[0], STEPS[1])] * a + [(STEPS[0], STEPS[2])] * b + [(STEPS[0], STEPS[3])] * 2
    for order in (0, 1):
        for k in range(3):
            seqs = seqs[1:] + seqs[:1]
            check_style(ctx, make(seqs, order, 2), seqs, order, 2, "steps learnt %d, %d and 2 times" % case)


@suite("many", lambda sc: [(n, order, twice) for n in range(3, sc.pick(5, 10, 24)) for order in (0, 1, 2, 3) for twice in (0, 1, n - 1)],
       bounds="choices between 3..9 (thorough: 23) steps, as the beginning and as the continuation, one of them twice as likely")
def many(ctx, case):
    n, order, twice = case
    steps = [frozenset(["t%d" % i, "k"][:1 + i % 2]) for i in range(n)]
    if order:
        seqs = [(SILENCE,) * order + (x,) for x in steps]
        seqs.append(seqs[twice])
        check_style(ctx, make(seqs, order, order + 1), seqs, order, order + 1, "order %d, %d continuations" % (order, n))
    seqs = [(x,) * max(1, order) + (steps[0],) for x in steps] + [(steps[twice],) * max(1, order) + (steps[0],)]
    check_style(ctx, make(seqs, order, 4), seqs, order, 4, "order %d, %d beginnings" % (order, n))


@suite("histories", lambda sc: sequences(range(4), 1, sc.pick(2, 3, 4)),
       bounds="all histories of 1..3 (thorough: 4) lessons and generations on one style")
def histories(ctx, case):
    lessons = [[(1, 0, 1)], [(1, 0, 2), (1, 2, 3)], [(0, 0, 0), (1, 1, 0), (2, 1, 3)]]
    s, last, own = gsstyles.MarkovStyle(order=1, numSteps=3, loopDuration=3), None, []
    for k in case:
        if k < 3:
            last = [tuple(STEPS[x] for x in c) for c in lessons[k]]
            s.generateStyle([steps_to_pattern(c, 3) for c in last])
        elif last:
            p = s.generatePattern(3)
            p.events = p.events[1:]    # what is generated belongs to the caller
            for e in p.events:
                e.tag, e.startTime = "other", 99
            p.duration = 77
        ctx.op()
        if last:
            check_style(ctx, s, last, 1, 3, "the history %r" % (case,))


def play(s, seed):
    p = s.generatePattern(seed)
    return evs(p), meta(p)


@suite("seeds", lambda sc: [(i, order) for i in range(sc.pick(4, 20, 100)) for order in (0, 1, 2)],
       bounds="equal seeds give equal patterns, in any order and by another style that learnt the same")
def seeds(ctx, case):
    i, order = case
    n = 8
    seqs = [tuple(STEPS[((x * 5 + c * 3 + i) * (x + c) % 13) % 4] for x in range(n)) for c in range(4)]
    a, b = make(seqs, order, 4), make(seqs, order, 4)
    want = generated(model(seqs, order), order)
    values = [0, 1, 2, 7, 1234, i]
    first = {x: play(a, x) for x in values}
    for x in reversed(values):
        random.random()
        same(play(a, x), first[x], "seed %r again" % x)
        random.seed(5)
        same(play(b, x), first[x], "seed %r, another style" % x)
        same(play(a, x), play(a, x), "seed %r twice" % x)
        ctx.op(4)
        steps = steps_of(a.generatePattern(x), n, 4)
        check(steps in want, "seed %r: %r is not in the model", x, steps)
    for _ in range(3):
        steps = steps_of(a.generatePattern(), n, 4)
        check(steps in want, "without a seed: %r is not in the model", steps)
        ctx.op()


def gen_wide(sc):
    for n in (16, 32):
        for order in (0, 1, 2, 3):
            for rule in ("first", "last", 1, 2, 3, 5, 7):
                for count in (1, 3, 12):
                    yield (n, order, rule, count)


@suite("wide", gen_wide, bounds="16 and 32 steps, up to 12 patterns: first, last and rotating choices; every transition was learnt")
def wide(ctx, case):
    n, order, rule, count = case
    seqs = [tuple(STEPS[((x * 5 + c * 3) * (x + c) % 13) % 4] for x in range(n)) for c in range(count)]
    s = make(seqs, order, 4)
    table = model(seqs, order)
    with choices.controlled(choices.Fixed(rule, 24)):
        for _ in range(3):
            steps = steps_of(s.generatePattern(), n, 4)
            ctx.op(n)
            check(isinstance(steps, tuple), "a generated pattern has %s", steps)
            check(order >= n or steps[:order] in table[order], "begins with %r", steps[:order])
            for i in range(order, n):
                past = steps[i - order:i]
                check(steps[i] in table[i].get(past, {}), "%r does not follow %r at %d", steps[i], past, i)


@suite("tags", lambda sc: [(i,) for i in range(8)], bounds="tags of any type")
def tags(ctx, case):
    kinds = [[SILENCE, frozenset([("a", "b")]), frozenset(["a", ("a", "b")])], [SILENCE, frozenset([1]), frozenset([1, "1"])],
             [frozenset(["sil"]), frozenset(["kick", "k"]), frozenset(["ck"])], [SILENCE, SILENCE, frozenset(["x"])],
             [SILENCE, frozenset([()]), frozenset([None])], [frozenset([""]), frozenset([0]), frozenset([0, None])],
             [SILENCE, frozenset(["silenced"]), frozenset([("silence", "x")])], [frozenset(["a" * 40 + "b"]), frozenset(["a" * 40 + "c"]), SILENCE]][case[0]]
    seqs = [(kinds[0], kinds[1], kinds[2]), (kinds[1], kinds[1], kinds[0]), (kinds[2], kinds[1], kinds[1])]
    for order, loop in ((0, 3), (1, 0.75), (2, 1.5)):
        check_style(ctx, make(seqs, order, loop), seqs, order, loop, "order %d, patterns %r" % (order, seqs))


@suite("rare", lambda sc: [(n, order, k) for n in (sc.pick(40, 130, 400), sc.pick(90, 260, 1100)) for order in (0, 1) for k in range(3)],
       bounds="a step that follows once in up to 260 (thorough: 1100) times, and as many beginnings")
def rare(ctx, case):
    n, order, k = case
    seqs = [(STEPS[1], STEPS[1])] * (n - 1)
    seqs.insert((0, n // 2, n - 1)[k], (STEPS[1], STEPS[2]))
    if order:
        check_style(ctx, make(seqs, order, 0.5), seqs, order, 0.5, "once in %d times" % n)
    seqs = [(frozenset([i]), STEPS[i % 4]) for i in range(n)]
    if order:
        check_style(ctx, make(seqs, order, 2), seqs, order, 2, "%d beginnings" % n)


@suite("wide choices", lambda sc: [(n, k) for n in (20, 33, 70, sc.pick(70, 130, 500)) for k in range(3)],
       bounds="choices between 20..130 (thorough: 500) different steps after one history")
def wide_choices(ctx, case):
    n, k = case
    seqs = [(STEPS[1], frozenset(["x%d" % i]), STEPS[i % 2]) for i in range(n)]
    seqs.append(seqs[(0, n // 2, n - 1)[k]])
    check_style(ctx, make(seqs, 1, 3), seqs, 1, 3, "%d choices" % n)


@suite("short loops", lambda sc: product((3, 7, 16, 32), (0.125, 0.5, 1 / 3.0, 2.75, 10 / 3.0, 100.5)),
       bounds="steps of a 256th of a beat to 33 beats, loops that are not whole beats")
def short_loops(ctx, case):
    n, loop = case
    seqs = [tuple(STEPS[((x * 5 + c * 3) * (x + c) % 13) % 4] for x in range(n)) for c in range(3)]
    table = model(seqs, 2)
    s = make(seqs, 2, loop)
    with choices.controlled(choices.Fixed(3, 24)):
        for _ in range(3):
            steps = steps_of(s.generatePattern(), n, loop)
            ctx.op(n)
            check(isinstance(steps, tuple), "%d steps of a loop of %r: a generated pattern has %s", n, loop, steps)
            for i in range(2, n):
                check(steps[i] in table[i].get(steps[i - 2:i], {}), "%r does not follow at %d", steps[i], i)
