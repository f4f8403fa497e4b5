# -*- coding: utf-8 -*-
"""C05 quantizing moves each time to the nearest step, and nothing else"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, product, same, sequences, suite
from lib import EPS, VARIED, bag, corpus, evs, ladder, near, pattern, same_bag, varied, varied_pattern

STEPS = (0.25, 0.5, 1, 1.5, 4)
INEXACT = (0.1, 0.2, 1 / 3.0, 0.7, 1.1)
FLAGS = ((), (True, True), (True, False), (False, True), (False, False))


def check_quantize(ctx, events, step, flags):
    check_pattern(ctx, pattern(events, 20, name="p"), step, flags)


def check_pattern(ctx, p, step, flags):
    ops.step(p, ("quantize", step) + flags)
    once = evs(p)
    ops.step(p, ("quantize", step) + flags)
    same_bag(evs(p), once, "quantizing %r again by %r" % (once, step), EPS)
    ctx.op(2)


def gen_grid(sc):
    for i in range(0, sc.pick(40, 160, 640)):
        for j in range(1, sc.pick(8, 40, 80)):
            yield (i / 16.0, j / 16.0)


@suite("grid", gen_grid,
       bounds="an event of every start of 0..40 and duration of 0..5 in sixteenths of a beat, 5 steps, all flags")
def grid(ctx, case):
    for step, flags in product(STEPS, FLAGS):
        check_quantize(ctx, [(case[0], case[1], 60, 80, "k")], step, flags)


def gen_inexact(sc):
    for i in range(0, sc.pick(30, 200, 1000)):
        for f in (0.013, 0.1, 0.17, 1 / 3.0, 0.49, 0.51, 0.9):
            yield (i, f)


@suite("inexact", gen_inexact, bounds="times and steps that are not exact in binary, on, near and off the grid")
def inexact(ctx, case):
    i, f = case
    for step in INEXACT + STEPS:
        events = [(i * f, f, 60, 80, "k"), (i * step, step * (1 + i % 5), 60, 80, "k"),
                  ((i + f) * step, (i + f) * step, 61, 81, "s")]
        for flags in FLAGS[:3]:
            check_quantize(ctx, events, step, flags)


@suite("default", lambda sc: [(i / 32.0,) for i in range(sc.pick(40, 160, 320))],
       bounds="the default step, a quarter of a beat; times before zero")
def default(ctx, case):
    for events in ([(case[0], 0.5, 60, 80, "k")], [(-case[0], 0.5, 60, 80, "k")], [(1, case[0], 60, 80, "k")]):
        if events[0][1] > 0:
            p = pattern(events, 20)
            ops.step(p, ("quantize",))
            ctx.op()


@suite("many", lambda sc: sequences(((0.3, 0.1), (0.5, 0.5), (0.5, 1.5), (1.25, 0.2), (2, 2.75)), 0, sc.pick(2, 3, 4)),
       bounds="all sequences of 0..3 (thorough: 4) events of 5 kinds, with distinct pitches")
def many(ctx, case):
    events = [(s, d, 60 + i, 10 + i, "t%d" % (i % 2)) for i, (s, d) in enumerate(case)]
    for step, flags in product((0.5, 1), FLAGS):
        check_quantize(ctx, events, step, flags)


@suite("wide", lambda sc: [(n, step) for n in (10, 50, 200) for step in STEPS],
       bounds="regular patterns of up to 200 events")
def wide(ctx, case):
    check_quantize(ctx, ladder(case[0], step=0.3125, dur=0.6875), case[1], ())


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(2, 6, 40)],
       bounds="files of the drum and harmony corpora")
def from_corpus(ctx, case):
    from gsapi import gsio
    events = evs(gsio.fromMidiFile(case))[:200]
    for step in (0.25, 1 / 3.0):
        check_quantize(ctx, events, step, ())


@suite("varied", varied, bounds=VARIED + ", steps of 0.25, 1/3 and 1.5, starts, durations or both")
def of_the_family(ctx, case):
    for step, flags in ((0.25, ()), (1 / 3.0, (True, False)), (1.5, (False, True))):
        check_pattern(ctx, varied_pattern(case, 1), step, flags)


@suite("steps", lambda sc: product(range(-10, 7), range(0, sc.pick(9, 33, 97))), bounds="steps of 2^-10 to 64 beats: an event of every start and duration of up to 4 (thorough: 12) steps in eighths of one")
def steps(ctx, case):
    power, i = case
    step = 2.0 ** power
    for k in (1, 3, 4, 5, 8, 12):
        for flags in FLAGS[:4]:
            check_quantize(ctx, [(i * step / 8, k * step / 8, 60, 80, "k"), ((i + 9) * step / 8, (k + 1) * step / 8, 62, 80, "s")], step, flags)
    for odd in (0.03, 3e-3, 1 / 7.0, 11.3):
        check_quantize(ctx, [(i * odd * step / 8, 0.3 * odd * step, 60, 80, "k"), ((i + 9) * odd * step / 8.1, odd * step, 62, 80, "s")], step * odd, ())
