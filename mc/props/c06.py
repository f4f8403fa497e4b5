# -*- coding: utf-8 -*-
"""C06 aligning on a grid gives step sequences: one event per tag and step"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, product, same, sequences, suite
from lib import VARIED, bag, corpus, evs, kinds, ladder, pattern, same_bag, varied, varied_pattern

KINDS = kinds((0, 0.25, 0.75, 1.5, 2.75), (0.25, 1, 2.5), ((60, "k"), (0, "silence"), (62, ("a", "b"))))


def check_align(ctx, events, duration, step, *args):
    check_pattern(ctx, pattern(events, duration, name="p"), step, *args)


def check_pattern(ctx, p, step, *args):
    ops.step(p, ("alignOnGrid", step) + args)
    once = evs(p)
    ops.step(p, ("alignOnGrid", step) + args)
    same_bag(evs(p), once, "aligning %r again on %r" % (once, step), 1e-7)
    ctx.op(2)


@suite("small", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 2)),
       bounds="all sequences of 0..2 events of 45 kinds, 4 steps, default and given repeatable tags")
def small(ctx, case):
    for step in (0.25, 0.5, 1, 2):
        check_align(ctx, case, 3, step)
    check_align(ctx, case, 3, 0.5, ("k",))
    check_align(ctx, case, 3, 1, (("a", "b"), "silence"))
    check_align(ctx, case, 3, 1, ())


@suite("three", lambda sc: sequences(kinds((0, 0.5, 1.75), (0.5, 2), ((60, "k"), (0, "silence"))), 3, 3)
       if sc.level else sequences(kinds((0, 1.75), (0.5, 2), ((60, "k"),)), 3, 3),
       bounds="all sequences of 3 events of 12 kinds")
def three(ctx, case):
    for step in (0.5, 1):
        check_align(ctx, case, 3, step)


def gen_half(sc):
    for i in range(sc.pick(16, 80, 320)):
        for step in (0.25, 0.5, 1, 1.5, 3):
            yield (i / 8.0, step)


@suite("half", gen_half, bounds="every start in eighths of a beat, half steps going up; cut silences of 0..9 steps")
def half(ctx, case):
    start, step = case
    for dur in (0.125, 1, 4.5):
        for tag in ("k", "silence"):
            check_align(ctx, [(start, dur, 60, 80, tag)], start + 10, step)
            check_align(ctx, [(start, dur, 60, 80, tag)], start, step)
            check_align(ctx, [(start, dur, 60, 80, tag)], start + 0.5, step)


def gen_wide(sc):
    for n in (5, 20, 60) + ((200,) if sc.level else ()):
        for step in (0.25, 0.5, 1, 0.1, 1 / 3.0, 0.7):
            for dur in (0.3, 2.2):
                yield (n, step, dur)


@suite("wide", gen_wide, bounds="regular patterns of up to 200 events, steps that are not exact in binary")
def wide(ctx, case):
    n, step, dur = case
    events = [(t[0] + 0.03,) + t[1:] for t in ladder(n, step=0.6171875, dur=dur, tags=("k", "s", "silence"))]
    # silences cut in a number of steps that does not hang on a rounding
    p = pattern(events, n * 0.6171875, name="p")
    ops.step(p, ("alignOnGrid", step))
    ctx.op()
    p = pattern(events[::-1], n * 0.6171875, name="p")
    ops.step(p, ("alignOnGrid", step, ("k", "s")))
    ctx.op()


@suite("default", lambda sc: [(i,) for i in range(3)],
       bounds="the default of the repeatable tags is the same at each call")
def default(ctx, case):
    events = [(0, 2, 60, 80, "k"), (0, 2, 0, 0, "silence")]
    for i in range(3):
        check_align(ctx, events, 2, 1)
        check_align(ctx, events, 2, 1, ("k",))
        check_align(ctx, events, 2, 1)


@suite("corpus", lambda sc: (corpus("drums", "*.mid"))[:sc.pick(1, 4, 40)], bounds="files of the drum corpus")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case)
    for step in (0.25, 0.5):
        check_align(ctx, evs(p)[:200], p.duration, step)


@suite("varied", varied, bounds=VARIED + ", steps of 0.25 and 0.5, repeatable tags of several types")
def of_the_family(ctx, case):
    for step, args in ((0.25, ()), (0.5, (("k", "tag3", ("a", "b"), 1, None),)), (0.5, (["silence", "s", ""],))):
        check_pattern(ctx, varied_pattern(case, 0), step, *args)
