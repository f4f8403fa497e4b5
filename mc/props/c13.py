# -*- coding: utf-8 -*-
"""C13 stretching and transposing scale and shift everything alike"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, product, same, sequences, suite
from lib import (EPS, VARIED, bag, corpus, evs, kinds, ladder, meta, near, pattern, same_bag, snap, varied,
                 varied_pattern)

KINDS = kinds((0, 0.5, 3), (0.25, 1, 2), ((60, "k"), (11, ("a", "b"), 1)))
RATIOS = (0.25, 0.5, 1, 2, 3, 4 / 3.0, 0.1)
INTERVALS = (-11, -1, 0, 1, 7, 12, 19)


@suite("stretch", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 2)),
       bounds="all sequences of 0..2 events of 18 kinds, all pairs of 7 ratios")
def stretch(ctx, case):
    for a, b in product(RATIOS, RATIOS):
        p = pattern(case, 4.5, name="p", bpm=99.5, startTime=2)
        ids = [id(e) for e in p.events]
        ops.step(p, ("timeStretch", a))
        ops.step(p, ("timeStretch", b))
        ctx.op(2)
        same([id(e) for e in p.events], ids, "timeStretch: other events or order")
        same_bag(evs(p), [(t[0] * a * b, t[1] * a * b) + t[2:] for t in case], "ratios %r and %r" % (a, b), EPS)
        check(near(p.duration, 4.5 * a * b), "duration %r", p.duration)
        ops.step(p, ("timeStretch", 1.0 / (a * b)))
        ctx.op()
        same_bag(evs(p), case, "ratios %r, %r and back" % (a, b), EPS)


@suite("transpose", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 2)),
       bounds="all sequences of 0..2 events of 18 kinds, all pairs of 7 intervals that stay in the MIDI range")
def transpose(ctx, case):
    for a, b in product(INTERVALS, INTERVALS):
        if any(t[2] + a < 0 or t[2] + a + b < 0 for t in case):
            continue
        p = pattern(case, 4.5, name="p", bpm=99.5, startTime=2)
        ids = [id(e) for e in p.events]
        ops.step(p, ("transpose", a))
        ops.step(p, ("transpose", b))
        ctx.op(2)
        same([id(e) for e in p.events], ids, "transpose: other events or order")
        same([t[2] for t in evs(p)], [t[2] + a + b for t in case], "pitches")
        q = pattern(case, 4.5, name="p", bpm=99.5, startTime=2)
        ops.step(q, ("transpose", a + b))
        same(snap(p), snap(q), "transpose by %r and %r" % (a, b))
        ops.step(p, ("transpose", -(a + b)))
        same([t[:4] for t in evs(p)], [t[:4] for t in case], "transposed back")
        ctx.op(2)
        for e in p.events:
            hash(e.tag)


@suite("range", lambda sc: [(pitch,) for pitch in range(128)], bounds="every pitch of MIDI to every other")
def full_range(ctx, case):
    for target in range(128):
        p = pattern([(0, 1, case[0], 80, "k")], 1)
        ops.step(p, ("transpose", target - case[0]))
        ctx.op()


@suite("wide", lambda sc: [(n, r) for n in (5, 40, 150) for r in RATIOS], bounds="regular patterns of up to 150 events")
def wide(ctx, case):
    n, ratio = case
    p = pattern(ladder(n), n)
    ops.step(p, ("timeStretch", ratio))
    ops.step(p, ("transpose", n % 12 - 5))
    ctx.op(2)


@suite("corpus", lambda sc: corpus("harmony", "*.mid")[:sc.pick(2, 4, 40)], bounds="files of the harmony corpus")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case)
    before = evs(p)
    ops.step(p, ("transpose", 3))
    ops.step(p, ("transpose", -3))
    same(evs(p), before, "transposed and back (tags are pitch names)")
    ops.step(p, ("timeStretch", 4))
    ops.step(p, ("timeStretch", 0.25))
    same(evs(p), before, "stretched and back")
    ctx.op(4)


@suite("varied", lambda sc: varied(sc, comb=2), bounds=VARIED + " and viewpoints, 3 ratios and 4 intervals")
def of_the_family(ctx, case):
    p = varied_pattern(case, 1)
    p.viewpoints["v"] = pattern(evs(p)[:2], 3)
    before = evs(p)
    for op in (("timeStretch", 0.5), ("transpose", 13), ("timeStretch", 7 / 3.0), ("transpose", 1), ("transpose", -14),
               ("timeStretch", 6 / 7.0)):
        ids = [id(e) for e in p.events]
        ops.step(p, op)
        same([id(e) for e in p.events], ids, "%r: other events or order" % (op,))
        ctx.op()
    for t, u in zip(before, evs(p)):
        check(near(t[0], u[0]) and near(t[1], u[1]) and t[2:4] == u[2:4], "%r came back as %r", t, u)
