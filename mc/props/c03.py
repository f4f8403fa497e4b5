# -*- coding: utf-8 -*-
"""C03 removing overlaps leaves each voice monophonic and loses no onset"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, product, same, sequences, suite
from lib import VARIED, bag, corpus, evs, kinds, ladder, pattern, same_bag, snap, varied, varied_pattern

TWO = kinds((0, 1, 1.5, 2), (0.5, 1, 3), ((60, "k"), (62, "k"), (60, ("a", "b"))))
ONE = kinds((0, 1, 1.5, 2), (0.5, 1, 3), ((60, "k"),))


def check_overlaps(ctx, events, duration, args=()):
    return check_pattern(ctx, pattern(events, duration, name="p"), args)


def check_pattern(ctx, p, args=()):
    ops.step(p, ("removeOverlapped",) + args)
    left = snap(p)
    ops.step(p, ("removeOverlapped",) + args)
    same(sorted(left[0], key=lambda t: t[0]), left[0], "time order")
    same(snap(p), left, "removing the overlaps of %r again changes it" % (left[0],))
    ctx.op(2)
    return p


@suite("small", lambda sc: sequences(TWO, 0, sc.pick(1, 2, 2)),
       bounds="all sequences of 0..2 events of 36 kinds, in every order, by tag and by pitch")
def small(ctx, case):
    for args in ((), (False,), (True,)):
        check_overlaps(ctx, case, 4, args)


@suite("voice", lambda sc: sequences(ONE, 3, sc.pick(3, 4, 4)) if sc.level else sequences(ONE[:9], 3, 3),
       bounds="all sequences of 3..4 events of one voice of 12 kinds")
def voice(ctx, case):
    check_overlaps(ctx, case, 4)
    check_overlaps(ctx, case, 4, (True,))


@suite("mixed", lambda sc: sequences(kinds((0, 0.5, 1), (0.5, 2), ((60, "k"), (61, "s"))), 3, sc.pick(3, 3, 4))
       if sc.level else sequences(kinds((0, 1), (2,), ((60, "k"), (61, "s"))), 3, 3),
       bounds="all sequences of 3 (thorough: 4) events of two voices; a voice comes out as it does alone")
def mixed(ctx, case):
    whole = check_overlaps(ctx, case, 4)
    for tag in ("k", "s"):
        alone = check_overlaps(ctx, [t for t in case if t[4] == tag], 4)
        same_bag([t for t in evs(whole) if t[4] == tag], evs(alone), "voice %s of %r" % (tag, case))


def gen_wide(sc):
    for n in (5, 16, 40) + ((120,) if sc.level else ()):
        for dur in (0.1, 0.5, 1, 1.75, 4, 100):
            for tags in (("k",), ("k", "s"), ("k", "s", ("a", "b"))):
                yield ("ladder", n, dur, tags)
    for n in (2, 5, 12):
        for dur in (0.5, 3):
            yield ("stack", n, dur)


@suite("wide", gen_wide, bounds="regular patterns of up to 120 events; stacks of up to 12 events on each onset")
def wide(ctx, case):
    if case[0] == "ladder":
        _, n, dur, tags = case
        events = ladder(n, dur=dur, tags=tags)
        for order in (1, -1):
            check_overlaps(ctx, events[::order], n)
            check_overlaps(ctx, events[::order], n, (True,))
    else:
        _, n, dur = case
        events = [(s, dur + i % 3, 60 + i % 2, 10 + i, "k") for s in (0, 1, 2.5) for i in range(n)]
        for order in (1, -1):
            check_overlaps(ctx, events[::order], 10)
            check_overlaps(ctx, events[::order], 10, (True,))


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(2, 6, 40)],
       bounds="files of the drum and harmony corpora")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case)
    events = [t for t in evs(p)[:200] if t[1] > 0]
    for args in ((), (True,)):
        check_overlaps(ctx, events, p.duration, args)


@suite("varied", varied, bounds=VARIED + ", by tag and by pitch")
def of_the_family(ctx, case):
    for args in ((), (True,)):
        check_pattern(ctx, varied_pattern(case, 1), args)


@suite("crowd", lambda sc: product((1, 15, 40, 70, sc.pick(70, 150, 600)), range(4), (False, True)),
       bounds="a long event of a voice, 1..150 (thorough: 600) events of other voices, and the next onset of its own voice under it")
def crowd(ctx, case):
    n, k, byPitch = case
    step = (0.25, 0.1, 0.01, 0)[k]
    others = [(step * (i + 1), 0.005 if k == 2 else 0.05, 40 + i % 20, 90, "o%d" % (i % 20)) for i in range(n)]
    at = max(1, step * (n + 1))
    events = [(0, at + 4, 100, 90, "k"), (0, at + 8, 101, 90, ("a", "k"))] + others + [(at, 2, 100, 80, "k"), (at + 1, 1, 101, 80, ("a", "k")), (at + 1, 1, 100, 70, "k")]
    for es in (events, events[::-1], events[::2] + events[1::2]):
        check_overlaps(ctx, es, at + 10, (byPitch,))


@suite("pairs of pitches", lambda sc: [(a, b) for a in range(128) for b in range(128) if (a * 5 + b * 3) % sc.pick(29, 11, 1) == 0 or a % 12 == b % 12 and (a + b) % sc.pick(4, 1, 1) == 0],
       bounds="two notes over each other of every eleventh (thorough: every) pair of pitches of MIDI, and all that are octaves apart")
def pairs_of_pitches(ctx, case):
    a, b = case
    events = [(0, 2, a, 90, "x"), (1, 2, b, 80, "y"), (1.5, 1, a, 70, "y"), (1.5, 2, b, 60, "x")]
    for args in ((True,), ()):
        check_overlaps(ctx, events, 4, args)
