# -*- coding: utf-8 -*-
"""C34 Chordify groups exactly the notes that sound together"""
from __future__ import absolute_import, division, print_function

from itertools import permutations

from core import check, fail, product, same, sequences, suite
from lib import VARIED, corpus, evs, kinds, ladder, meta, near, pattern, repr_tag, snap, varied, varied_pattern
from gsapi.gstransformers import Chordify


def chords(tuples):
    """[(onset, [[pitch, velocity]...], tags, possible durations)]"""
    res = []
    for t in sorted(set(x[0] for x in tuples)):
        active = [x for x in tuples if x[0] <= t < x[0] + x[1]]
        tags = []
        for x in active:
            tags += list(x[4]) if isinstance(x[4], tuple) else [x[4]]
        res.append((t, sorted([x[2], x[3]] for x in active), sorted(tags, key=repr_tag), [x[1] for x in tuples if x[0] == t]))
    return res


def check_chords(ctx, p):
    before = snap(p)
    events, duration = evs(p), p.duration
    what = "chords of %r, duration %r" % (events[:8], duration)
    c = Chordify(p)
    ctx.op()
    want = chords(events)
    for again in range(2):
        out = c.outputPattern
        same(snap(p), before, what + ": changed the pattern")
        check(out is not p, "%s: the pattern itself", what)
        same(meta(out, ("duration",)), meta(p, ("duration",)), what + ": fields")
        same(len(out.events), len(want), what + ": number of chords")
        last = duration
        for e, (start, components, tags, lengths) in zip(out.events, want):
            same(e.startTime, start, what + ": onset")
            same(sorted([list(x) for x in e.components]), components, "%s: notes at %r" % (what, start))
            same(sorted(e.tag, key=repr_tag), tags, "%s: tags at %r" % (what, start))
            check(isinstance(e.tag, tuple), "%s: tag %r", what, e.tag)
            check(e.duration in lengths, "%s: chord at %r lasts %r", what, start, e.duration)
            last = max(last, e.startTime + e.duration)
        check(near(out.duration, last), "%s: duration %r", what, out.duration)
        if again == 0:
            same((c.numChords, c.duration), (len(want), out.duration), what + ": attributes")
            same([id(e) for e in c.events], [id(e) for e in out.events], what + ": events")
            check(c.transformPattern() is c.outputPattern, "%s: transformPattern returns something else", what)
            for e in c.events:
                e.components.append([0, 0])
            ctx.op()


KINDS = kinds((0, 1, 1.5), (0.5, 1, 2.5), ((60, "k", 80), (64, ("a", "b"), 70), (60, "s", 90)))


@suite("small", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 3)) if sc.level else sequences(KINDS[::2], 0, 2),
       bounds="all sequences of 0..2 (thorough: 3) events of 27 kinds, in every order")
def small(ctx, case):
    check_chords(ctx, pattern(case, 4, bpm=90.5, key="D", name="x"))
    check_chords(ctx, pattern([(t[0] - 1,) + t[1:] for t in case], 2))


@suite("triples", lambda sc: [c for i, c in enumerate(sequences(KINDS, 3, 3)) if i % sc.pick(997, 11, 1) == 0], bounds="every eleventh (thorough: every) sequence of 3 of 27 kinds of events")
def triples(ctx, case):
    check_chords(ctx, pattern(case, 3))


@suite("wide", lambda sc: [(n, d, k) for n in (4, 12, 40, 150) for d in (0.1, 0.75, 3) for k in range(sc.pick(2, 6, 40))],
       bounds="patterns of 4..150 events, in and out of order, alone and together")
def wide(ctx, case):
    n, d, k = case
    events = [((i * (k + 3) % (n + 5)) * 0.25, d * (1 + (i * i + k) % 4), 30 + (i * 7 + k) % 60, 1 + i % 127, ("k", ("a", "b"), "s", ("x",), 4)[(i + k) % 5])
              for i in range(n)]
    check_chords(ctx, pattern(events, n / 2.0))
    check_chords(ctx, pattern(sorted(events, key=lambda t: t[0]), n / 2.0))
    check_chords(ctx, pattern(ladder(n, dur=d), n))


@suite("corpus", lambda sc: (corpus("harmony", "*.mid") + corpus("drums", "*.mid"))[:sc.pick(1, 8, 400)], bounds="files of the corpora")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case)
    p.events = p.events[:150]
    check_chords(ctx, p)


@suite("close onsets", lambda sc: product((2.0 ** -7, 2.0 ** -10, 2.0 ** -13, 2.0 ** -20, 2.0 ** -30), (0, 1, 3.5, 100), sc.pick((1,), (0, 1, 2), (0, 1, 2))),
       bounds="onsets a hair apart (down to 2**-30 of a beat), in every order")
def close(ctx, case):
    gap, start, k = case
    events = [(start, 1, 60, 80, "k"), (start + gap, 1, 61, 81, None), (start + gap, gap, 60, 80, "s"), (start + 2 * gap, 1 + gap, 60, 80, ""),
              (start + 1, 1, 62, 0, 7)]
    for order in permutations(events[k:]):
        check_chords(ctx, pattern(order, start + 3))


@suite("varied", lambda sc: varied(sc, sc.pick((3,), (3, 10, 40), (3, 10, 40, 140)), comb=3), bounds=VARIED)
def of_the_family(ctx, case):
    for extra in (0, 1.5, -0.125):
        p = varied_pattern(case, extra)
        starts = sorted(set(e.startTime for e in p.events))
        # an event that ends within a rounding error of an onset may count or not
        p.events = [e for e in p.events if not any(0 < abs(e.startTime + e.duration - s) < 1e-9 or
                                                   (e.startTime + e.duration == s) != (s - e.startTime == e.duration) for s in starts)]
        check_chords(ctx, p)


@suite("clusters", lambda sc: [(n, k) for n in (9, 10, 11, 16, 17, 33, 64, 128, 200) for k in range(sc.pick(1, 2, 6))],
       bounds="9..200 notes at one onset, some of them the same")
def clusters(ctx, case):
    n, k = case
    events = [(1 + (i % 2) * k, 0.5 + i % (2 + k), 60 + i % 40, 80, "t%d" % (i % 30)) for i in range(n)]
    check_chords(ctx, pattern(events, 6))
    check_chords(ctx, pattern(events[::-1] + [(0, 9, 0, 0, ("a", "b"))], 6))
