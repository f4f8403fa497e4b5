# -*- coding: utf-8 -*-
"""C26 descriptors depend on the pattern alone and measure what they say"""
from __future__ import absolute_import, division, print_function

import math

import ops
from core import check, product, same, sequences, suite
from lib import VARIED, corpus, evs, kinds, ladder, near, pattern, snap, varied, varied_pattern
from gsapi.gsdescriptors import Density, NumberOfTags, Syncopation
from gsapi.gsextractors import DensityDrumSpace

GROUPS = {"loD": ["Kick", "low Congas"], "midD": ["snare", "rimshot", "hiconga"], "hiD": ["closed hihat", "shaker", "clave"]}


def wanted(tuples, ignored=None, included=None):
    ignored = ignored or ["silence"]
    res = []
    for t in tuples:
        if t[4] in ignored if isinstance(ignored, list) else ops.has_tag(t[4], ignored):
            continue
        if included and not (t[4] in included if isinstance(included, list) else t[4] == included):
            continue
        res.append(t)
    return res


def density(tuples, **kw):
    return sum(t[1] for t in wanted(tuples, **kw))


def number(tuples, **kw):
    return len(set(t[4] for t in wanted(tuples, **kw)))


def table(n):
    """how strong each beat is: the more of the halvings of the pattern fall on it, the stronger"""
    w = [0] * n
    depth = 1
    while int(n / float(depth)) > 0:
        width = int(n / float(depth))
        for s in range(depth):
            w[s * width] += 1
        depth *= 2
    return w


def syncopation(tuples, duration):
    n = int(math.ceil(duration))
    w = table(n)
    sounds = [any(t[0] <= i < t[0] + t[1] for t in tuples) for i in range(n)]
    return sum(abs(w[(i + 1) % n] - w[i]) for i in range(n) if sounds[i] and not sounds[(i + 1) % n])


def equal(got, want, what):
    check(near(got, want, 1e-9 * max(1, abs(want))), "%s: %r instead of %r", what, got, want)


FILTERS = [{}, {"ignoredTags": ["k"]}, {"includedTags": ["k"]}, {"ignoredTags": ["silence", "s"], "includedTags": ["s", "k"]},
           {"includedTags": "k"}, {"ignoredTags": "k"}, {"includedTags": ["silence"]}, {"ignoredTags": ["no"]},
           {"ignoredTags": ["k", "s"], "includedTags": ["k"]}, {"includedTags": ("k", "s")}, {"ignoredTags": ("k", "s")},
           {"includedTags": ["kick"]}, {"ignoredTags": ["kick"]}]


def args(f):
    return {"ignored": f.get("ignoredTags"), "included": f.get("includedTags")}


TAGS = ("k", "s", "silence", ("k", "s"))
KINDS = kinds((0, 1.5), (0.5, 2), [(60, t) for t in TAGS])


@suite("tags", lambda sc: sequences(KINDS, 0, sc.pick(1, 2, 3)) if sc.level else sequences(KINDS[::3], 0, 2),
       bounds="all sequences of 0..2 (thorough: 3) events of 16 kinds; 13 choices of wanted and ignored tags")
def tags(ctx, case):
    p = pattern(case, 4)
    before = snap(p)
    for f in FILTERS:
        what = "%r of %r" % (f, case)
        d, n = Density(**f), NumberOfTags(**f)
        for again in range(2):
            equal(d.getDescriptorForPattern(p), density(case, **args(f)), "Density " + what)
            same(n.getDescriptorForPattern(p), number(case, **args(f)), "NumberOfTags " + what)
            ctx.op(2)
    same(snap(p), before, "a descriptor changed the pattern")


ODD = (1, "1", 1.5, None, ("k",), "k", ("s", "k"), ("k", "s"), "", (), u"\u00e9", "('k',)", "K", "k ")


@suite("odd tags", lambda sc: sequences(range(len(ODD)), 1, sc.pick(2, 3, 4)),
       bounds="all patterns of 1..3 (thorough: 4) events of 14 tags of any type, some of which look alike")
def odd_tags(ctx, case):
    events = [(0.5 * i, 0.25 + i, 60, 80, ODD[k]) for i, k in enumerate(case)]
    for f in ({}, {"includedTags": [ODD[case[0]]]}, {"ignoredTags": [ODD[case[0]]]}, {"ignoredTags": [ODD[case[-1]], "no"]}):
        equal(Density(**f).getDescriptorForPattern(pattern(events, 4)), density(events, **args(f)), "Density %r of %r" % (f, events))
        same(NumberOfTags(**f).getDescriptorForPattern(pattern(events, 4)), number(events, **args(f)), "NumberOfTags %r of %r" % (f, events))
        ctx.op(2)


def gen_sync(sc):
    for n in range(1, sc.pick(5, 8, 12)):
        for m in range(2 ** n):
            if n < 7 or sc.level == 2 or m % 3 == 0:
                yield (n, m)


@suite("syncopation", gen_sync, bounds="all sets of beats of patterns of 1..7 (thorough: 11) beats, in every order, held or not, fractional durations")
def sync(ctx, case):
    n, m = case
    d = Syncopation()
    for fraction in (0, -0.5, -0.25):
        for length in (1, 0.5, 1.5, 2.25):
            events = [(i, length, 60 + i, 80, "k") for i in range(n) if m >> i & 1]
            want = syncopation(events, n + fraction)
            for order in (1, -1):
                p = pattern(events[::order], n + fraction)
                before = snap(p)
                same(d.getDescriptorForPattern(p), want, "Syncopation of %r, duration %r" % (events, n + fraction))
                same(Syncopation().getDescriptorForPattern(p), want, "new Syncopation of %r" % (events,))
                same(snap(p), before, "the descriptor changed the pattern")
                ctx.op(2)


@suite("off the beat", lambda sc: sequences(kinds((0.5, 1, 2.75, 3), (0.25, 0.5, 1, 3), ((60, "k"),)), 1, sc.pick(1, 2, 3)),
       bounds="all sequences of 1..2 (thorough: 3) events of 16 kinds between the beats, patterns of 3.5, 4 and 6 beats")
def off(ctx, case):
    d = Syncopation()
    for duration in (4, 3.5, 6, 4.0, 16):
        same(d.getDescriptorForPattern(pattern(case, duration)), syncopation(case, duration),
             "Syncopation of %r, duration %r" % (case, duration))
        ctx.op()


def drums(k):
    names = sorted(x for g in GROUPS.values() for x in g) + ["cowbell", "silence", ("Kick", "snare"), "kick"]
    return [(i * 0.5, 0.25 * (1 + (i + k) % 3), 36 + i, 90, names[(i * (1 + k % 5) + k) % len(names)]) for i in range(k % 17)]


@suite("drums", lambda sc: [(k,) for k in range(sc.pick(40, 170, 1000))], bounds="patterns of 0..16 events of 12 tags in DensityDrumSpace")
def drum_space(ctx, case):
    events = drums(case[0])
    space = DensityDrumSpace()
    for order in (1, -1):
        p = pattern(events[::order], 8)
        before = snap(p)
        for again in range(2):
            got = space.getFeatureSpace(p)
            same(sorted(got), ["hiD", "loD", "midD", "numberOfInstruments"], "features")
            for g in GROUPS:
                equal(got[g], density(events, included=GROUPS[g]), "%s of %r" % (g, events))
            same(got["numberOfInstruments"], number(events), "number of instruments of %r" % (events,))
            ctx.op(4)
        same(snap(p), before, "the descriptors changed the pattern")


HISTORY = [([(0, 1, 60, 80, "k")], 4), ([(1, 1, 60, 80, "k"), (2.5, 0.5, 61, 80, "s")], 4), ([(1, 1, 60, 80, "s")], 8),
           ([], 4), ([(0, 3, 60, 80, "silence"), (5, 1, 62, 80, "k")], 6), ([(3, 1, 60, 80, "k")], 3.5)]


@suite("histories", lambda sc: sequences(range(len(HISTORY)), 1, sc.pick(2, 4, 5)),
       bounds="all histories of 1..4 (thorough: 5) evaluations of 6 patterns, with one set of descriptors")
def histories(ctx, case):
    d, f, n, s = Density(), Density(includedTags=["k"]), NumberOfTags(ignoredTags=["s"]), Syncopation()
    for i, k in enumerate(case):
        events, duration = HISTORY[k]
        p = pattern(events, duration)
        what = " of %r, after %r" % (events, case[:i])
        equal(d.getDescriptorForPattern(p), density(events), "Density" + what)
        equal(f.getDescriptorForPattern(p), density(events, included=["k"]), "Density of k" + what)
        same(n.getDescriptorForPattern(p), number(events, ignored=["s"]), "NumberOfTags" + what)
        same(s.getDescriptorForPattern(p), syncopation(events, duration), "Syncopation" + what)
        ctx.op(4)


@suite("wide", lambda sc: [(n, d) for n in (17, 50, 300) for d in (0.1, 1 / 3.0, 2.25)], bounds="regular patterns of 17..300 events")
def wide(ctx, case):
    n, d = case
    events = ladder(n, dur=d, tags=("k", "s", ("a", "b"), "silence", "h"))
    p = pattern(events[::-1], n / 2.0)
    equal(Density().getDescriptorForPattern(p), density(events), "Density of %d events" % n)
    for f in FILTERS:
        equal(Density(**f).getDescriptorForPattern(p), density(events, **args(f)), "Density %r of %d events" % (f, n))
        same(NumberOfTags(**f).getDescriptorForPattern(p), number(events, **args(f)), "NumberOfTags %r" % (f,))
        ctx.op(2)
    same(Syncopation().getDescriptorForPattern(p), syncopation(events, n / 2.0), "Syncopation of %d events" % n)


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(2, 12, 400)], bounds="files of the corpora")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case)
    events = evs(p)
    equal(Density().getDescriptorForPattern(p), density(events), "Density")
    same(NumberOfTags().getDescriptorForPattern(p), number(events), "NumberOfTags")
    same(Syncopation().getDescriptorForPattern(p), syncopation(events, p.duration), "Syncopation")
    ctx.op(3)


@suite("varied", lambda sc: varied(sc, sc.pick((3,), (3, 10, 40), (3, 10, 40, 140)), comb=3), bounds=VARIED)
def of_the_family(ctx, case):
    space = DensityDrumSpace()
    for extra in (0, 1.25, -0.0625):
        p = varied_pattern(case, extra)
        if p.duration <= 0:
            continue
        events, before = evs(p), snap(p)
        tag = events[len(events) // 2][4]
        for f in [{}, {"includedTags": [tag, "k", "tag3"]}, {"ignoredTags": [tag]}, {"ignoredTags": ["tag1", "k"], "includedTags": [tag, "s"]}]:
            equal(Density(**f).getDescriptorForPattern(p), density(events, **args(f)), "Density %r of %r" % (f, events[:8]))
            same(NumberOfTags(**f).getDescriptorForPattern(p), number(events, **args(f)), "NumberOfTags %r of %r" % (f, events[:8]))
        same(Syncopation().getDescriptorForPattern(p), syncopation(events, p.duration), "Syncopation of %r, duration %r" % (events[:8], p.duration))
        equal(space.getFeatureSpace(p)["hiD"], density(events, included=GROUPS["hiD"]), "high drums")
        same(snap(p), before, "a descriptor changed the pattern")
        ctx.op(10)


@suite("lengths", lambda sc: product((1, 2, 3, 4, 7, 8, 16, 31, 32, 64, 127, 128, 200), (0, 0.01, -0.01, 0.3, 2.0 ** -30)),
       bounds="patterns of up to 200 beats and a little more or less, with notes loud or not and silences")
def lengths(ctx, case):
    n, more = case
    for k in range(6):
        events = [(i, (1, 0.5, 2.5)[k % 3], 60, (0, 80)[i % 2], ("silence", "k", "")[i % 3]) for i in range(0, n, 1 + k)] + \
            [(n - 1, 0.25, 61 + j, 0, "s") for j in range(k)]
        if n + more > 0:
            same(Syncopation().getDescriptorForPattern(pattern(events, n + more)), syncopation(events, n + more),
                 "Syncopation of %r, duration %r" % (events[:8], n + more))
            ctx.op()
