# -*- coding: utf-8 -*-
"""C08 selecting by tag or pitch splits a pattern in two without loss"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, fail, product, same, sequences, suite
from lib import (bag, corpus, evs, kinds, ladder, meta, not_shared, pattern, repr_tag, same_bag, snap, tup, varied,
                 varied_pattern)

TAGS = ("k", "kick", "", ("k", "s"), ("kick",), (), 1, ("C", "maj"), None, (("C", "maj"), "x"), "maj")
ASKED = ("k", "kick", "s", "C", "maj", "ma", "", 1, (), ("k", "s"), ("C", "maj"), ("maj", "C"), ("kick",), "no", 2)
LISTS = (["k"], ["k", "kick"], ["s"], [("k", "s"), 1], [], ["ma"], [()], [("C", "maj"), "maj", "no"])


def is_equal(tag, asked):
    return type_of(tag) == type_of(asked) and tag == asked


def type_of(tag):
    return "text" if isinstance(tag, (str, type(u""))) else type(tag).__name__


def select(ctx, p, method, asked, exact, makeCopy, chosen):
    """calls one selection and checks its result: the events of the original for which chosen is true, in order"""
    before = snap(p)
    objects = list(p.events)
    kw = {} if exact is None else {"exactSearch": exact}
    got = getattr(p, method)(asked, makeCopy=makeCopy, **kw)
    ctx.op()
    what = "%s(%r, exactSearch=%r, makeCopy=%r) of %r" % (method, asked, exact, makeCopy, before[0])
    want = [e for e in objects if chosen(e)]
    same(evs(got), [tup(e) for e in want], what)
    same(meta(got), meta(p), what + ": other fields")
    same(snap(p), before, what + ": the original changed")
    if makeCopy:
        not_shared(objects, got.events, what)
    else:
        check(all(a is b for a, b in zip(got.events, want)), "%s: not the events themselves", what)
    got.events.append("a change")
    got.viewpoints["x"] = None
    check(len(p.events) == len(objects) and "x" not in p.viewpoints, "%s: shares a list with the original", what)
    del got.events[-1]
    return got


def check_selections(ctx, events, sc_asked=ASKED, lists=LISTS, pitches=(59, 60, 61, 62)):
    p = pattern(events, 4, name="p", bpm=97.5, key="Am", timeSignature=(3, 4), startTime=2, originFilePath="x.mid",
                resolution=480)
    p.viewpoints["v"] = pattern(events[:1], 4)
    for makeCopy in (True, False):
        for asked in sc_asked:
            contains = lambda e: ops.has_tag(e.tag, asked)
            equal = lambda e: e.tag == asked
            a = select(ctx, p, "getPatternWithTags", asked, None, makeCopy, equal)
            select(ctx, p, "getPatternWithTags", asked, True, makeCopy, equal)
            b = select(ctx, p, "getPatternWithTags", asked, False, makeCopy, contains)
            c = select(ctx, p, "getPatternWithoutTags", asked, None, makeCopy, lambda e: not contains(e))
            select(ctx, p, "getPatternWithoutTags", asked, False, makeCopy, lambda e: not contains(e))
            d = select(ctx, p, "getPatternWithoutTags", asked, True, makeCopy, lambda e: not equal(e))
            same_bag(evs(a) + evs(d), events, "with and without exactly %r" % (asked,))
            same_bag(evs(b) + evs(c), events, "with and without %r" % (asked,))
        for asked in lists:
            a = select(ctx, p, "getPatternWithTags", asked, None, makeCopy, lambda e: e.tag in asked)
            b = select(ctx, p, "getPatternWithoutTags", asked, None, makeCopy, lambda e: e.tag not in asked)
            select(ctx, p, "getPatternWithTags", asked, False, makeCopy, lambda e: e.tag in asked)
            same_bag(evs(a) + evs(b), events, "with and without %r" % (asked,))
            select(ctx, p, "getPatternWithoutTags", asked, True, makeCopy, lambda e: e.tag not in asked)
        for f, exact in product((lambda t: isinstance(t, tuple), lambda t: t == "k", lambda t: True,
                                 lambda t: str(t) == "s" or t == ("C", "maj") or t == ()), (None, True, False)):
            a = select(ctx, p, "getPatternWithTags", f, exact, makeCopy, lambda e: f(e.tag))
            b = select(ctx, p, "getPatternWithoutTags", f, exact, makeCopy, lambda e: not f(e.tag))
            same_bag(evs(a) + evs(b), events, "with and without a function")
        for pitch in pitches:
            select_pitch(ctx, p, pitch, makeCopy)
    tags = p.getAllTags()
    same(sorted(map(repr_tag, tags)), sorted(set(repr_tag(t[4]) for t in events)), "getAllTags of %r" % (events,))
    voices = p.getAllPitches()
    same(sorted(voices), sorted(set(t[2] for t in events)), "getAllPitches of %r" % (events,))
    # the voices are a partition
    parts = [evs(p.getPatternWithTags(t)) for t in tags]
    same_bag([t for part in parts for t in part], events, "one pattern per tag")
    parts = [evs(p.getPatternWithPitch(t)) for t in voices]
    same_bag([t for part in parts for t in part], events, "one pattern per pitch")
    ctx.op(2)


def select_pitch(ctx, p, pitch, makeCopy):
    before = snap(p)
    objects = list(p.events)
    got = p.getPatternWithPitch(pitch, makeCopy=makeCopy)
    ctx.op()
    what = "getPatternWithPitch(%r, makeCopy=%r) of %r" % (pitch, makeCopy, before[0])
    want = [e for e in objects if e.pitch == pitch]
    same(evs(got), [tup(e) for e in want], what)
    same(meta(got), meta(p), what + ": other fields")
    same(snap(p), before, what + ": the original changed")
    if makeCopy:
        not_shared(objects, got.events, what)
    else:
        check(all(a is b for a, b in zip(got.events, want)), "%s: not the events themselves", what)


@suite("tags", lambda sc: sequences(TAGS, 0, sc.pick(1, 2, 3)) if sc.level else sequences(TAGS[:9], 0, 1),
       bounds="all sequences of 0..2 (thorough: 3) of 11 tags (texts that contain each other, tuples, numbers, none), "
              "15 tags, 8 lists and 3 functions to look for, exactly or not, copied or not")
def tags(ctx, case):
    check_selections(ctx, [(0.5 * i, 1, 60 + i % 2, 80, t) for i, t in enumerate(case)])


@suite("defaults", lambda sc: sequences(TAGS[:5], 1, 2), bounds="the result is a copy unless asked otherwise")
def defaults(ctx, case):
    p = pattern([(0.5 * i, 1, 60 + i % 2, 80, t) for i, t in enumerate(case)], 4)
    before = snap(p)
    for got in (p.getPatternWithTags(case[0]), p.getPatternWithoutTags("no"), p.getPatternWithPitch(60)):
        ctx.op()
        not_shared(p.events, got.events, "selection")
        for e in got.events:
            e.startTime, e.pitch, e.tag = 9, 9, 9
        got.duration, got.bpm = 1, 1
        same(snap(p), before, "a change of the selection reached the original")


@suite("sets", lambda sc: [(i,) for i in range(3)], bounds="events with a frozenset of tags")
def sets(ctx, case):
    some = (frozenset(["a", "b"]), frozenset(["b"]), frozenset())[case[0]]
    check_selections(ctx, [(0, 1, 60, 80, some), (1, 1, 60, 80, "b"), (2, 1, 61, 80, ("b", some))],
                     ("a", "b", "ab", some, frozenset(["a", "b"])), (["b"], [some]))


@suite("wide", lambda sc: [(n,) for n in (3, 20, 80)], bounds="regular patterns of up to 80 events")
def wide(ctx, case):
    check_selections(ctx, ladder(case[0], tags=("k", "kick", ("k", "s"), 1)))


@suite("corpus", lambda sc: corpus("drums", "*.mid")[:sc.pick(1, 2, 20)], bounds="files of the drum corpus")
def from_corpus(ctx, case):
    from gsapi import gsio, gsdefs
    p = gsio.fromMidiFile(case, gsdefs.simpleDrumMap, filterOutNotMapped=False)
    events = evs(p)[:120]
    check_selections(ctx, events, ("Kick", "Snare", "HH", ()), (["Kick", "Snare"], ["ClosedHH"]))


@suite("varied", lambda sc: varied(sc, (3, 20, 150) if sc.level else (3, 10), ("close", "stacked"), ("mixed",), comb=2),
       bounds="patterns of 3, 20 and 150 events, tags of odd types and of 21 kinds, extreme pitches and velocities")
def of_the_family(ctx, case):
    events = evs(varied_pattern(case))
    check_selections(ctx, events, (events[0][4], events[-1][4], "k", "tag20", 1, "1", None, "", ("b", "a"), "a", "no"),
                     ([events[1][4]], ["k", 1, None], [("b", "a"), 2.5, "tag20", ""]),
                     sorted(set([0, 1, 126, 127, 60, events[0][2]])))


@suite("far pitches", lambda sc: [(n,) for n in range(sc.pick(2, 6, 12))], bounds="pitches from -140 to 270, an octave or the range of MIDI apart, and fractions")
def far_pitches(ctx, case):
    base = (60, 0, 127, 11, -1, 64, 1, 3, 90, 100, 40, 126)[case[0]]
    pitches = [base + d for d in (0, 128, -128, 12, -12, 256, 1, 0.5, 127, 0)]
    p = pattern([(0.5 * i, 1, x, 80, "k") for i, x in enumerate(pitches)], 8, name="p")
    for makeCopy in (True, False):
        for pitch in pitches + [base + 2, float(base)]:
            select_pitch(ctx, p, pitch, makeCopy)
    same(sorted(p.getAllPitches()), sorted(set(pitches)), "getAllPitches of %r" % (pitches,))
