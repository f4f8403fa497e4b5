# -*- coding: utf-8 -*-
"""C41 operations on times, pitches and tags agree with one another in any order"""
from __future__ import absolute_import, division, print_function

import os

from core import check, product, same, sequences, suite
from lib import VARIED, bag, evs, kinds, match, meta, order, pattern, sortbag, tup, varied, varied_pattern
from gsapi import gsio, gstransformers

KINDS = kinds((0, 0.5, 0.75, 2), (0.25, 1, 3), ((60, "k"), (64, "s"), (60, ("a", "k"))))
TAGS = ("k", "s", ("a", "k"))


def edit(name, *args):
    def act(p):
        q = p.copy()
        getattr(q, name)(*args)
        return q
    return act


def slices(size):
    """slices, an empty pattern where there is none"""
    return lambda p: [x if x is not None else pattern([], 0, name="none") for x in p.splitInEqualLengthPatterns(size, supressEmptyPattern=False)]


def window(a, b, trim=True):
    return lambda p: p.patternFromTimeSlice(a, b, trim)


def having(tag):
    return lambda p: p.getPatternWithTags((tag,))


def chords(p):
    return [(e.startTime, e.duration, sorted(tup(x)[2:] for x in e.components) if hasattr(e.components[0], "startTime") else e.components)
            for e in gstransformers.Chordify(p).outputPattern.events]


def each(f):
    """f on a pattern or on all of several"""
    return lambda x: [f(y) for y in x] if isinstance(x, list) else f(x)


# edits by themselves, with the sizes they use in multiples of a unit
SIZED = {
    "quantize": lambda u: edit("quantize", 0.5 * u), "quantize starts": lambda u: edit("quantize", 0.5 * u, True, False),
    "quantize durations": lambda u: edit("quantize", 0.25 * u, False, True), "alignOnGrid": lambda u: edit("alignOnGrid", 0.5 * u),
    "slices": lambda u: slices(1.0 * u), "slices of 3": lambda u: slices(0.75 * u), "window": lambda u: window(0.5 * u, 2.0 * u),
    "window, ends": lambda u: window(0.25 * u, 1.0 * u, False), "fill": lambda u: edit("fillWithSilences"),
    "fill in parts": lambda u: edit("fillWithSilences", 0.5 * u), "fill tags": lambda u: edit("fillWithSilences", 0.5 * u, True),
    "overlaps": lambda u: edit("removeOverlapped"), "overlaps of pitches": lambda u: edit("removeOverlapped", True),
    "legato": lambda u: edit("applyLegato"), "legato of tags": lambda u: edit("applyLegato", False),
    "previous": lambda u: edit("fillWithPreviousEvent"), "to last": lambda u: edit("durationToLastEvent", False),
    "reorder": lambda u: edit("reorderEvents"), "copy": lambda u: lambda p: p.copy(), "with k": lambda u: having("k"),
    "without k": lambda u: lambda p: p.getPatternWithoutTags("k"), "pitch 60": lambda u: lambda p: p.getPatternWithPitch(60),
    "remove s": lambda u: edit("removeByTags", ("s",)),
}
PITCHED = {"pitch 60"}
IDEMPOTENT = ("quantize", "quantize starts", "alignOnGrid", "overlaps", "overlaps of pitches", "legato", "legato of tags", "to last", "reorder", "copy", "with k",
              "without k", "pitch 60", "remove s")
# what treats each tag apart from the others
BY_TAG = ("quantize", "quantize starts", "quantize durations", "alignOnGrid", "slices", "slices of 3", "window", "window, ends", "overlaps", "legato of tags", "reorder", "copy",
          "remove s", "without k")


def raised(n):
    """all pitches higher by n (but for the silences that an edit put in); tags stay, unlike in transpose"""
    def act(p):
        q = p.copy()
        for e in q.events:
            if e.tag != "silence":
                e.pitch += n
        return q
    return act


def stretched(r):
    return edit("timeStretch", r)


def first_differences(a, b):
    return sortbag([x for x in a if x not in b])[:3], sortbag([x for x in b if x not in a])[:3]


def agree(a, b, what, eps=0):
    """two patterns, or lists of them, that are the same but for the order of events"""
    xs, ys = [x if isinstance(x, list) else [x] for x in (a, b)]
    same(len(xs), len(ys), what + ": number of patterns")
    for i, (x, y) in enumerate(zip(xs, ys)):
        if eps:
            check(match(bag(x), bag(y), eps), "%s: events %r against %r (pattern %d)", what, bag(x), bag(y), i)
            continue
        u, v = bag(x), bag(y)
        check(u == v or match(u, v, 1e-9), "%s: events %r against %r (pattern %d)", what, first_differences(u, v)[0] or u, first_differences(u, v)[1] or v, i)
        if u or "none" not in (x.name, y.name):
            same(meta(x), meta(y), "%s: fields (pattern %d)" % (what, i))


def gen(sc):
    for i, s in enumerate(sequences(KINDS, 0, 2)):
        if i % sc.pick(23, 5, 1) == 0:
            yield s
    for i, s in enumerate(sequences(KINDS, 3, 3)):
        if i % sc.pick(1999, 151, 11) == 0:
            yield s
    for i, s in enumerate(sequences(KINDS, 4, 4)):
        if i % sc.pick(99991, 9973, 499) == 0:
            yield s


SMALL = "every fifth (thorough: each) list of up to 2 of 36 events, and a comb of those of 3 and 4"


def make(case):
    return pattern(case, max([4] + [t[0] + t[1] for t in case]), name="p")


@suite("transposed", gen, bounds=SMALL + ": every edit and selection before and after a transposition")
def transposed(ctx, case):
    p = make(case)
    for n in (5, -60):
        for name in sorted(SIZED):
            if name in PITCHED:
                continue
            f = SIZED[name](1)
            agree(f(raised(n)(p)), each(raised(n))(f(p)), "%s of %r, transposed by %d" % (name, case, n))
            ctx.op(4)
    agree(raised(-3)(raised(3)(p)), p, "up and down")
    same([(s, d) for s, d, _ in chords(raised(2)(p))], [(s, d) for s, d, _ in chords(p)], "chords of %r, transposed" % (case,))


@suite("stretched", gen, bounds=SMALL + ": every edit and selection before and after stretching, with its sizes stretched alike")
def stretched_suite(ctx, case):
    p = make(case)
    for r in (2, 0.5):
        for name in sorted(SIZED):
            a = SIZED[name](r)(stretched(r)(p))
            b = SIZED[name](1)(p)
            if isinstance(b, list) or "window" in name:
                # where a part starts is stretched as well
                for x in b if isinstance(b, list) else [b]:
                    x.startTime *= r
            agree(a, each(stretched(r))(b), "%s of %r, stretched by %r" % (name, case, r))
            ctx.op(4)
    agree(stretched(0.5)(stretched(4)(p)), stretched(2)(p), "stretched twice")


@suite("by tag", gen, bounds=SMALL + ": every edit that treats tags apart, of the pattern and of the part with each tag")
def by_tag(ctx, case):
    p = make(case)
    for name in BY_TAG:
        f = SIZED[name](1)
        whole = f(p)
        for tag in TAGS:
            if name == "without k" and tag == "k":
                continue
            part = f(having(tag)(p))
            cut = each(having(tag))(whole)
            agree(part, cut, "%s of %r, of tag %r" % (name, case, tag))
            ctx.op(3)


@suite("again", gen, bounds=SMALL + ": edits and selections that settle, twice; and in any order of the list")
def again(ctx, case):
    p = make(case)
    for name in IDEMPOTENT:
        f = SIZED[name](1)
        once = f(p)
        agree(f(once), once, "%s of %r, twice" % (name, case))
        ctx.op(2)
    # of events of one tag or pitch that start together, an edit may keep either
    tied = len({(t[0], repr(t[4])) for t in case}) < len(case) or len({(t[0], t[2]) for t in case}) < len(case)
    if not tied:
        q = make(case[::-1])
        for name in sorted(SIZED):
            f = SIZED[name](1)
            agree(f(q), f(p), "%s of %r, backwards" % (name, case))
            ctx.op(2)


@suite("through files", lambda sc: [c for i, c in enumerate(gen(sc)) if i % sc.pick(17, 2, 1) == 0], bounds="a comb of these lists, without overlaps of equal pitches: transposed, stretched and "
       "selected before and after a MIDI or JSON file")
def through_files(ctx, case):
    p = make(case)
    p.removeOverlapped(True)
    tags = {"k": (60, "*"), "s": (64, "*")}
    if any(isinstance(t[4], tuple) for t in case):
        p = p.getPatternWithoutTags([("a", "k")])

    def midi(q, shift=0):
        path = gsio.toMidiFile(q, folderPath="output/c41", name="m")
        return gsio.fromMidiFile(path, {k: (v[0] + shift, "*") for k, v in tags.items()})

    def json(q):
        return gsio.fromJSONFile(gsio.toJSONFile(q, "output/c41"))
    if not os.path.isdir("output/c41"):
        os.makedirs("output/c41")
    agree(midi(raised(7)(p), 7), raised(7)(midi(p)), "MIDI file of %r, transposed" % (case,), 1e-9)
    agree(midi(stretched(2)(p)), stretched(2)(midi(p)), "MIDI file of %r, stretched" % (case,), 1e-9)
    for tag in ("k", "s"):
        agree(midi(having(tag)(p)), having(tag)(midi(p)), "MIDI file of %r, of tag %r" % (case, tag), 1e-9)
    p = make(case)
    for f in (raised(7), stretched(0.5), having("k"), window(0.5, 2), edit("reorderEvents"), edit("removeOverlapped")):
        agree(json(f(p)), f(json(p)), "JSON file of %r" % (case,))
    ctx.op(26)


@suite("varied", lambda sc: varied(sc, sc.pick((3,), (3, 10), (3, 10, 40)), times=("quarter", "stacked", "gap"), durs=("step", "exact", "long")), bounds="transpositions and doublings of " + VARIED)
def varied_suite(ctx, case):
    p = varied_pattern(case, name="p")
    for e in p.events:
        e.pitch = 20 + e.pitch // 2
    odd = case[3] == "odd"
    for name in sorted(SIZED):
        if odd and "silence" in [e.tag for e in p.events] or name in PITCHED:
            continue
        agree(SIZED[name](1)(raised(5)(p)), each(raised(5))(SIZED[name](1)(p)), "%s of %r, transposed" % (name, case))
        a, b = SIZED[name](2)(stretched(2)(p)), SIZED[name](1)(p)
        a, b = a if isinstance(a, list) else [a], b if isinstance(b, list) else [b]
        same(len(a), len(b), "%s of %r, stretched: number" % (name, case))
        for x, y in zip(a, b):
            check(bag(x) == bag(stretched(2)(y)) or match(bag(x), bag(stretched(2)(y)), 1e-9), "%s of %r, stretched: %r", name, case, first_differences(bag(x), bag(stretched(2)(y))))
        ctx.op(6)
