# -*- coding: utf-8 -*-
"""C27 the recognised chord is the one that fits best, in every transposition"""
from __future__ import absolute_import, division, print_function

from core import check, fail, product, same, sequences, suite
from lib import VARIED, corpus, evs, near, pattern, snap, varied, varied_pattern
from ops import NAMES
from gsapi.gsdescriptors import Chord

MINOR3, MAJOR3, FIFTH = 3, 4, 7
MAJ, MIN = [0, MAJOR3, FIFTH], [0, MINOR3, FIFTH]
CHORDS = {
    "0": [0], "5": [0, FIFTH], "maj(omit5)": [0, MAJOR3], "min(omit5)": [0, MINOR3], "d5": [0, 6],
    "maj": MAJ, "min": MIN, "aug": [0, 4, 8], "dim": [0, 3, 6], "sus4": [0, 5, 7], "sus2": [0, 2, 7],
    "7": MAJ + [10], "maj7": MAJ + [11], "min7": MIN + [10], "min(maj7)": MIN + [11], "min7(b5)": [0, 3, 6, 10], "dim7": [0, 3, 6, 9],
    "6": MAJ + [9], "min6": MIN + [9], "add9": MAJ + [2], "min(add9)": MIN + [2], "7sus4": [0, 5, 7, 10],
    "add11": MAJ + [5], "min(add11)": MIN + [5], "9": MAJ + [10, 2], "b9": MAJ + [10, 1], "maj9": MAJ + [11, 2], "min9": MIN + [10, 2],
    "11": MAJ + [10, 2, 5], "maj11": MAJ + [11, 2, 5], "min11": MIN + [10, 2, 5], "13": MAJ + [10, 2, 5, 9]}


def chromas(tuples):
    """time that each pitch class sounds; silences do not count"""
    res = [0] * 12
    for t in tuples:
        if t[4] != "silence":
            res[t[2] % 12] += t[1]
    return res


MEMBERS = {(root, kind): frozenset((root + x) % 12 for x in notes) for kind, notes in CHORDS.items() for root in range(12)}


def scores(tuples, duration):
    """the score of each (root, kind): 0.8 of the time its notes sound less the time that others do, less half
    the duration of the pattern for each missing note"""
    c = chromas(tuples)
    total, missing = sum(c), duration / 2.0
    res = {}
    for key, mine in MEMBERS.items():
        inside = sum([c[x] for x in mine])
        res[key] = 0.8 * inside - (total - inside) - missing * len([x for x in mine if c[x] <= 0])
    return res


def check_chord(ctx, tuples, duration, exact=True, modes=(0, 1, 2, 3)):
    p = pattern(tuples, duration)
    before = snap(p)
    silent = not any(chromas(tuples))
    everything = scores(tuples, duration)
    for mode in modes:
        forced, many = bool(mode & 1), bool(mode & 2)
        what = "chord of %r, duration %r%s" % (tuples, duration, ", maj or min" * forced)
        got = Chord(forceMajMin=forced, allowDuplicates=many).getDescriptorForPattern(p)
        ctx.op()
        if silent:
            same(got, "silence", what)
            continue
        every = {k: v for k, v in everything.items() if not forced or k[1] in ("maj", "min")}
        best = max(every.values())
        check(isinstance(got, list) == many, "%s: %r", what, got)
        answers = got if many else [got]
        check(answers, "%s: none", what)
        for a in answers:
            check(isinstance(a, tuple) and len(a) == 2 and a[0] in NAMES, "%s: %r", what, a)
            key = (NAMES.index(a[0]), a[1])
            check(key in every, "%s: %r", what, a)
            check(every[key] >= best - 1e-9, "%s: %r scores %r, %r scores %r", what, a, every[key],
                  [k for k in every if every[k] == best][:3], best)
        found = [a[1] for a in answers]
        check(len(set(found)) == len(found), "%s: a kind twice %r", what, answers)
        if many and exact:
            same(set(found), set(k[1] for k in every if every[k] == best), what + ": kinds that fit best")
    same(snap(p), before, "the descriptor changed the pattern")


def notes(pitches, lengths=(1.25,), start=0):
    # with durations of 1.25 times a power of two, the scores are exact
    return [(start, lengths[i % len(lengths)], x, 80, "t%d" % i) for i, x in enumerate(pitches)]


def gen_sets(sc):
    for m in range(sc.pick(256, 4096, 4096)):
        yield (m,)


@suite("pitch classes", gen_sets, bounds="all sets of pitch classes, (for those with C, two lengths of the pattern); major or minor forced or not, one or all answers")
def sets(ctx, case):
    pitches = [48 + 13 * i % 36 for i in range(12) if case[0] >> i & 1]
    check_chord(ctx, notes(pitches), 1.25)
    if case[0] % 2:
        check_chord(ctx, notes(pitches), 5, modes=(0, 3))


def gen_weights(sc):
    seqs = list(sequences(range(12), 1, 3)) + [(0, a, b, c) for a in range(1, 10) for b in range(a, 11) for c in range(b, 12)]
    for i, s in enumerate(seqs):
        if i % sc.pick(23, 3, 1) == 0:
            yield s


@suite("weights", gen_weights,
       bounds="all sequences of 1..3 pitch classes (quick: every third) and fours from C, of different durations, octaves and silences")
def weights(ctx, case):
    for lengths in ((1.25, 2.5, 0.625), (0.625, 0.625, 5), (10, 1.25)):
        events = notes([36 + x + 12 * (i % 4) for i, x in enumerate(case)], lengths)
        check_chord(ctx, events, 5)
        check_chord(ctx, events + [(0, 5, 61, 0, "silence")], 2.5, modes=(0, 3))


def gen_chords(sc):
    for kind in sorted(CHORDS):
        for root in range(12):
            for transposition in sc.pick((5,), (0, 5), (0, 1, 2, 5, 7, 11)):
                yield (kind, root, transposition)


@suite("transpositions", gen_chords, bounds="each kind of chord on each root, with a foreign note, in several transpositions")
def transpositions(ctx, case):
    kind, root, by = case
    base = [48 + root + x for x in CHORDS[kind]] + [60 + root + 1]
    events = notes(base, (2.5,) * len(CHORDS[kind]) + (0.625,))
    moved = [t[:2] + (t[2] + by,) + t[3:] for t in events]
    check_chord(ctx, moved, 2.5)
    check_chord(ctx, moved[::-1], 2.5)
    for far in (-60, -72, 84):
        check_chord(ctx, [t[:2] + (t[2] + far,) + t[3:] for t in moved], 2.5)
    a = Chord().getDescriptorForPattern(pattern(events, 2.5))
    b = Chord().getDescriptorForPattern(pattern(moved, 2.5))
    s = scores(events, 2.5)
    ties = [k for k in s if s[k] == max(s.values())]
    if len(ties) == 1:
        same(b, (NAMES[(NAMES.index(a[0]) + by) % 12], a[1]), "%r, transposed by %d, is no transposition" % (a, by))
    elif len(ties) > 1:
        check(a[1] in [k[1] for k in ties] and b[1] in [k[1] for k in ties], "%r and %r", a, b)
    if kind in ("maj", "min"):
        same(Chord(forceMajMin=True).getDescriptorForPattern(pattern(events[:-1], 2.5)), (NAMES[root % 12], kind), "plain chord")
    ctx.op(2)


@suite("histories", lambda sc: sequences(range(5), 1, sc.pick(2, 3, 5)),
       bounds="all histories of 1..3 (thorough: 5) evaluations of 5 patterns with one descriptor")
def histories(ctx, case):
    lists = [notes([60, 64, 67]), notes([61, 64, 68], (2.5,)), [], notes([60, 61, 62]), [(0, 1.25, 64, 80, "silence")]]
    d, f = Chord(), Chord(forceMajMin=True, allowDuplicates=True)
    for k in case:
        p = pattern(lists[k], 1.25)
        same(d.getDescriptorForPattern(p), Chord().getDescriptorForPattern(p), "after the history %r" % (case,))
        same(sorted(f.getDescriptorForPattern(p)), sorted(Chord(True, True).getDescriptorForPattern(p)), "after the history %r" % (case,))
        check_chord(ctx, lists[k], 1.25, modes=(0, 3))


@suite("fractions", lambda sc: [(n, i) for n in range(1, 13) for i in range(sc.pick(3, 20, 300))],
       bounds="1..12 notes of durations that are not exact, ties open")
def fractions(ctx, case):
    n, i = case
    events = [(j / 3.0, 0.1 + (j * i % 7) / 3.0, 30 + (j * (i + 5) * 7 + i) % 60, 64, ("a", "b") if j % 2 else "c") for j in range(n)]
    check_chord(ctx, events, 4, exact=False)


@suite("corpus", lambda sc: corpus("harmony", "*.mid")[:sc.pick(1, 6, 400)], bounds="beats and bars of the files of the harmony corpus")
def from_corpus(ctx, case):
    from gsapi import gsio
    p = gsio.fromMidiFile(case)
    for length in (1, 4):
        for s in p.splitInEqualLengthPatterns(length)[:16]:
            check_chord(ctx, evs(s), s.duration, exact=False)


@suite("pitches", lambda sc: [(x, k) for x in range(0, 128) for k in range(4) if (x + k) % sc.pick(5, 1, 1) == 0],
       bounds="chords over and under each of the 128 notes of MIDI, at any velocity")
def pitches(ctx, case):
    x, k = case
    shape = ([0], [0, 4, 7], [0, -12, 3, 6], [0, 12, -5, 5])[k]
    events = [(0, 1.25, x + y, (0, 127, 1)[k % 3], "c") for y in shape if 0 <= x + y < 128]
    check_chord(ctx, events, 1.25)
    check_chord(ctx, events[::-1] + [(0, 0.625, 127 - x, 0, "d")], 2.5, modes=(0, 3))


SCALES = (2.0 ** -10, 2.0 ** -5, 0.5, 1, 2, 16, 64, 1024)
SHAPES = ((0, 4, 7), (0, 3, 7), (0, 2), (0, 1, 2), (0, 7, 10), (0, 4, 8, 10), (1, 5, 6, 11), (0, 3, 6, 9), tuple(range(12)))


@suite("scales", lambda sc: [c for i, c in enumerate(product(SHAPES, SCALES, SCALES)) if i % sc.pick(7, 1, 1) == 0],
       bounds="9 sets of notes, from a thousandth of a beat to a thousand beats long, in patterns as different")
def scaled(ctx, case):
    shape, note, total = case
    check_chord(ctx, notes([60 + x for x in shape], (1.25 * note,)), 1.25 * total, modes=(0, 3))
    check_chord(ctx, notes([60 + x for x in shape], (1.25 * note, 2.5 * note, 3.75 * note)), 1.25 * total, modes=(1, 2))
    check_chord(ctx, notes([60 + x for x in shape], (1.25 * note, 1.25 * note + 1.25 * 2.0 ** -12)), 1.25 * total, modes=(0, 3))


@suite("rich", lambda sc: [(n, k) for n in range(5, 40, sc.pick(7, 3, 1)) for k in range(sc.pick(2, 4, 12))],
       bounds="5..39 different notes, each several times, over each other or one after the other")
def rich(ctx, case):
    n, k = case
    events = [(i * (0, 0.625, 1.25, 2.5)[(j + k) % 4], 1.25 * (1 + (j + i) % 3), 30 + j * (1, 5, 7, 2)[k % 4] % 60, 80, "t")
              for j in range(n) for i in range(1 + (j * (k + 3)) % 4)]
    check_chord(ctx, events, 5, modes=(k % 4, 3 - k % 4))
    check_chord(ctx, sorted(events)[::-1], 1.25, modes=(0,))


@suite("repeated", lambda sc: [(n, m, k) for n in range(1, 13) for m in (1, 4) for k in range(sc.pick(2, 9, 60))],
       bounds="notes that come 1..12 times, in patterns of odd lengths")
def repeated(ctx, case):
    n, m, k = case
    events = [(i * 1.25, 1.25 * (1 + i % m), 60 + y, 80, "t") for j, y in enumerate(SHAPES[k % 9]) for i in range(1 + (n * (j + 1) + k) % n)]
    for total in (1.25 * n, 5 / 16.0, 3.125):
        check_chord(ctx, events, total, modes=(k % 4, 3 - k % 4))


@suite("varied", lambda sc: varied(sc, sc.pick((3,), (3, 10, 40), (3, 10, 40, 140)), comb=7), bounds=VARIED)
def of_the_family(ctx, case):
    p = varied_pattern(case)
    check_chord(ctx, evs(p), p.duration, exact=False)
    check_chord(ctx, evs(p), 1.7, exact=False, modes=(0,))
