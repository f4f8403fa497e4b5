# -*- coding: utf-8 -*-
"""C33 names of pitches, keys and chords denote the notes they stand for"""
from __future__ import absolute_import, division, print_function

from core import check, fail, product, same, sequences, suite
from lib import evs, pattern
from gsapi import gsdefs, gsutil

NATURALS = dict(zip("CDEFGAB", (0, 2, 4, 5, 7, 9, 11)))
LETTERS = "CDEFGAB"
ALTER = {"": 0, "#": 1, "##": 2, "b": -1, "bb": -2}


def read(name):
    """(letter, alteration) of a name such as F## or Eb"""
    check(len(name) and name[0] in LETTERS and name[1:] in ALTER, "%r is not the name of a note", name)
    return name[0], ALTER[name[1:]]


def semitone(name):
    letter, alter = read(name)
    return NATURALS[letter] + alter


def sounds(name):
    return semitone(name) % 12


# intervals: (steps of the scale, semitones)
UNISON, M2, m3, M3, P4, d5, P5, A5, M6, d7, m7, M7 = ((0, 0), (1, 2), (2, 3), (2, 4), (3, 5), (4, 6), (4, 7), (4, 8), (5, 9), (6, 9),
                                                     (6, 10), (6, 11))
M9, P11, A11 = (8, 14), (10, 17), (10, 18)
SPELLED = {
    "0": [], "5": [P5], "maj(omit5)": [M3], "min(omit5)": [m3], "d5": [d5], "maj": [M3, P5], "min": [m3, P5], "aug": [M3, A5], "dim": [m3, d5],
    "sus4": [P4, P5], "sus2": [M2, P5], "7": [M3, P5, m7], "7sus4": [P4, P5, m7], "maj7": [M3, P5, M7], "min7": [m3, P5, m7],
    "min(maj7)": [m3, P5, M7], "min7(b5)": [m3, d5, m7], "dim7": [m3, d5, d7], "6": [M3, P5, M6], "min6": [m3, P5, M6], "add9": [M3, P5, M9],
    "min(add9)": [m3, P5, M9], "add11": [M3, P5, P11], "min(add11)": [m3, P5, P11], "add#11": [M3, P5, A11], "min(add#11)": [m3, P5, A11],
    "9": [M3, P5, m7, M9], "maj9": [M3, P5, M7, M9], "min9": [m3, P5, m7, M9], "11": [M3, P5, m7, M9, P11], "maj11": [M3, P5, M7, M9, P11],
    "min11": [m3, P5, m7, M9, P11], "#11": [M3, P5, m7, M9, A11], "maj#11": [M3, P5, M7, M9, A11], "min#11": [m3, P5, m7, M9, A11]}
SEMITONES = {"b9": [0, 4, 7, 10, 13], "13": [0, 4, 7, 10, 14, 17, 21]}


def spell(root, interval):
    """the name of the note at an interval over a root, or None when it has more than two accidentals"""
    letter, alter = read(root)
    k = LETTERS.index(letter) + interval[0]
    natural = NATURALS[LETTERS[k % 7]] + 12 * (k // 7)
    alter = NATURALS[letter] + alter + interval[1] - natural
    names = [n for n, a in ALTER.items() if a == alter]
    return LETTERS[k % 7] + names[0] if names else None


def gen_chords(sc):
    for root in range(40):
        for kind in sorted(SPELLED):
            yield (root, kind)


@suite("chords", gen_chords, bounds="all 35 kinds of chords spelled from all 35 notes, in any octave")
def chords(ctx, case):
    root, kind = case
    name = gsdefs.pitch40[root]
    if not name:
        return
    structure = list(gsdefs.chordIntervals[kind])
    got = gsutil.makeChord(root, structure)
    ctx.op()
    what = "%s on %s" % (kind, name)
    same(structure, gsdefs.chordIntervals[kind], what + ": the structure changed")
    same(len(got), 1 + len(SPELLED[kind]), what + ": number of notes")
    for i, interval in enumerate([UNISON] + SPELLED[kind]):
        want = spell(name, interval)
        if want is None:
            continue   # base 40 has no such note
        same(got[i], want, "%s: note %d of %r" % (what, i, got))
        same(sounds(got[i]), (sounds(name) + interval[1]) % 12, what + ": pitch")
    same(gsutil.makeChord(root + 40, structure), got, what + ", an octave higher")
    if kind in gsdefs.chordTypes:
        same([x % 12 for x in gsdefs.chordTypes[kind]], [0] + [i[1] % 12 for i in SPELLED[kind]], what + ": semitones")


@suite("types", lambda sc: sorted(set(SPELLED) | set(SEMITONES)), bounds="the semitones of all kinds of chords, in close position")
def types(ctx, kind):
    if kind in gsdefs.chordTypes:
        want = SEMITONES.get(kind) or [0] + [i[1] for i in SPELLED[kind]]
        same(list(gsdefs.chordTypes[kind]), want, "chord type %r" % kind)
    else:
        check(kind in ("add#11", "min(add#11)", "#11", "maj#11", "min#11"), "no chord type %r", kind)
    if kind in SPELLED:
        total, want = 0, [UNISON] + SPELLED[kind]
        for i, step in enumerate(gsdefs.chordIntervals[kind]):
            total += step
            # in base 40 an octave is 40, and a step of the scale 6, less 1 for each of its semitones (E to F, B to C)
            steps, semis = want[i + 1]
            same(total, base40(steps, semis), "chord interval %d of %r" % (i, kind))
    ctx.op(2)


def base40(steps, semitones):
    octaves, steps = divmod(steps, 7)
    semitones -= 12 * octaves
    return octaves * 40 + (0, 6, 12, 17, 23, 29, 35)[steps] + semitones - (0, 2, 4, 5, 7, 9, 11)[steps]


@suite("base 40", lambda sc: list(product(range(40), range(40))), bounds="all pairs of base-40 numbers: equal differences are equal intervals")
def base_40(ctx, case):
    a, b = (gsdefs.pitch40[i] for i in case)
    same(len(gsdefs.pitch40), 40, "notes of base 40")
    holes = [i for i, n in enumerate(gsdefs.pitch40) if not n]
    same(holes, [5, 11, 22, 28, 34], "holes in base 40")
    if a and b:
        la, lb = LETTERS.index(read(a)[0]), LETTERS.index(read(b)[0])
        same(case[1] - case[0], base40(lb, semitone(b)) - base40(la, semitone(a)), "%s to %s" % (a, b))
    if case[0] != case[1]:
        check(not a or a != b, "%r twice", a)
    ctx.op()


@suite("pitch classes", lambda sc: list(product(range(-12, 140), ("#", "b"))), bounds="all pitches and negative ones, both spellings")
def classes(ctx, case):
    pitch, alt = case
    name = gsutil.pc2note(pitch, alt)
    number = gsutil.pc2base40(pitch, alt)
    what = "pitch %d with %s is %r, %r" % (pitch, alt, name, number)
    same(sounds(name), pitch % 12, what)
    check(read(name)[1] in (0, 1 if alt == "#" else -1), "%s: wrong accidental", what)
    check(len(name) == 1 or pitch % 12 not in NATURALS.values(), "%s: needs no accidental", what)
    same(gsdefs.pitch40[number], name, what)
    if alt == "#":
        same((gsutil.pc2note(pitch), gsutil.pc2base40(pitch)), (name, number), what + ": by default")
    # texts made at run time are as good as literals
    same((gsutil.pc2note(pitch, (alt + " ").strip()), gsutil.pc2base40(pitch, (alt + " ").strip())),
         (name, number), what + ": other text")
    for f in (gsutil.pc2note, gsutil.pc2base40):
        for bad in ("x", "", "##", None):
            try:
                f(pitch, bad)
            except Exception:
                continue
            fail("%s accepts the spelling %r" % (f.__name__, bad))
    ctx.op(6)


@suite("pitch names", lambda sc: range(0, 128), bounds="all 128 pitches, with names of 12 notes in three spellings, and scales of other sizes")
def names(ctx, pitch):
    octave, note = pitch // 12 - 1, pitch % 12
    got = gsutil.pitch2name(pitch, gsdefs.defaultPitchNames)
    name = got[:len(got) - len(str(octave))]
    check(got.endswith(str(octave)) and sounds(name) == note, "pitch %d is %r", pitch, got)
    check(isinstance(got, str), "%r is no text", got)
    same(name, gsdefs.defaultPitchNames[note], "pitch %d" % pitch)
    same(sounds(gsdefs.defaultPitchNames[note]), note, "default names")
    for alt in "#b":
        ns = [gsutil.pc2note(i, alt) for i in range(12)]
        same(gsutil.pitch2name(pitch, ns), gsutil.pc2note(pitch, alt) + str(octave), "pitch %d with %s" % (pitch, alt))
    key = gsutil.pc2note(pitch, "#").lower() + str(octave)
    same(gsdefs.noteMap[key], pitch, "note map of %r" % key)
    for n in (5, 7, 19):
        letters = ["n%d_" % i for i in range(n)]
        same(gsutil.pitch2name(pitch, letters), "n%d_%d" % (pitch % n, pitch // n - 1), "pitch %d of a scale of %d notes" % (pitch, n))
    same(len(gsdefs.noteMap), 128, "notes in the note map")
    p = pattern([(0, 1, pitch, 80, "x")], 4)
    p.transpose(0)
    same(p.events[0].tag, got, "tag of a note that was transposed by 0")
    ctx.op(6)


DRUMS = ("Acoustic Bass Drum,Bass Drum 1,Side Stick,Acoustic Snare,Hand Clap,Electric Snare,Low Floor Tom,Closed Hi Hat,High Floor Tom,"
         "Pedal Hi-Hat,Low Tom,Open Hi-Hat,Low-Mid Tom,Hi-Mid Tom,Crash Cymbal 1,High Tom,Ride Cymbal 1,Chinese Cymbal,Ride Bell,Tambourine,"
         "Splash Cymbal,Cowbell,Crash Cymbal 2,Vibraslap,Ride Cymbal 2,Hi Bongo,Low Bongo,Mute Hi Conga,Open Hi Conga,Low Conga,High Timbale,"
         "Low Timbale,High Agogo,Low Agogo,Cabasa,Maracas,Short Whistle,Long Whistle,Short Guiro,Long Guiro,Claves,Hi Wood Block,"
         "Low Wood Block,Mute Cuica,Open Cuica,Mute Triangle,Open Triangle").split(",")


@suite("drums", lambda sc: range(35, 82), bounds="all drums of General MIDI, and the simple maps")
def drums(ctx, number):
    found = [k for k, v in gsdefs.generalMidiDrums.items() if v == number]
    same(found, [DRUMS[number - 35]], "General MIDI drum %d" % number)
    same(len(gsdefs.generalMidiDrums), 47, "General MIDI drums")
    for table in (gsdefs.simpleDrumMap, gsdefs.verySimpleDrumMap):
        check(len([k for k, v in table.items() if v == number]) <= 1, "drum %d has two names", number)
    for k, v in gsdefs.verySimpleDrumMap.items():
        same(gsdefs.simpleDrumMap[k], v, k)
    ctx.op()


@suite("keys", lambda sc: range(-7, 8), bounds="all 15 key signatures")
def keys(ctx, sharps):
    name = gsdefs.midiKey[sharps]
    minor = gsdefs.midiMinorKey[sharps]
    # the relative minor starts on the sixth note of the scale
    same(minor, spell(name, (5, 9)), "minor key of %d sharps" % sharps)
    same(len(gsdefs.midiMinorKey), 15, "minor keys")
    letter, alter = read(name)
    same(sounds(name), sharps * 7 % 12, "key of %d sharps" % sharps)
    # a major scale with one name per letter needs that many accidentals
    scale = [spell(name, (i, s)) for i, s in enumerate((0, 2, 4, 5, 7, 9, 11))]
    same(sum(read(n)[1] for n in scale), sharps, "accidentals of %s major" % name)
    same(len(gsdefs.midiKey), 15, "keys")
    ctx.op()
