# -*- coding: utf-8 -*-
"""The operations that edit a pattern in place, and what each of them may do: a
relation between the pattern before and after it, written from what the
operation promises and independent of how gsapi carries it out.

An operation is a tuple (name, arguments...). `step` executes it and checks the
relation; the relations leave open what is not promised (which of several events
that start together survives, the order of the list).
"""
from __future__ import absolute_import, division, print_function

import math

from core import check, fail, same, show
from lib import EPS, bag, evs, event, meta, near, order, repr_tag, same_bag, snap, sortbag, gaps, chunks, end, match

NAMES = ["C", "C#", "D", "Eb", "E", "F", "F#", "G", "Ab", "A", "Bb", "B"]


class State(object):
    """a pattern at one moment"""

    def __init__(self, p):
        self.evs = evs(p)
        self.duration = p.duration
        self.meta = meta(p, ("duration",))
        self.meta["viewpoints"] = {k: snap(v) for k, v in p.viewpoints.items()}

    def __repr__(self):
        return "%r, duration %r" % (self.evs, self.duration)


def by_voice(tuples, k):
    """{voice: tuples}; k is the field that makes the voice, 2 the pitch and 4 the tag"""
    res = {}
    for t in tuples:
        res.setdefault(t[k], []).append(t)
    return res


def in_order(p, what):
    starts = [e.startTime for e in p.events]
    check(all(a <= b for a, b in zip(starts, starts[1:])), "%s: not in time order %r", what, starts)


def keeps(before, after, what, duration=True):
    """nothing but the events (and maybe the duration) changed"""
    same(after.meta, before.meta, what + ": other fields changed")
    if duration:
        same(after.duration, before.duration, what + ": duration")


def groups(tuples, eps=0):
    """tuples by start time, in time order; starts less than eps apart are the same"""
    res = []
    for t in sorted(tuples, key=order):
        if res and t[0] - res[-1][0] <= eps:
            res[-1][1].append(t)
        else:
            res.append((t[0], [t]))
    return res


# each checker: (before, after, pattern, what, arguments...)

def overlaps(before, after, p, what, byPitch=False, eps=0):
    """per voice: one of the events of each onset is left, shortened to end by the next one"""
    keeps(before, after, what)
    in_order(p, what)
    k = 2 if byPitch else 4
    want, got = by_voice(before.evs, k), by_voice(after.evs, k)
    check(set(got) == set(want), "%s: voices %r", what, sorted(got, key=repr_tag))
    for voice in want:
        old, new = groups(want[voice], eps), groups(got[voice], eps)
        same([g[0] for g in new], [g[0] for g in old], "%s: onsets of %r" % (what, voice))
        for i, (start, left) in enumerate(new):
            check(len(left) == 1, "%s: %r start together", what, left)
            room = old[i + 1][0] - start if i + 1 < len(old) else float("inf")
            allowed = [(start, min(t[1], room)) + t[2:] for t in old[i][1]]
            check(any(near(left[0][1], a[1]) and left[0][2:] == a[2:] for a in allowed),
                  "%s: %r is none of %r", what, left[0], allowed)


def silences(before, after, p, what, maxSilence=0, perTag=False, tag="silence", pitch=0, eps=EPS):
    """the events as before, and silences in exactly the gaps, in pieces of at most maxSilence"""
    keeps(before, after, what)
    if not perTag:
        in_order(p, what)
    want = list(before.evs)
    voices = by_voice(before.evs, 4).values() if perTag else [before.evs]
    for voice in voices:
        for a, b in gaps([(t[0], t[0] + t[1]) for t in voice], before.duration):
            for start, length in chunks(a, b, maxSilence):
                want.append((start, length, pitch, 0, tag))
    # steps that are not exact in binary may leave pieces of the size of a rounding error
    if all(x * 4096 % 1 == 0 for t in before.evs for x in t[:2] + (maxSilence, before.duration)):
        eps = 0
    got, tiny = after.evs, lambda t: eps and t[1] <= eps
    if any(t[0] > before.duration for t in before.evs):
        # whether silences lead on to an event that begins after the end is not told
        new = lambda t: t[2:] == (pitch, 0, tag) and t not in before.evs
        got = [(t[0], min(t[1], before.duration - t[0])) + t[2:] if new(t) else t
               for t in after.evs if not new(t) or t[0] < before.duration]
    same_bag([t for t in got if not tiny(t)], [t for t in want if not tiny(t)], what, eps)


def on_grid(value, step, half):
    """(nearest multiples of step) of value: one, or at a tie the one `half` asks for"""
    n = math.floor(value / step)
    rest = value / step - n
    if near(rest, 0.5, 1e-9):
        if value * 1024 != int(value * 1024) or step * 1024 != int(step * 1024):
            # a tie but for the rounding of floats: either
            return [n * step, (n + 1) * step]
        return [(n if half == "down" else n + 1) * step]
    return [(n if rest < 0.5 else n + 1) * step]


def quantized(before, after, p, what, step=0.25, starts=True, durations=True):
    """starts to the nearest step (ties before), durations to the nearest step (ties longer), at least one"""
    keeps(before, after, what)
    check(len(after.evs) == len(before.evs), "%s: %d events", what, len(after.evs))
    left = list(after.evs)
    for t in before.evs:
        s = on_grid(t[0], step, "down") if starts else [t[0]]
        d = [max(step, x) for x in on_grid(t[1], step, "up")] if durations else [t[1]]
        eps = EPS if starts or durations else 0
        found = [u for u in left if u[2:] == t[2:] and any(near(u[0], x, eps if starts else 0) for x in s) and
                 any(near(u[1], x, eps if durations else 0) for x in d)]
        check(found, "%s: %r became none of start %r, duration %r: %r", what, t, s, d, after.evs)
        left.remove(found[0])


def aligned(before, after, p, what, step, repeatable=("silence",), result=None):
    """one event of one step per tag and occupied step, none from the end of the pattern on"""
    keeps(before, after, what)
    in_order(p, what)
    if result is not None:
        check(result is p, "%s: does not return the pattern", what)
    slots = {}
    for t in before.evs:
        n = max(1, int(t[1] / step)) if t[4] in repeatable else 1
        for i in range(n):
            k = int(math.floor((t[0] + i * step) / step + 0.5))
            if k * step < before.duration:
                slots.setdefault((k, t[4]), []).append(t[2:])
    for t in after.evs:
        k = int(round(t[0] / step))
        check(near(t[0], k * step) and near(t[1], step), "%s: off the grid %r", what, t)
        allowed = slots.pop((k, t[4]), None)
        check(allowed is not None, "%s: unexpected %r in %r", what, t, after.evs)
        check(t[2:] in allowed, "%s: %r is none of %r", what, t, allowed)
    check(not slots, "%s: nothing at %r in %r", what, sorted(slots, key=lambda x: (x[0], repr_tag(x[1]))), after.evs)


def legato(before, after, p, what, byPitch=True):
    """each event of a voice lasts until the next one of it, or until the end; none gets shorter"""
    keeps(before, after, what)
    k = 2 if byPitch else 4
    want, got = by_voice(before.evs, k), by_voice(after.evs, k)
    check(set(got) == set(want), "%s: voices %r", what, sorted(got, key=repr_tag))
    for voice in want:
        old, new = groups(want[voice]), groups(got[voice])
        same([g[0] for g in new], [g[0] for g in old], "%s: onsets of %r" % (what, voice))
        for i, (start, events) in enumerate(old):
            limit = old[i + 1][0] if i + 1 < len(old) else before.duration
            # one of the events that start together is the one before the next
            options = []
            for j, t in enumerate(events):
                options.append(events[:j] + [(start, max(t[1], limit - start)) + t[2:]] + events[j + 1:])
            check(any(match(new[i][1], o) for o in options), "%s: %r became %r instead of one of %r",
                  what, events, new[i][1], options)


def previous(before, after, p, what):
    """each event lasts until the next onset of any event, or until the end"""
    keeps(before, after, what)
    onsets = sorted(set(t[0] for t in before.evs)) + [before.duration]
    same_bag(after.evs, [(t[0], onsets[onsets.index(t[0]) + 1] - t[0]) + t[2:] for t in before.evs],
             what, EPS)


def stretched(before, after, p, what, ratio):
    keeps(before, after, what, duration=False)
    check(near(after.duration, before.duration * ratio), "%s: duration %r", what, after.duration)
    same_bag(after.evs, [(t[0] * ratio, t[1] * ratio) + t[2:] for t in before.evs], what, EPS)


def pitch_name(pitch):
    return NAMES[pitch % 12] + str(pitch // 12 - 1)


def transposed(before, after, p, what, interval):
    keeps(before, after, what)
    same_bag(after.evs, [t[:2] + (t[2] + interval, t[3], pitch_name(t[2] + interval)) for t in before.evs], what)


def has_tag(tag, wanted):
    return tag == wanted or (isinstance(tag, (tuple, frozenset)) and wanted in tag)


def tags_removed(before, after, p, what, tags):
    keeps(before, after, what)
    same_bag(after.evs, [t for t in before.evs if not any(has_tag(t[4], w) for w in tags)], what)


def removed(before, after, p, what, t):
    keeps(before, after, what)
    same_bag(after.evs, [u for u in before.evs if u != t], what)


def added(before, after, p, what, t):
    keeps(before, after, what, duration=False)
    same_bag(after.evs, before.evs + [t], what)
    same(after.duration, max([before.duration] + [end(u) for u in after.evs]), what + ": duration")


def to_last(before, after, p, what, onlyIfBigger=True):
    keeps(before, after, what, duration=False)
    same_bag(after.evs, before.evs, what)
    last = max([end(t) for t in before.evs]) if before.evs else None
    want = before.duration
    if last is not None and (last > want or not onlyIfBigger):
        want = last
    same(after.duration, want, what + ": duration")


def to_bar(before, after, p, what):
    keeps(before, after, what, duration=False)
    same_bag(after.evs, before.evs, what)
    beats = before.meta["timeSignature"][0]
    want = math.ceil(before.duration / beats) * beats
    check(near(after.duration, want), "%s: duration %r instead of %r", what, after.duration, want)


def sorted_only(before, after, p, what):
    keeps(before, after, what)
    in_order(p, what)
    same_bag(after.evs, before.evs, what)


def step(p, op):
    """executes one operation on p and checks what it did; returns the state after it"""
    name, args = op[0], op[1:]
    before = State(p)
    what = "%s%r of %r" % (name, tuple(args), before)
    if name == "removeOverlapped":
        p.removeOverlapped(*args)
        after = State(p)
        overlaps(before, after, p, what, *args)
    elif name == "fillWithSilences":
        p.fillWithSilences(*args)
        after = State(p)
        silences(before, after, p, what, *args)
    elif name == "quantize":
        p.quantize(*args)
        after = State(p)
        quantized(before, after, p, what, *args)
    elif name == "alignOnGrid":
        args = [list(a) if isinstance(a, tuple) else a for a in args]
        result = p.alignOnGrid(*args)
        after = State(p)
        check(result is p, "%s: does not return the pattern", what)
        aligned(before, after, p, what, *args)
    elif name == "applyLegato":
        p.applyLegato(*args)
        after = State(p)
        legato(before, after, p, what, *args)
    elif name == "fillWithPreviousEvent":
        p.fillWithPreviousEvent()
        after = State(p)
        previous(before, after, p, what)
    elif name == "timeStretch":
        p.timeStretch(*args)
        after = State(p)
        stretched(before, after, p, what, *args)
    elif name == "transpose":
        p.transpose(*args)
        after = State(p)
        transposed(before, after, p, what, *args)
    elif name == "removeByTags":
        p.removeByTags(list(args[0]))
        after = State(p)
        tags_removed(before, after, p, what, *args)
    elif name == "removeEvent":
        p.removeEvent(event(args[0]))
        after = State(p)
        removed(before, after, p, what, *args)
    elif name == "addEvent":
        p.addEvent(event(args[0]))
        after = State(p)
        added(before, after, p, what, *args)
    elif name == "durationToLastEvent":
        p.durationToLastEvent(*args)
        after = State(p)
        to_last(before, after, p, what, *args)
    elif name == "durationToBar":
        p.durationToBar()
        after = State(p)
        to_bar(before, after, p, what)
    elif name == "reorderEvents":
        p.reorderEvents()
        after = State(p)
        sorted_only(before, after, p, what)
    else:
        raise ValueError(name)
    return after
