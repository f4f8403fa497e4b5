# -*- coding: utf-8 -*-
"""Patterns from plain tuples and back, and comparisons."""
from __future__ import absolute_import, division, print_function

import glob
import math
import os

from core import check, fail, same, show
from gsapi import gspattern

EPS = 1e-7
Event, Pattern = gspattern.Event, gspattern.Pattern


def event(t):
    """(start, duration, pitch, velocity, tag) -> Event"""
    return Event(startTime=t[0], duration=t[1], pitch=t[2], velocity=t[3], tag=t[4])


def tup(e):
    return (e.startTime, e.duration, e.pitch, e.velocity, e.tag)


def pattern(events, duration, **kw):
    attrs = {k: kw.pop(k) for k in list(kw) if k in ("startTime", "resolution", "originPattern")}
    p = Pattern(duration=duration, events=[event(t) for t in events], **kw)
    for k in attrs:
        setattr(p, k, attrs[k])
    return p


def evs(p):
    """the events in the order of the list"""
    return [tup(e) for e in p.events]


def order(t):
    return (t[0], t[1], t[2], t[3], repr_tag(t[4]))


def repr_tag(tag):
    """the same text for equal tags (frozensets, and unicode in Python 2)"""
    if isinstance(tag, (list, tuple)):
        return "(" + ",".join(repr_tag(x) for x in tag) + ")"
    if isinstance(tag, frozenset):
        return "{" + ",".join(sorted(repr_tag(x) for x in tag)) + "}"
    if isinstance(tag, (int, float)):
        return "<%s>" % float(tag)
    return "%s" % (tag,)


def bag(p):
    """the events, whatever their order"""
    return sorted((tup(e) for e in (p.events if hasattr(p, "events") else p)), key=order)


def sortbag(tuples):
    return sorted(tuples, key=order)


META = ("duration", "bpm", "timeSignature", "key", "originFilePath", "name", "startTime", "resolution")


def meta(p, leave=()):
    return {k: getattr(p, k) for k in META if k not in leave}


def snap(p):
    """everything of a pattern that a caller can see"""
    return (evs(p), meta(p), {k: snap(v) for k, v in p.viewpoints.items()})


def near(a, b, eps=EPS):
    return abs(a - b) <= eps


def same_bag(got, want, what, eps=0):
    """equal multisets of event tuples; with eps, starts and durations may differ that much"""
    if not eps:
        same(sortbag(got), sortbag(want), what)
        return
    def rough(t):
        return (round(t[0], 5), repr_tag(t[4]), t[2], t[3], round(t[1], 5))
    g, w = sorted(got, key=rough), sorted(want, key=rough)
    ok = len(g) == len(w)
    if ok:
        for a, b in zip(g, w):
            if not (near(a[0], b[0], eps) and near(a[1], b[1], eps) and a[2:4] == b[2:4] and a[4] == b[4]):
                ok = False
                break
    if not ok:
        # the rounding may have changed the order: match them one by one
        left = list(w)
        for a in g:
            for b in left:
                if near(a[0], b[0], eps) and near(a[1], b[1], eps) and a[2:4] == b[2:4] and a[4] == b[4]:
                    left.remove(b)
                    break
            else:
                fail("%s\n   unexpected %s\n   got  %s\n   want %s" % (what, show(a), show(g), show(w)))
        if left:
            fail("%s\n   missing %s\n   got  %s\n   want %s" % (what, show(left), show(g), show(w)))


def match(got, want, eps=EPS):
    """equal multisets of event tuples, but for rounding errors in starts and durations"""
    left = list(want)
    for a in got:
        for b in left:
            if near(a[0], b[0], eps) and near(a[1], b[1], eps) and a[2:] == b[2:]:
                left.remove(b)
                break
        else:
            return False
    return not left


def not_shared(a, b, what):
    ids = {id(e) for e in a}
    check(not any(id(e) in ids for e in b), "%s: events are shared with the original", what)


def kinds(starts, durs, voices, vel=80):
    """event tuples; voices are (pitch, tag) or (pitch, tag, velocity)"""
    return [(s, d, v[0], v[2] if len(v) > 2 else vel, v[1]) for s in starts for d in durs for v in voices]


CORPUS = "/corpora"


def corpus(*parts):
    return sorted(glob.glob(os.path.join(CORPUS, *parts)))


def ladder(n, step=0.5, dur=0.75, tags=("k", "s", ("a", "b")), pitch=36):
    """n regular events, for what only shows with many"""
    return [(i * step, dur, pitch + (i * 5) % 24, 1 + (i * 7) % 127, tags[i % len(tags)]) for i in range(n)]


def end(t):
    return t[0] + t[1]


def gaps(intervals, stop):
    """what [0, stop) has that the intervals do not cover"""
    res, at = [], 0
    for a, b in sorted(intervals):
        if a > at:
            res.append((at, min(a, stop)))
        at = max(at, b)
    if at < stop:
        res.append((at, stop))
    return [(a, b) for a, b in res if b > a]


def chunks(a, b, size):
    """[a, b) in pieces of size, the last one maybe shorter"""
    if not size > 0:
        return [(a, b - a)]
    res, n = [], 0
    while b - (a + n * size) > size:
        res.append((a + n * size, size))
        n += 1
    res.append((a + n * size, b - (a + n * size)))
    return res


# A family of patterns that goes where hand-picked ones do not: many events, grids that are not exact in binary,
# onsets a hair apart, extreme and odd values of each field, every order of the list, and unusual other fields.

TIMES = {
    "quarter": lambda i: i * 0.25,
    "third": lambda i: i / 3.0,
    "tenth": lambda i: i * 0.1,
    "close": lambda i: (i // 3) * 0.5 + (i % 3) * 0.002,
    "ticks": lambda i: i * 241 / 960.0,
    "stacked": lambda i: (i // 5) * 0.75,
    "far": lambda i: 1000 + i * 1.5,
    "gap": lambda i: i * 0.5 + (i // 4) * 9.3,
}
DURATIONS = {
    "step": lambda i: 0.25,
    "mixed": lambda i: (0.1, 1 / 3.0, 2, 7.5, 9.25)[i % 5],
    "short": lambda i: 0.001 * (1 + i % 4),
    "long": lambda i: 20 + i % 3,
    "exact": lambda i: (0.125, 0.5 + 2.0 ** -23, 2, 7.5, 9.25)[i % 5],
    "over": lambda i: 0.2504,
    "nearly": lambda i: 0.5 + 0.0015 * (i % 5),
}
ODD = (("a", "b"), ("b", "a"), "silence", 1, "1", None, "", 2.5, frozenset(["a", "b"]), ("a",), "a", ())
VOICES = {
    "two": lambda i: ("k", "s")[i % 2],
    "odd": lambda i: ODD[i % len(ODD)],
    "many": lambda i: "tag%d" % (i % 21 if i < 63 else 21 + i * 5 % 76),
    "one": lambda i: "k",
}
NOTES = {
    "all": lambda i: ((i * 37) % 128, (0, 1, 64, 127, 126)[i % 5]),
    "top": lambda i: (127 - i % 2, 127),
    "low": lambda i: (i % 2, 0 if i % 3 else 1),
    "same": lambda i: (60, 100),
}
FIELDS = (
    dict(),
    dict(name="a very long name of more than sixteen letters", bpm=133.75, timeSignature=(6, 8), key="Ebm"),
    dict(name="", bpm=61.3, timeSignature=(5, 16), startTime=2.5, resolution=480, originFilePath="/x y/z.mid"),
    dict(name=u"\xe9", bpm=300.125, timeSignature=[3, 1], key="F#", startTime=1000),
)


def varied_events(case):
    """the events of one member of the family"""
    n, time, dur, voice, note, order = case[:6]
    res = [(TIMES[time](i), DURATIONS[dur](i)) + NOTES[note](i) + (VOICES[voice](i),) for i in range(n)]
    if order == "down":
        return res[::-1]
    if order == "mixed":
        return res[1::2] + res[0::2][::-1]
    return res


def varied(sc, sizes=None, times=None, durs=None, voices=None, comb=1):
    """members of the family: for the small sizes the whole product of times, durations, voices and orders, with notes
    and other fields in turn; every 7th (or more) of it for the large ones"""
    sizes = sizes or sc.pick((3, 10), (3, 10, 40, 140), (3, 10, 40, 140, 300))
    k = 0
    for n in sizes:
        teeth = (1 if n < 20 else 7 if n < 100 else 23) * (comb if sc.level < 2 else 1) * (5 if sc.level == 0 else 1)
        for time in times or sorted(TIMES):
            for dur in durs or sorted(DURATIONS):
                for voice in voices or sorted(VOICES):
                    for order in ("up", "down", "mixed"):
                        k += 1
                        if k % teeth == 0 or teeth == 1:
                            j = k // teeth
                            yield (n, time, dur, voice, sorted(NOTES)[j % 4], order, (j // 4 + j) % 4)


def varied_pattern(case, extra=0.0, **kw):
    """a pattern of the family that lasts a little more than its events"""
    events = varied_events(case)
    fields = dict(FIELDS[case[6]])
    fields.update(kw)
    total = max([0] + [t[0] + t[1] for t in events])
    return pattern(events, fields.pop("duration", total + extra), **fields)


VARIED = ("patterns of 3..140 (thorough: 300) events: products of 8 grids of onsets (thirds, tenths, a hair apart, "
          "stacked, after 1000 beats), 5 series of durations, 4 of tags (odd types, 21 kinds), 3 orders, with "
          "extreme pitches and velocities, names, meters and tempi in turn")
