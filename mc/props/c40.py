# -*- coding: utf-8 -*-
"""C40 a pattern reads as the sequence of its events"""
from __future__ import absolute_import, division, print_function

import re

from core import PY2, check, fail, product, same, sequences, suite
from lib import VARIED, Event, Pattern, event, evs, near, pattern, repr_tag, tup, varied, varied_pattern
from gsapi import gspattern, gstransformers

A, B, C = (0, 1, 60, 80, "k"), (0.5, 0.25, 61, 90, ("a", "b")), (2, 3, 0, 127, None)
D = (7.5, 0.125, 127, 1, "silence")
LINE = re.compile(r"^(.*) (-?\d+) (-?\d+) (-?\d+\.\d{4}) (-?\d+\.\d{4})$", re.DOTALL)


def ids(events):
    return [id(e) for e in events]


def text(x):
    return x.decode("utf-8") if PY2 and isinstance(x, str) else x


def refused(run, error):
    try:
        run()
    except error:
        return True
    return False


def slices(n):
    edges = [None] + list(range(-n - 1, n + 2))
    return [slice(a, b, c) for a in edges for b in edges for c in (None, 1, 2, -1)]


@suite("reading", lambda sc: sequences((A, B, C, D), 0, sc.pick(2, 4, 5)), bounds="all lists of up to 4 (thorough: 5) of 4 events: every index and slice, iteration, membership, unpacking")
def reading(ctx, case):
    p = pattern(case, 4)
    events = list(p.events)
    n = len(events)
    same(len(p), n, "length")
    check(bool(p) == bool(n), "truth of %r", case)
    for i in range(-n, n):
        check(p[i] is events[i], "p[%d] of %r", i, case)
    for i in (n, n + 1, -n - 1, 1000, -1000):
        check(refused(lambda: p[i], IndexError), "p[%d] of %d events", i, n)
    for s in slices(n):
        got = p[s]
        check(isinstance(got, list) and got is not p.events and ids(got) == ids(events[s]), "p[%r] of %r", s, case)
    same(ids(p), ids(events), "iteration")
    same(ids(x for e in p for x in p), ids(events * n), "iterations within one another")
    same(ids(reversed(p)), ids(events[::-1]), "iteration backwards")
    same(ids(sorted(p, key=lambda e: e.pitch)), ids(sorted(events, key=lambda e: e.pitch)), "sorted")
    for t in (A, B, C, D):
        same(event(t) in p, t in case, "%r in %r" % (t, case))
    check(A not in p and None not in p and "k" not in p, "membership of other things")
    same(gspattern.patternToList(p), [[t[2], t[0], t[1]] for t in case], "patternToList")
    check(ids(p.events) == ids(events) and evs(p) == list(case), "reading changed the pattern")
    ctx.op(2 * n + 12)


@suite("writing", lambda sc: product(sequences((A, B, C), 1, sc.pick(2, 3, 4)), (D, A)), bounds="all lists of up to 3 (thorough: 4) events: an event or several put at each index and slice")
def writing(ctx, case):
    start, new = list(case[0]), case[1]
    n = len(start)
    for i in range(-n, n):
        p = pattern(start, 4)
        p.viewpoints["v"] = pattern([A], 4)
        events = list(p.events)
        e = event(new)
        p[i] = e
        events[i] = e
        same(ids(p.events), ids(events), "p[%d] = an event" % i)
        same((p.duration, evs(p.viewpoints["v"]), len(p)), (4, [A], n), "other fields")
    for i in (n, -n - 1):
        p = pattern(start, 4)
        check(refused(lambda: p.__setitem__(i, event(new)), IndexError) and evs(p) == start, "p[%d] = an event, of %d", i, n)
    for s in slices(n)[::3]:
        p = pattern(start, 4)
        events = list(p.events)
        put = [event(new) for _ in events[s]]
        p[s] = put
        events[s] = put
        same(ids(p.events), ids(events), "p[%r] = as many events" % (s,))
    ctx.op(2 * n + len(slices(n)) // 3)


FIELDS = [(s, d, k, v, t) for s in (0, 0.5) for d in (1, 1.5) for k in (60, 61) for v in (80, 81) for t in ("k", "s", ("k",), None)]


@suite("equality", lambda sc: product(range(len(FIELDS)), range(len(FIELDS))), bounds="all pairs of 64 events, equal in some fields, and of the patterns made of them: equality of all fields, and its opposite")
def equality(ctx, case):
    s, t = FIELDS[case[0]], FIELDS[case[1]]
    a, b = event(s), event(t)
    want = s == t
    for x, y, what in ((a, b, "events"), (pattern([s], 4), pattern([t], 4), "patterns"), (pattern([A, s], 4), pattern([A, t], 4), "patterns of two")):
        check((x == y) is want and (y == x) is want and (x != y) is not want, "%s %r and %r: == is %r, != is %r", what, s, t, x == y, x != y)
        check(x == x and not x != x, "%s %r and itself", what, s)
        for other in (None, 1, "k", s, list(s), [a]):
            check(not x == other and x != other and not other == x and other != x, "%s %r and %r", what, s, other)
    p = pattern([s, t, A], 4)
    same(p.events.count(a), [s, t, A].count(s), "count")
    same(p.events.index(a), [s, t, A].index(s), "index")
    for k, v in (("duration", 5), ("startTime", 1), ("timeSignature", (3, 4))):
        q, r = pattern([s], 4), pattern([s], 4)
        setattr(q, k, v)
        check(q != r and not q == r, "patterns of different %s are equal", k)
        setattr(r, k, v)
        check(q == r and not q != r, "patterns of the same %s differ", k)
    ctx.op(20)


def same_line(line, t, what):
    got = LINE.match(line)
    check(got, "%s: %r", what, line)
    tag, pitch, velocity, start, duration = got.groups()
    check(text(tag) == text("%s" % (t[4],)) and int(pitch) == int(t[2]) and int(velocity) == int(t[3]) and near(float(start), t[0], 5.1e-5) and
          near(float(duration), t[1], 5.1e-5), "%s: %r of %r", what, line, t)


@suite("text", lambda sc: list(varied(sc, (1, 3, 10), voices=("two", "many", "one")))[::sc.pick(3, 1, 1)], bounds="each event and field in the text of " + VARIED)
def as_text(ctx, case):
    p = varied_pattern(case)
    if p.name is not None and any(ord(c) > 127 for c in text(p.name)):
        p.name = "plain"
    given = evs(p)
    for e in p.events:
        same_line(repr(e), tup(e), "text of an event")
        same(str(e), repr(e), "str and repr")
    for form in (repr, str):
        lines = form(p).split("\n")
        head, rest = lines[:lines.index("")], lines[lines.index("") + 1:]
        fields = dict(x.split(": ", 1) for x in head)
        same(sorted(fields), ["BPM", "Duration", "FilePath", "Key", "Name", "TimeSignature"], "fields")
        same((fields["Name"], fields["Key"], fields["FilePath"], fields["TimeSignature"]), (str(p.name), str(p.key), str(p.originFilePath), "%d/%d" % tuple(p.timeSignature)), "fields")
        check(near(float(fields["Duration"]), p.duration, 0.0051) and near(float(fields["BPM"]), p.bpm, 0.0051), "duration and tempo: %r", fields)
        same(rest[-1], "", "the end")
        same(len(rest) - 1, len(p.events), "number of events")
        for line, t in zip(rest, given):
            same_line(line, t, "line of an event")
    same(evs(p), given, "events")
    same(gspattern.patternToList(p), [[t[2], t[0], t[1]] for t in given], "patternToList")
    ctx.op(2 * len(given) + 3)


@suite("odd texts", lambda sc: product((("a", "b"), (), None, 1, 2.5, "", "two words", "C4", ("a",), "%s %d"), (0, 1e-4, 1234.5678, 99999), (0, 127)), bounds="events of odd tags and extreme times")
def odd_texts(ctx, case):
    tag, time, pitch = case
    t = (time, time + 0.25, pitch, 127 - pitch, tag)
    same_line(repr(event(t)), t, "text of an event")
    p = pattern([t, A, t], 4, name="n")
    lines = repr(p).split("\n")
    for line, u in zip(lines[-4:-1], (t, A, t)):
        same_line(line, u, "line of an event")
    c = gstransformers.EventChord(time, time + 0.25, [60, pitch], tag, "chord %d" % pitch)
    words = repr(c).rsplit(" ", 2)
    check(near(float(words[1]), time, 0.0051) and near(float(words[2]), time + 0.25, 0.0051), "times in the text of a chord: %r", words)
    same(words[0], "chord %d %s %s" % (pitch, tag if not isinstance(tag, tuple) else str(tag), [60, pitch]), "text of a chord")
    ctx.op(3)


@suite("construction", lambda sc: product((None, 0, 4), (0, 1, 3), (True, False)), bounds="patterns made of lists of 0, 1 and 3 events, and of nothing: nothing is shared between new patterns")
def construction(ctx, case):
    duration, n, named = case
    made = [event(t) for t in (A, B, C)[:n]]
    kw = {} if duration is None else {"duration": duration}
    p = Pattern(events=list(made), name="p" if named else None, **kw)
    check(ids(p.events) == ids(made) and p.duration == (duration or 0) and p.name == ("p" if named else None), "a new pattern of %r", case)
    a, b = Pattern(), Pattern()
    a.events.append(event(A))
    a.viewpoints["v"] = p
    same((len(b), b.viewpoints, len(Pattern()), Pattern().viewpoints), (0, {}, 0, {}), "new patterns share")
    same((b.duration, b.bpm, tuple(b.timeSignature), b.key, b.originFilePath, b.name, b.startTime, b.resolution, b.originPattern), (0, 120, (4, 4), None, None, None, 0, 960, None), "fields of a new pattern")
    same(tup(Event())[:4], (0, 1, 60, 80), "a new event")
    ctx.op(6)


METERS = ((4, 4), (2, 2), (8, 8), (4, 8), (8, 4), (3, 4), (6, 8), (6, 4), (3, 2), (12, 8), (1, 1), (2, 4), (1, 4), (1, 8), (5, 4), (7, 8), (16, 16), (2, 1))
TIMES = [x + k for x in (0, 1, 4, 7.5) for k in (0, 2.0 ** -40, 1e-6, 1e-4, 2.0 ** -11, 0.001, 0.01)]


@suite("nearly equal", lambda sc: [("meter", a, b) for a in METERS for b in METERS] + [("time", a, b) for a in TIMES for b in TIMES], bounds="all pairs of 18 meters, and of 28 times that differ by down to 2^-40, "
       "as the fields of patterns and events: only the same are equal")
def nearly_equal(ctx, case):
    kind, a, b = case
    want = a == b
    if kind == "meter":
        made = [(pattern([A], 4), pattern([A], 4))]
        made[0][0].timeSignature, made[0][1].timeSignature = a, b
    else:
        made = []
        for k in range(2):
            s, t = list(A), list(A)
            s[k], t[k] = a, b
            made += [(event(s), event(t)), (pattern([B, s], 9), pattern([B, t], 9))]
        for k in ("duration", "startTime"):
            x, y = pattern([A, B], 4), pattern([A, B], 4)
            setattr(x, k, a)
            setattr(y, k, b)
            made.append((x, y))
    for x, y in made:
        check((x == y) is want and (y == x) is want and (x != y) is not want, "%s %r and %r: == is %r, != is %r", kind, a, b, x == y, x != y)
        ctx.op(3)
