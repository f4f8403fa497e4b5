# -*- coding: utf-8 -*-
"""C10 tags are compared as wholes, and events and patterns by their fields"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, product, same, sequences, suite
from lib import VARIED, Event, Pattern, bag, event, evs, pattern, tup, varied, varied_pattern

TAGS = ("k", "kick", "ki", "", ("k", "s"), ("s", "k"), ("kick",), (), 1, ("C", "maj"), ("D", "maj"), "maj", None,
        ("a", 1), "a", (1,), 0, False, ("",))


def as_set(tag):
    return set(tag) if isinstance(tag, (tuple, frozenset)) else {tag}


@suite("pairs", lambda sc: product(TAGS, TAGS),
       bounds="all pairs of 19 tags: texts that contain each other, tuples, numbers, none")
def pairs(ctx, case):
    a, b = case
    e, f = event((0, 1, 60, 80, a)), event((1, 2, 61, 81, b))
    what = "tags %r and %r" % case
    same(e.isTag(b), a == b, what + ": isTag")
    same(e.allTagsAreEqualWith(f), a == b, what + ": allTagsAreEqualWith")
    same(bool(e.hasCommonTagWith(f)), bool(as_set(a) & as_set(b)), what + ": hasCommonTagWith")
    same(bool(e.hasCommonTagWith(f)), bool(f.hasCommonTagWith(e)), what + ": hasCommonTagWith is symmetric")
    for asked in ([b], (b,), [b, "no"], ["no", b], ["no"], []):
        want = any(ops.has_tag(a, w) for w in asked)
        same(bool(e.hasOneOfTags(asked)), want, what + ": hasOneOfTags(%r)" % (asked,))
    same((tup(e), tup(f)), ((0, 1, 60, 80, a), (1, 2, 61, 81, b)), what + ": changed")
    ctx.op(9)


@suite("identical", lambda sc: sequences(TAGS[:12] if sc.level else TAGS[:7], 0, sc.pick(1, 2, 3)),
       bounds="getIdenticalEvents in all patterns of 0..2 (thorough: 3) of 12 tags, for each of 19 tags")
def identical(ctx, case):
    p = pattern([(i, 1, 60 + i, 80, t) for i, t in enumerate(case)], 4)
    for asked in TAGS:
        e = event((9, 9, 9, 9, asked))
        for all_, chosen in ((True, lambda t: t == asked), (False, lambda t: bool(as_set(t) & as_set(asked)))):
            got = p.getIdenticalEvents(e, all_)
            same([id(x) for x in got], [id(x) for x in p.events if chosen(x.tag)],
                 "getIdenticalEvents(%r, %r) of %r" % (asked, all_, case))
            ctx.op()
        same([id(x) for x in p.getIdenticalEvents(e)], [id(x) for x in p.events if x.tag == asked],
             "getIdenticalEvents(%r) of %r" % (asked, case))


FIELDS = ((0, 0.5), (1, 1.25), (60, 61), (80, 81), ("k", ("k",)))


@suite("events", lambda sc: product(*(range(2) for _ in range(10))),
       bounds="all pairs of events with 2 values of each of the 5 fields")
def events(ctx, case):
    a = tuple(FIELDS[i][case[i]] for i in range(5))
    b = tuple(FIELDS[i][case[5 + i]] for i in range(5))
    e, f = event(a), event(b)
    f.originPattern = Pattern(name="other")
    same(e == f, a == b, "%r == %r" % (a, b))
    same(e != f, a != b, "%r != %r" % (a, b))
    same(f == e, a == b, "%r == %r" % (b, a))
    check(not e == a and e != a and not e == None and e != None, "an event is no tuple nor none")
    same((e in [f], f in [e]), (a == b, a == b), "in a list")
    ctx.op(5)


@suite("patterns", lambda sc: product(range(4), range(4), (4, 5, 4.25), ((4, 4), (3, 4), (4, 8)),
                                          (0, 2, 0.25)),
       bounds="all pairs of patterns of 4 lists of events, durations, meters and start times")
def patterns(ctx, case):
    i, j, duration, signature, start = case
    lists = ([], [(0, 1, 60, 80, "k")], [(0, 1, 60, 80, "k"), (1, 1, 60, 80, "k")], [(0, 1, 61, 80, "k")])
    a = pattern(lists[i], 4, name="a", bpm=1)
    b = pattern(lists[j], duration, timeSignature=signature, startTime=start, name="b", bpm=2)
    want = i == j and duration == 4 and signature == (4, 4) and start == 0
    same((a == b, b == a, a != b, b != a), (want, want, not want, not want), "patterns %r" % (case,))
    check(not a == 1 and a != 1 and not a == lists[i] and a != None, "a pattern is only equal to patterns")
    check(a == a.copy() and not a != a.copy(), "a copy is equal")
    ctx.op(6)


@suite("constructor", lambda sc: [(i,) for i in range(6)], bounds="tags given as lists; events stay hashable by tag")
def constructor(ctx, case):
    given = (["k", "s"], [], ["k"], ("k",), "ks", None)[case[0]]
    e = Event(tag=given)
    want = tuple(given) if isinstance(given, list) else given
    check(e.tag == want and type(e.tag) is type(want), "Event(tag=%r).tag is %r", given, e.tag)
    check(Pattern(events=[e]).getAllTags() == {want}, "getAllTags")
    d = Event()
    same(tup(d), (0, 1, 60, 80, ()), "an event by default")
    check(d.endTime() == 1 and Event(2.5, 0.75).endTime() == 3.25, "endTime")
    ctx.op(3)


@suite("varied", lambda sc: varied(sc, comb=2), bounds=VARIED + ", compared with others that differ in one place")
def of_the_family(ctx, case):
    p, q = varied_pattern(case, 1), varied_pattern(case, 1)
    events = evs(p)
    check(p == q and not p != q, "equal patterns of %r", events)
    for i in (0, len(events) // 2, len(events) - 1):
        t = events[i]
        for u in ((t[0] + 2.0 ** -32,) + t[1:], (t[0], t[1] + 2.0 ** -32) + t[2:], (t[0] + 0.0007,) + t[1:], (t[0], t[1] + 0.0007) + t[2:], t[:2] + (t[2] + 1,) + t[3:],
                  t[:3] + (t[3] + 1,) + t[4:], t[:4] + (("other",),)):
            r = varied_pattern(case, 1)
            r.events[i] = event(u)
            check(r != p and p != r and not r == p and not p == r, "%r instead of %r: equal in a pattern", u, t)
            check(event(u) != p.events[i] and not event(u) == p.events[i], "%r == %r", u, t)
            ctx.op(2)
        e = event(t)
        same(e == p.events[i] and e in p.events, True, "an equal event")
        same([id(x) for x in p.getIdenticalEvents(e)], [id(x) for x in p.events if x.tag == t[4]], "getIdenticalEvents")
        same([id(x) for x in p.getIdenticalEvents(e, False)],
             [id(x) for x in p.events if as_set(x.tag) & as_set(t[4])], "getIdenticalEvents with one in common")
        ctx.op(3)
    r = varied_pattern(case, 1)
    r.events = r.events[:-1]
    check(r != p and p != r, "a pattern with one event less is equal")
    r = varied_pattern(case, 1.0007)
    check(r != p and p != r, "a longer pattern is equal")
    ctx.op(2)
