# -*- coding: utf-8 -*-
"""C09 removing by tag or by event removes exactly what was asked for"""
from __future__ import absolute_import, division, print_function

import ops
from core import check, product, same, sequences, suite
from lib import VARIED, Event, bag, event, evs, ladder, pattern, same_bag, snap, varied, varied_pattern

TAGS = ("k", "kick", "ki", "", ("k", "s"), ("kick",), (), 1, ("C", "maj"), None, (("C", "maj"), "x"))
ASKED = (("k",), ("kick",), ("s",), ("C",), ("maj",), (1,), ("k", "s"), ("kick", 1), (), ("",), (("k", "s"),),
         (("C", "maj"),), ("no",), ((),), ("c", "i"), (None,))
BASE = (0, 1, 60, 80, "k")
VARIANTS = [BASE, BASE, (0.5, 1, 60, 80, "k"), (0, 2, 60, 80, "k"), (0, 1, 61, 80, "k"), (0, 1, 60, 81, "k"),
            (0, 1, 60, 80, "s"), (0, 1, 60, 80, ("k",)), (0, 1, 60, 80, "kick")]


def ids(events):
    return [id(e) for e in events]


@suite("tags", lambda sc: sequences(TAGS if sc.level else TAGS[:6], 0, sc.pick(2, 3, 4)),
       bounds="all sequences of 0..3 (thorough: 4) of 11 tags (texts that contain each other, tuples, numbers, none), "
              "16 lists of tags to remove")
def tags(ctx, case):
    events = [(0.5 * i, 1, 60 + i, 80, t) for i, t in enumerate(case)]
    for asked in ASKED:
        p = pattern(events, 4, name="p")
        objects = list(p.events)
        ops.step(p, ("removeByTags", asked))
        ctx.op()
        kept = [e for e in objects if not any(ops.has_tag(e.tag, w) for w in asked)]
        same(ids(p.events), ids(kept), "removeByTags(%r) of %r: events or order" % (asked, events))
    for kind in (tuple, set, frozenset):
        p = pattern(events, 4)
        p.removeByTags(kind(["k", "maj"]))
        same_bag(evs(p), [t for t in events if not (ops.has_tag(t[4], "k") or ops.has_tag(t[4], "maj"))],
                 "removeByTags of %r" % (events,))
        ctx.op()


@suite("events", lambda sc: sequences(range(len(VARIANTS) if sc.level else 5), 0, sc.pick(2, 3, 4)),
       bounds="all sequences of 0..3 (thorough: 4) of 9 events that differ in at most one field")
def events(ctx, case):
    tuples = [VARIANTS[i] for i in case]
    for asked in [BASE] + VARIANTS[2:]:
        p = pattern(tuples, 4, name="p")
        objects = list(p.events)
        ops.step(p, ("removeEvent", asked))
        ctx.op()
        same(ids(p.events), ids([e for e in objects if ops_tuple(e) != asked]),
             "removeEvent(%r) of %r: events or order" % (asked, tuples))
        # an event of the pattern itself
        p = pattern(tuples, 4, name="p")
        if p.events:
            e = p.events[-1]
            t = ops_tuple(e)
            p.removeEvent(e)
            ctx.op()
            same(evs(p), [u for u in tuples if u != t], "removeEvent of its own event from %r" % (tuples,))


def ops_tuple(e):
    return (e.startTime, e.duration, e.pitch, e.velocity, e.tag)


@suite("wide", lambda sc: [(n,) for n in (3, 9, 30, 100)], bounds="regular patterns of up to 100 events, all removed in turn")
def wide(ctx, case):
    events = ladder(case[0]) + ladder(case[0])[:2]
    p = pattern(events, 100)
    for t in events[::2] + events[1::2]:
        ops.step(p, ("removeEvent", t))
        ctx.op()
    same(evs(p), [], "events left")
    for n in (1, case[0] // 2, case[0] - 1, case[0]):
        names = ["t%d" % i for i in range(case[0])]
        p = pattern([(i, 1, 60, 80, (t,) if i % 3 == 1 else t) for i, t in enumerate(names)], 100)
        ops.step(p, ("removeByTags", tuple(names[:n])))
        ops.step(p, ("removeByTags", tuple(names[::-1][:n // 2])))
        ctx.op(2)
    p = pattern(events, 100)
    for asked in (("k",), ("b",), ("k", "s")):
        ops.step(p, ("removeByTags", asked))
        ctx.op()
    same(evs(p), [], "events left")


@suite("varied", lambda sc: varied(sc, comb=3), bounds=VARIED + ", removed by tags, and one by one")
def of_the_family(ctx, case):
    p = varied_pattern(case)
    p.viewpoints["v"] = pattern(evs(p)[:2], 3)
    events, objects = evs(p), list(p.events)
    for t in (events[0], events[-1], events[len(events) // 2], (9.125, 1, 60, 80, "no")):
        for u in (t[:1] + (t[1] + 0.0009,) + t[2:], t[:2] + (t[2] + 1,) + t[3:], t):
            ops.step(p, ("removeEvent", u))
            ctx.op()
            objects = [e for e in objects if ops_tuple(e) != u]
            same(ids(p.events), ids(objects), "removeEvent(%r) of %r: events or order" % (u, events))
    for asked in (("1", "tag20"), ("b",), (2.5, "tag3"), ("s", "silence"), ("", None), ("k", "a", 1)):
        ops.step(p, ("removeByTags", asked))
        ctx.op()
        objects = [e for e in objects if not any(ops.has_tag(e.tag, w) for w in asked)]
        same(ids(p.events), ids(objects), "removeByTags(%r) of %r: events or order" % (asked, events))


TINY = (2.0 ** -11, 1e-4, 1e-6, 2.0 ** -40)


@suite("near", lambda sc: product(range(5), (0, 1), TINY[:sc.pick(2, 4, 4)], (0.0, 0.5, 3.0, 7.25)), bounds="events that differ by 2^-11, 1e-4, 1e-6 and 2^-40 of a beat in their start or their length, in 5 orders")
def near_ones(ctx, case):
    order, field, off, start = case
    base = (start, 1.0, 60, 80, "k")
    made = [base[:field] + (base[field] + k * off,) + base[field + 1:] for k in (0, 1, 2)]
    if start or field:
        made.append(base[:field] + (base[field] - off,) + base[field + 1:])
    made.append(base)
    made = made[order:] + made[:order]
    for asked in set(made):
        p = pattern(made, 20)
        objects = list(p.events)
        ops.step(p, ("removeEvent", asked))
        ctx.op()
        same(ids(p.events), ids([e for e in objects if ops_tuple(e) != asked]), "removeEvent(%r) of %r: events or order" % (asked, made))


@suite("crowd", lambda sc: [(n, k) for n in (150, sc.pick(300, 600, 3000)) for k in range(3)],
       bounds="events among up to 600 (thorough: 3000): single ones, the last ones and groups of equal ones are removed")
def crowd(ctx, case):
    n, k = case
    tuples = [(i * 0.5, 1, 60 + i % (7, 40, 1)[k], 80, "t%d" % (i % (5, 60, 300)[k])) for i in range(n)]
    tuples = tuples + tuples[n // 3::n // 3]
    p = pattern(tuples, n)
    for at in (-1, n - 1, n - 2, n // 3, 0, n // 2):
        t = tuples[at % len(tuples)]
        ops.step(p, ("removeEvent", t))
        tuples = [x for x in tuples if x != t]
        same(evs(p), tuples, "removing one of %d events" % n)
        ctx.op()
    for asked in ("t4", "t59", "t299", "t", "t0"):
        ops.step(p, ("removeByTags", (asked, "none")))
        tuples = [x for x in tuples if x[4] != asked]
        same(evs(p), tuples, "removing a tag from %d events" % n)
        ctx.op()
