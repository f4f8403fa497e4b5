# -*- coding: utf-8 -*-
"""C42 a printed grid shows, block by block, what sounds"""
from __future__ import absolute_import, division, print_function

import sys

from core import PY2, check, product, same, sequences, suite
from lib import pattern, snap

TAGS = ("k", "snare", "x y")


class Paper(object):
    """takes what is printed"""

    def __init__(self):
        self.text = ""

    def write(self, text):
        self.text += text
        return len(text)

    def flush(self):
        pass


def printed(p, *args):
    paper, usual = Paper(), sys.stdout
    sys.stdout = paper
    try:
        p.printASCIIGrid(*args)
    finally:
        sys.stdout = usual
    return sorted(x for x in paper.text.split("\n") if x)


def name(tag):
    return tag if hasattr(tag, "join") else str(tag)


def rows(events, n, block):
    """{tag: marks}: the event that sounds when a block starts, and whether the block before had the same one"""
    res = []
    for tag in {t[4] for t in events}:
        marks, last = "", None
        for i in range(n):
            now = [j for j, t in enumerate(events) if t[4] == tag and tag != "silence" and t[0] <= i * block < t[0] + t[1]]
            assert len(now) < 2
            marks += "-" if not now else ">" if now == last else "|"
            last = now
        res.append("[%s]: %s" % (marks, name(tag)))
    return sorted(res)


def shown(ctx, events, duration, block, what, default=False):
    p = pattern(events, duration)
    before = snap(p)
    n = int(duration / block)
    same(printed(p, *(() if default else (block,))), rows(events, n, block), "%s in %d blocks of %r" % (what, n, block))
    same(snap(p), before, what + ": printing changed the pattern")
    ctx.op()


def placed(lengths, tag, unit, start=0):
    """a voice: notes (positive) and rests (negative) one after another"""
    t, res = start, []
    for x in lengths:
        if x > 0:
            res.append((t, x * unit, 60, 100, tag))
        t += abs(x) * unit
    return res, t


STEPS = (-2, -1, 1, 2, 3)


@suite("one voice", lambda sc: sequences(STEPS, 1, sc.pick(3, 5, 7)), bounds="every voice of up to 5 (thorough: 7) notes and rests of 1..3 units, in blocks of 4 sizes, in either order of events")
def one_voice(ctx, case):
    for unit in (1, 0.5, 0.25):
        events, end = placed(case, "k", unit)
        if not events:
            continue
        for block in (1, 0.5, 0.25, 2):
            for es in (events, events[::-1]):
                shown(ctx, es, max(end, 1), block, "%r" % (case,), default=block == 1 and len(case) % 2)


@suite("voices", lambda sc: product(sequences(STEPS, 2, 2), sequences(STEPS, 2, 2), range(sc.pick(2, 3, 3))), bounds="every two voices of 2 notes and rests, of texts and tuples as tags, and silences")
def voices(ctx, case):
    a, b, k = case
    tags = [("k", "snare"), (("a", "b"), "k"), ("silence", u"x y" if PY2 else "x y")][k]
    one, end = placed(a, tags[0], 0.5)
    two, other = placed(b, tags[1], 0.5, start=0.25)
    events = sorted(one + two, key=lambda t: (t[0] * 7) % 3)
    if events:
        for block in (1, 0.5, 0.25):
            shown(ctx, events, max(end, other, 1), block, "%r" % (case,))


@suite("long", lambda sc: [(n, k) for n in (8, 33, 100) + sc.pick((), (300,), (1000,)) for k in range(sc.pick(4, 16, 60))], bounds="voices of 8..300 (thorough: 1000) notes of 4 tags; patterns longer and shorter than their events")
def long(ctx, case):
    n, k = case
    events, total = [], 0
    for v in range(4):
        lengths = [((i * i * (v + 1) + i * k + v) % 5) - 1 or 2 for i in range(n // 4)]
        es, end = placed(lengths, ("k", "snare", "tag %d" % k, "silence")[v], 0.25, start=0.25 * (v * k % 5))
        events += es
        total = max(total, end)
    events = events[k % 3::] + events[:k % 3]
    for duration in (total, total + 4, max(1, total - 2), 1, 0.5):
        for block in (0.25, 1):
            shown(ctx, events, duration, block, "%d notes (%d)" % (n, k))


@suite("histories", lambda sc: sequences(range(5), 1, sc.pick(2, 3, 4)), bounds="after every history of up to 3 (4) changes the grid shows the pattern as it is")
def histories(ctx, case):
    p = pattern([(0, 1, 60, 100, "k"), (2, 1, 60, 100, "k"), (1, 2, 61, 90, "s")], 4)
    for k in case:
        if k == 0:
            p.timeStretch(2)
        elif k == 1:
            p.transpose(3)
        elif k == 2:
            p.removeByTags(["s"])
        elif k == 3:
            p = p.patternFromTimeSlice(1, p.duration)
        else:
            p.events = [e for e in p.events[::-1]]
        if not p.events:
            return
        events = [(e.startTime, e.duration, e.pitch, e.velocity, e.tag) for e in p.events]
        for block in (1, 0.5):
            same(printed(p, block), rows(events, int(p.duration / block), block), "after %r" % (case,))
            ctx.op()
    same(printed(p, 1), printed(p, 1), "printed twice")
