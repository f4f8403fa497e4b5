# -*- coding: utf-8 -*-
"""C25 the density of a pattern follows the requests, whatever was asked before"""
from __future__ import absolute_import, division, print_function

from itertools import combinations

from choices import Fixed, controlled, explore
from core import check, fail, product, same, sequences, suite
from lib import EPS, corpus, evs, meta, near, pattern, snap
from gsapi.gstransformers import AgnosticDensity

VOICES = {"k": (36, 100), "s": (38, 90), "h": (42, 70)}


def build(voices, n, duration, offset=0, lengths=(1,), **fields):
    """voices {tag: steps}; the events a bit off the grid, pitch and velocity tell the step"""
    events = []
    step = duration / float(n)
    for tag in sorted(voices):
        for i in sorted(voices[tag]):
            pitch, velocity = VOICES[tag]
            at = max(0, i + (offset if i % 2 else -offset)) * step
            events.append((at, step * lengths[(i + len(events)) % len(lengths)], pitch + 12 * (i % 3), velocity - i, tag))
    events.sort(key=lambda t: t[0])
    return pattern(events, duration, name="beat", bpm=97.5, timeSignature=(3, 4), key="A minor")


class Reference(object):
    """what the answers may be: a set of steps per tag, and how it may change"""

    def __init__(self, p, n):
        self.n, self.p = n, snap(p)
        self.step = p.duration / float(n)
        self.duration, self.meta = p.duration, meta(p, ("duration",))
        self.origin = {}
        for t in evs(p):
            k = int(t[0] / self.step + 0.5)
            if k < n:
                self.origin.setdefault(t[4], {}).setdefault(k, []).append(t[2:4])
        self.now = {tag: set(steps) for tag, steps in self.origin.items()}
        self.counts = {}

    def ideal(self, tag, v):
        n0 = len(self.origin[tag])
        return n0 * v if v <= 1 else n0 + (v - 1) * (self.n - n0)

    def answer(self, res, request, what):
        steps = {tag: {} for tag in self.origin}
        starts = [e.startTime for e in res.events]
        check(all(a <= b for a, b in zip(starts, starts[1:])), "%s: not in time order %r", what, starts)
        same(meta(res, ("duration",)), self.meta, what + ": fields")
        check(near(res.duration, self.duration), "%s: duration %r", what, res.duration)
        for t in evs(res):
            k = int(round(t[0] / self.step))
            check(near(t[0], k * self.step) and 0 <= k < self.n, "%s: off the steps %r", what, t)
            check(near(t[1], self.step), "%s: not one step long %r", what, t)
            check(t[4] in steps, "%s: unexpected tag %r", what, t)
            check(k not in steps[t[4]], "%s: two events of %r on step %d", what, t[4], k)
            steps[t[4]][k] = t[2:4]
        for tag, origin in self.origin.items():
            got, was = set(steps[tag]), self.now[tag]
            about = "%s: %r has %r, was %r, originally %r" % (what, tag, sorted(got), sorted(was), sorted(origin))
            known = set(x for k in origin.values() for x in k)
            for k, x in steps[tag].items():
                check(x in origin.get(k, known), "%s: %r on step %d", about, x, k)
            if tag not in request:
                same(got, was, about + ": changed unasked")
            else:
                v = max(0, min(request[tag], 2))
                check(abs(len(got) - self.ideal(tag, v)) < 1 + 1e-9, "%s: %d events at density %r", about, len(got), v)
                same(len(got), self.counts.setdefault((tag, v), len(got)), about + ": the number depends on history")
                check(got <= was or got >= was, "%s: both adds and removes", about)
            check(got <= set(origin) or got >= set(origin), "%s: removes of the original while it adds", about)
            if request.get(tag) == 1:
                same(got, set(origin), about + ": not the original")
            self.now[tag] = got


def history(t, ref, p, requests, first=None, what=""):
    """runs the requests, returns the patterns; each is spoiled after it was noted"""
    before = snap(p)
    res = []
    for i, r in enumerate(requests):
        got = t.transformPattern(p if i % 2 == 0 or first == "pattern" else None, {"normalizedDensities": dict(r)})
        res.append(got.copy())
        for e in got.events:
            e.startTime, e.pitch, e.velocity, e.tag, e.duration = e.startTime + 50, 0, 0, "spoiled", 99
        got.duration, got.events = 77, got.events[:1]
    same(snap(p), before, "transformPattern changed its input")
    return res


def check_all(ctx, voices, n, duration, mode, requests, offset=0, lengths=(1,), limit=200000):
    p = build(voices, n, duration, offset, lengths)
    counts = Reference(p, n).counts
    reached = {}
    for res, _, _ in explore(lambda: history(AgnosticDensity(mode, n), None, p, requests), limit=limit):
        ref = Reference(p, n)
        ref.counts = counts
        for i, (got, r) in enumerate(zip(res, requests)):
            ref.answer(got, r, "%s of %r, %d steps, after %r" % (mode, voices, n, requests[:i + 1]))
            if i == 0:
                for tag in ref.now:
                    reached.setdefault(tag, set()).add(frozenset(ref.now[tag]))
        ctx.op(len(requests))
        ctx.visited(0, 0, 1)
    for tag in requests[0]:
        origin = frozenset(voices[tag])
        size = len(min(reached[tag], key=len))
        within = origin if size <= len(origin) else frozenset(range(n)) - origin
        extra = size if size <= len(origin) else size - len(origin)
        want = {frozenset(c) | (origin if size > len(origin) else frozenset()) for c in combinations(sorted(within), extra)}
        same(reached[tag], want, "%s of %r, %d steps, asked for %r: the steps that can be chosen" % (mode, voices, n, requests[0]))


VALUES = [0, 0.4, 1, 1.5, 2, -1, 3, 0.75]


def subsets(n):
    return [frozenset(i for i in range(n) if m >> i & 1) for m in range(1, 2 ** n)]


def gen_one(sc):
    for mode in ("random", "hysteresis"):
        for v in subsets(3):
            for h in sequences(range(5), 1, sc.pick(1, 3, 4)):
                if len(h) < 3 or len(v) == 1 or sc.level == 2 and len(v) + len(h) < 7:
                        yield (mode, 3, sorted(v), h)
    for mode in ("random", "hysteresis"):
        for v in subsets(4):
            if len(v) == 4 and mode == "hysteresis":
                continue
            for i, h in enumerate(sequences(range(len(VALUES)), 1, 2)):
                if i % sc.pick(31, 7, 1) == 0:
                    yield (mode, 4, sorted(v), h)


@suite("one voice", gen_one,
       bounds="all patterns of one voice on 3 (4) steps, histories of 1..3 (2) requests, every random choice")
def one(ctx, case):
    mode, n, steps, h = case
    check_all(ctx, {"k": steps}, n, 3, mode, [{"k": VALUES[i]} for i in h])


def gen_two(sc):
    requests = [(a, b) for a in (None, 0, 0.5, 1, 1.5, 2) for b in (None, 0.5, 2, 1)]
    i = 0
    for mode in ("random", "hysteresis"):
        for a in subsets(3):
            for b in subsets(3):
                if len(a) == len(b) == 3:
                    continue
                for h in sequences(range(len(requests)), 2, 2):
                    i += 1
                    if i % sc.pick(2003, 397, 23) == 0:
                        yield (mode, sorted(a), sorted(b), [requests[k] for k in h])


@suite("two voices", gen_two, bounds="a comb of pairs of voices on 3 steps and histories of 2 requests for them, every random choice")
def two(ctx, case):
    mode, a, b, h = case
    requests = [{tag: v for tag, v in zip("ks", r) if v is not None} for r in h]
    check_all(ctx, {"k": a, "s": b}, 3, 4, mode, requests, limit=60000)


def gen_wide(sc):
    for mode in ("random", "hysteresis"):
        for n, duration in ((16, 4), (32, 4), (32, 8), (8, 4), (16, 3), (12, 4), (7, 5)):
            for rule in sc.pick(("first",), ("first", "last", 7), ("first", "last", 1, 3, 7, 11)):
                for kind in range(sc.pick(2, 4, 8)):
                    for offset in (0, 0.3):
                        yield (mode, n, duration, rule, kind, offset)


@suite("wide", gen_wide,
       bounds="3 voices on 7..32 steps, events on and off the grid, histories of 40 requests, under fixed rules of choice")
def wide(ctx, case):
    mode, n, duration, rule, kind, offset = case
    voices = {"k": [i for i in range(n) if i % (3 + kind) == 0], "s": [i for i in range(n) if (i * 5 + kind) % 7 < 3],
              "h": [n - 1] if kind % 2 else list(range(n))}
    p = build(voices, n, duration, offset, (1, 0.5, 0.25))
    requests = []
    for i in range(40):
        tags = [t for j, t in enumerate("ksh") if (i * 7 + j * 3 + kind) % 4]
        requests.append({t: ((i * 13 + j * 5 + kind * 3) % 21) / 10.0 for j, t in enumerate(tags)})
    requests += [{"k": 1, "s": 1, "h": 1}, {"x": 0.5}, {}, {"k": 2, "x": 0}, {"k": 0}, {"k": 1}]
    ref = Reference(p, n)
    with controlled(Fixed(rule)):
        res = history(AgnosticDensity(mode, n), ref, p, requests)
    for i, (got, r) in enumerate(zip(res, requests)):
        ref.answer(got, r, "%s of %r, request %d, %r" % (mode, snap(p)[0], i, r))
    ctx.op(len(requests))


def gen_patterns(sc):
    for mode in ("random", "hysteresis"):
        for rule in ("first", "last", 5):
            for h in sequences(range(3), 2, sc.pick(2, 3, 6)):
                yield (mode, rule, h)


@suite("patterns", gen_patterns,
       bounds="all histories of 2..4 (thorough: 6) changes between three patterns on one transformer, given or configured")
def patterns(ctx, case):
    mode, rule, h = case
    ps = [build({"k": [0, 2], "s": [1]}, 4, 4), build({"k": [0, 1, 3], "s": [1]}, 4, 4, 0.25), build({"s": [0, 3], "h": [2]}, 4, 2)]
    t = AgnosticDensity(mode, 4)
    current = ref = None
    with controlled(Fixed(rule)):
        same(t.transformPattern(None, {}), None, "transform of no pattern")
        for i, k in enumerate(h):
            before = snap(ps[k])
            what = "%s, patterns %r, change %d" % (mode, h, i)
            request = {"k": (0.5, 2, 0, 1.5, 1)[i % 5], "s": (2, 1.2, 0.3)[(i + k) % 3]}
            if (i + k) % 3 == 0:
                t.configure({"inputPattern": ps[k]})
                current, ref = k, Reference(ps[k], 4)
                ref.answer(t.transformPattern(None, {}), {}, what + ", configured")
                got = t.transformPattern(None, {"normalizedDensities": request})
            else:
                if k != current:
                    current, ref = k, Reference(ps[k], 4)
                    ref.answer(t.transformPattern(ps[k], {}), {}, what + ", first")
                got = t.transformPattern(ps[k].copy() if i % 2 else ps[k], {"normalizedDensities": request})
            ref.answer(got, request, "%s, %r" % (what, request))
            got.events[:] = []
            ctx.op()
            same(snap(ps[k]), before, "transformPattern changed its input")
        ps[h[-1]].events = ps[h[-1]].events[1:]
        ref = Reference(ps[h[-1]], 4)
        ref.answer(t.transformPattern(ps[h[-1]], {}), {}, "%s, patterns %r, one event less" % (mode, h))


@suite("two transformers", lambda sc: sequences(range(4), 1, sc.pick(2, 3, 5)), bounds="two transformers at work on one pattern do not share state")
def separate(ctx, case):
    p = build({"k": [0, 2], "s": [1, 2, 3]}, 4, 4)
    ts = [AgnosticDensity("random", 4), AgnosticDensity("hysteresis", 4)]
    refs = [Reference(p, 4), Reference(p, 4)]
    with controlled(Fixed("last")):
        for i, k in enumerate(case):
            for j in (0, 1):
                request = {"ks"[(k + j) % 2]: (0, 0.5, 1.5, 2)[(k + i + j) % 4]}
                refs[j].answer(ts[j].transformPattern(p, {"normalizedDensities": request}), request, "transformer %d of two" % j)
                ctx.op()


@suite("corpus", lambda sc: [(f, m) for f in range(sc.pick(1, 4, 40)) for m in ("random", "hysteresis")],
       bounds="bars of the drum corpus, 30 requests each")
def from_corpus(ctx, case):
    from gsapi import gsio, gsdefs
    f, mode = case
    files = corpus("drums", "*.mid")
    if not files:
        return
    p = gsio.fromMidiFile(files[f % len(files)], dict(gsdefs.simpleDrumMap))
    for n, bar in ((16, p.splitInEqualLengthPatterns(4)[0]), (32, p.splitInEqualLengthPatterns(4)[-1])):
        if not bar.events or any(abs((t[0] / (4.0 / n)) % 1 - 0.5) < 1e-6 or isinstance(t[4], tuple) for t in evs(bar)):
            continue
        bar.duration = 4.0
        if not all(t[0] < 4 - 2.0 / n for t in evs(bar)):
            bar.events = [e for e in bar.events if e.startTime < 4 - 2.0 / n]
        tags = sorted(set(t[4] for t in evs(bar)))
        requests = [{tags[i % len(tags)]: (i * 7 % 21) / 10.0, tags[i * 3 % len(tags)]: (i * 11 % 21) / 10.0} for i in range(30)]
        ref = Reference(bar, n)
        with controlled(Fixed(3)):
            res = history(AgnosticDensity(mode, n), ref, bar, requests, "pattern")
        for i, (got, r) in enumerate(zip(res, requests)):
            ref.answer(got, r, "%s of %r, request %d, %r" % (mode, evs(bar), i, r))
        ctx.op(len(requests))


TAGS = ("k", "kick", "s", "", 1, 2.5, ("a", "b"), ("b", "a"), ("a",), "a", None, "1", ("k", "s"), "silence", u"\u00e9", "S")


def build_many(tags, n, duration, k, every=3):
    step = duration / float(n)
    events = []
    for j, tag in enumerate(tags):
        for i in range(n):
            if (i * (j + 1) + k) % (every + j % 3) == 0 or i == (5 * j + k) % n:
                events.append((i * step, step * (1, 0.5, 0.25)[(i + j) % 3], (30 + 5 * j + i % 5) % 128, 127 - (i + j) % 120, tag))
    events.sort(key=lambda t: t[0])
    return pattern(events, duration, name="many", bpm=61.3, timeSignature=(7, 8), key="F# minor")


def runs(ctx, p, n, mode, requests, rule, what):
    ref = Reference(p, n)
    with controlled(Fixed(rule)):
        res = history(AgnosticDensity(mode, n), ref, p, requests)
    for i, (got, r) in enumerate(zip(res, requests)):
        ref.answer(got, r, "%s %s of %r..., request %d, %r" % (what, mode, snap(p)[0], i, r))
    ctx.op(len(requests))


@suite("many voices", lambda sc: [(m, j, k, mode) for m in (1, 2, 4, 5, 9, len(TAGS)) for j in range(sc.pick(2, 5, 16)) for k in range(2)
                                  for mode in ("random", "hysteresis")],
       bounds="1..16 voices with tags of all types, some alike, and requests for all of them at once")
def many_voices(ctx, case):
    m, j, k, mode = case
    tags = [TAGS[(j * 3 + i) % len(TAGS)] for i in range(m)]
    p = build_many(tags, 8, 4, k)
    requests = [{t: ((i * 7 + x * 3 + k) % 9) / 4.0 for x, t in enumerate(tags)} for i in range(6)]
    requests += [{t: i / 6.0} for i, t in enumerate(tags)] + [{t: 1 for t in tags}, {t: 2 for t in tags}, {t: 0 for t in tags}, {t: 1 for t in tags}]
    runs(ctx, p, 8, mode, requests, k or "last", "voices")


@suite("fine", lambda sc: [(n, k, mode) for n in sc.pick((64,), (33, 64, 100), (33, 64, 65, 100, 128, 256, 500)) for k in range(sc.pick(1, 2, 4))
                           for mode in ("random", "hysteresis")],
       bounds="33..100 (thorough: 500) steps, densities in steps of 1/37 and close to the bounds")
def fine(ctx, case):
    n, k, mode = case
    p = build_many(("k", "s"), n, (10 / 3.0, n / 4.0, 100.125, 0.7)[(k + n) % 4], k, 1 + k)
    values = [i / 37.0 for i in range(0, 75, 3 + k)][::-1 if k % 2 else 1] + [0.01, 0.99, 1.001, 1.99, 0.504, 1.003, 0.0001, 0.9999, 1.0001, 1.9999]
    runs(ctx, p, n, mode, [{"ks"[i % 2]: v} for i, v in enumerate(values)] + [{"k": v, "s": 2 - v} for v in values[::3]], 3, "fine")


@suite("same events", lambda sc: product(("random", "hysteresis"), range(5), sc.pick((0,), (0, 1), (0, 1))),
       bounds="patterns that differ in one field, in one event or in the order only, one after another on one transformer")
def same_events(ctx, case):
    mode, k, back = case
    a = build({"k": [0, 2, 3], "s": [1]}, 4, 4)
    b = a.copy()
    if k == 0:
        b.duration = 8
        a.duration, b.duration = (b.duration, a.duration) if back else (a.duration, b.duration)
    elif k == 1:
        b.timeSignature = (4, 4)   # patterns that are equal (==) count as the same
    elif k == 2:
        b.events[1].pitch, b.events[0].velocity = 99, 3
    elif k == 3:
        b.events[-1].startTime = 2
        b.reorderEvents()
    else:
        b.events[0].tag = "h"
    if back:
        a, b = b, a
    t = AgnosticDensity(mode, 4)
    with controlled(Fixed(2)):
        for i, p in enumerate((a, b, a, b, b, a)):
            ref = Reference(p, 4)
            ref.now = {}
            request = {"k": (0, 2, 0.5, 1.5, 0, 2)[i]}
            if i != 4:
                for tag, steps in ref.origin.items():
                    ref.now[tag] = set(steps)
                old = ref
            else:
                ref = old
            if "k" not in ref.origin:
                request = {}
            ref.answer(t.transformPattern(p, {"normalizedDensities": request}), request, "%s, change %d of kind %d" % (mode, i, k))
            ctx.op()


@suite("defaults", lambda sc: product(range(4), range(sc.pick(2, 4, 8)), (0, 1)),
       bounds="transformers made with no arguments, with one, by keyword; configured beforehand or not; asked without a pattern")
def defaults(ctx, case):
    form, k, early = case
    t, mode, n = ((AgnosticDensity(), "random", 32), (AgnosticDensity("hysteresis"), "hysteresis", 32),
                  (AgnosticDensity(numSteps=12), "random", 12), (AgnosticDensity(mode="hysteresis", numSteps=20), "hysteresis", 20))[form]
    p = build_many(("k", "s"), n, (4, 8, 3.3, n)[k % 4], k)
    requests = [{"ks"[i % 2]: ((i * 5 + k) % 9) / 4.0} for i in range(8)] + [{"k": 1, "s": 1}, {"nobody": 0}, {}, {"k": 2, "s": 2}, {"k": 1, "s": 1}]
    ref = Reference(p, n)
    with controlled(Fixed(3)):
        if early:
            check(t.transformPattern(None, {"normalizedDensities": {"k": 0}}) is None, "asked without a pattern, form %r" % form)
            t.configure({})
            t.configure({"inputPattern": p})
        got = history(t, ref, p, requests)
    for i, (g, r) in enumerate(zip(got, requests)):
        ref.answer(g, r, "defaults %r of %r..., request %d, %r" % (case, snap(p)[0], i, r))
    ctx.op(len(requests))
