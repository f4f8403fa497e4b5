# -*- coding: utf-8 -*-
"""C39 no operation leaves a trace on other patterns or on what comes later"""
from __future__ import absolute_import, division, print_function

import json
import os

import acts
from choices import Fixed, controlled
from core import PY2, check, fail, product, same, sequences, suite
from lib import varied_pattern
from gsapi import gsdescriptors, gstransformers

CASES = (
    (6, "quarter", "mixed", "two", "all", "mixed", 1),
    (10, "third", "long", "odd", "same", "down", 2),
    (7, "close", "nearly", "many", "top", "up", 3),
    (1, "gap", "exact", "one", "low", "up", 0),
    (9, "stacked", "step", "odd", "all", "mixed", 3),
    (12, "tenth", "short", "two", "same", "down", 0),
)
N = len(acts.ACTS)
WHERE = os.path.abspath(os.path.join("output", "c39"))
KNOWN = {}


def make(k):
    return varied_pattern(CASES[k], name="p%d" % k)


def do(b, p):
    return acts.do(acts.ACTS[b][1], p, WHERE)


def forked(run):
    """what run returns in a process of its own, that starts from here"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(run(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    check(text, "the process ended early")
    return json.loads(text)


def plain_state(p):
    return acts.plain(p)


def alone(k, b):
    """what act b gives on pattern k in a process that has done nothing else"""
    if (k, b) not in KNOWN:
        KNOWN[k, b] = do(b, make(k)) if PY2 else forked(lambda: do(b, make(k)))
    return KNOWN[k, b]


def compare(got, want, what):
    if got != want:
        at, a, b = first_difference(got, want)
        fail("%s gives %r instead of %r (at %r)" % (what, a, b, at))


def first_difference(a, b, path=()):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return path, a, b
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, path + (i,))
    return path, a, b


def after(a, k, j):
    """every act on another pattern, and on copies made before, once act a has been done"""
    tables = acts.tables()
    p = make(k)
    q = p.copy()
    other = make(j)
    state = plain_state(q), plain_state(other)
    do(a, p)
    res = [None if (plain_state(q), plain_state(other)) == state else "a copy or another pattern changed"]
    if acts.tables() != tables:
        res[0] = "the tables %r changed" % [x for x in tables if acts.tables().get(x) != tables[x]]
    return res


def one_after(a, b, k, j):
    p, q = make(k), make(j)
    r = p.copy()
    do(a, p)
    return [do(b, q), do(b, r), do(b, make(k))]


def gen_pairs(sc):
    pairs = [(k, (k + 1 + k % 2) % len(CASES)) for k in range(sc.pick(1, 2, len(CASES)))]
    return [(a, k, j) for k, j in pairs for a in range(N)]


@suite("pairs", gen_pairs, bounds="all ordered pairs of the %d acts, each pair in a process of its own: the second on another pattern, on a copy "
       "made before and on an equal pattern, as if alone; other patterns and the tables of the modules stay" % N, py=(3,))
def pairs(ctx, case):
    a, k, j = case
    name = acts.ACTS[a][0]
    got = forked(lambda: after(a, k, j))
    check(got == [None], "%s of %r: %s", name, CASES[k], got[0])
    for b in range(N):
        want_other, want_same = alone(j, b), alone(k, b)
        x, y, z = forked(lambda: one_after(a, b, k, j))
        what = "%s after %s of %r" % (acts.ACTS[b][0], name, CASES[k])
        compare(x, want_other, what + ", on another pattern,")
        compare(y, want_same, what + ", on a copy made before,")
        compare(z, want_same, what + ", on an equal pattern,")
        ctx.op(4)
    ctx.visited(N, 0, N)


@suite("in one process", lambda sc: [(k, j) for k in range(len(CASES)) for j in range(len(CASES)) if k != j][::sc.pick(13, 3, 1)], bounds="all acts forwards on one of 6 patterns and "
       "backwards on another, in one process and the same folder, and forwards again: the same results")
def in_one(ctx, case):
    k, j = case
    tables = acts.tables()
    first = [do(b, make(k)) for b in range(N)]
    other = [do(b, make(j)) for b in reversed(range(N))][::-1]
    for b in range(N):
        compare(do(b, make(k)), first[b], "%s of %r, done again," % (acts.ACTS[b][0], CASES[k]))
        compare(do(b, make(j)), other[b], "%s of %r, done again," % (acts.ACTS[b][0], CASES[j]))
        if not PY2:
            compare(first[b], alone(k, b), "%s of %r, after others," % (acts.ACTS[b][0], CASES[k]))
        ctx.op(4)
    ctx.visited(2 * N, 0, 1)
    same(acts.tables(), tables, "the tables of the modules")


# what changes the pattern it is given, on purpose
EDITS = {name for name, act in acts.ACTS if getattr(act, "__name__", "") == "act" and act.__closure__ and
         any(isinstance(c.cell_contents, str) and hasattr(acts.Pattern, c.cell_contents) for c in act.__closure__)} | {"views"}


@suite("asked twice", lambda sc: product(range(len(CASES)), range(N)), bounds="each act that asks for something, twice on the same of 6 patterns: the pattern does not change and the answers agree")
def asked_twice(ctx, case):
    k, b = case
    name, act = acts.ACTS[b]
    if name in EDITS:
        return
    p = make(k)
    q, state = p.copy(), acts.plain(p)
    first = do(b, p)
    compare(acts.plain(p), state, "after %s, the pattern" % name)
    compare(do(b, p), first, "%s of %r, asked again," % (name, CASES[k]))
    compare(do(b, q), first, "%s of a copy of %r" % (name, CASES[k]))
    ctx.op(3)


TOOLS = [
    ("Density", gsdescriptors.Density, lambda t, p: t.getDescriptorForPattern(p)),
    ("Density of k", lambda: gsdescriptors.Density(["k"], None), lambda t, p: t.getDescriptorForPattern(p)),
    ("Density without", lambda: gsdescriptors.Density(None, ["k", "a"]), lambda t, p: t.getDescriptorForPattern(p)),
    ("NumberOfTags", gsdescriptors.NumberOfTags, lambda t, p: t.getDescriptorForPattern(p)),
    ("Syncopation", gsdescriptors.Syncopation, lambda t, p: t.getDescriptorForPattern(p)),
    ("Chord", gsdescriptors.Chord, lambda t, p: t.getDescriptorForPattern(p)),
    ("Chord forced", lambda: gsdescriptors.Chord(True, True), lambda t, p: t.getDescriptorForPattern(p)),
]


@suite("tools", lambda sc: [(t,) + c for t in range(len(TOOLS)) for c in sequences(range(len(CASES)), 1, sc.pick(2, 4, 5))], bounds="each descriptor, asked about sequences of 4 (thorough: 5) of 6 patterns: "
       "each answer as from a new descriptor")
def tools(ctx, case):
    name, make_tool, ask = TOOLS[case[0]]
    tool = make_tool()
    for i, k in enumerate(case[1:]):
        if ("tool", name, k) not in KNOWN:
            KNOWN["tool", name, k] = acts.plain(ask(make_tool(), make(k)))
        compare(acts.plain(ask(tool, make(k))), KNOWN["tool", name, k], "%s of %r after %r" % (name, CASES[k], [CASES[x] for x in case[1:i + 1]]))
        ctx.op()


def twins(p):
    """patterns that are nearly, or for some comparisons, the same as p"""
    def scaled(k):
        q = p.copy()
        for e in q.events:
            e.startTime, e.duration = e.startTime * k, e.duration * k
        q.duration *= k
        return q

    def moved(k):
        q = p.copy()
        for e in q.events:
            e.startTime = max(0, e.startTime + k)
        return q

    def tagged(f):
        q = p.copy()
        for i, e in enumerate(q.events):
            e.tag = f(i, e)
        return q

    def fields(**kw):
        q = p.copy()
        for k, v in kw.items():
            setattr(q, k, v)
        return q

    def events(f):
        q = p.copy()
        q.events = f(q.events)
        return q
    yield "later by 0.002", lambda: moved(0.002)
    yield "later by 2^-30", lambda: moved(2.0 ** -30)
    yield "earlier by 0.002", lambda: moved(-0.002)
    yield "earlier by 2^-30", lambda: moved(-2.0 ** -30)
    yield "longer by 0.0001", lambda: scaled(1.0001)
    yield "half as long", lambda: scaled(0.5)
    for tag in (1, 1.0, True, "1", 0, "", None, ()):
        yield "all tags %r" % (tag,), lambda tag=tag: tagged(lambda i, e: tag)
    yield "tags in turn", lambda: tagged(lambda i, e: (1, True, "k", ("k",), "1", "True")[i % 6])
    yield "other tempo", lambda: fields(bpm=p.bpm + 1)
    yield "other key", lambda: fields(key="Dm")
    yield "other meter", lambda: fields(timeSignature=(6, 8))
    yield "other resolution", lambda: fields(resolution=97)
    yield "longer", lambda: fields(duration=p.duration + 1)
    yield "backwards", lambda: events(lambda x: x[::-1])
    yield "without the last", lambda: events(lambda x: x[:-1])
    yield "without the first", lambda: events(lambda x: x[1:])
    yield "twice the first", lambda: events(lambda x: x[:1] + x)


@suite("twins", lambda sc: [(k, i) for k in range(sc.pick(1, len(CASES), len(CASES))) for i in range(len(list(twins(make(k)))))], bounds="all acts on one of 6 patterns and then on each of 24 patterns that are nearly the same: "
       "as on the second alone", py=(3,))
def on_twins(ctx, case):
    k, i = case
    name, twin = list(twins(make(k)))[i]
    if ("twin", k, i) not in KNOWN:
        KNOWN["twin", k, i] = forked(lambda: [do(b, twin()) for b in range(N)])
    want = KNOWN["twin", k, i]

    def both(order):
        res = []
        for b in order:
            do(b, make(k))
            res.append(do(b, twin()))
        return res
    got = forked(lambda: both(range(N)))
    for b in range(N):
        compare(got[b], want[b], "%s of %r, %s" % (acts.ACTS[b][0], CASES[k], name))
        ctx.op()
