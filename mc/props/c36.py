# -*- coding: utf-8 -*-
"""C36 a save that breaks off never leaves a file that is read as something else"""
from __future__ import absolute_import, division, print_function

import os
import shutil

from core import check, fail, product, same, sequences, suite
from lib import evs, meta, near, pattern, snap, varied, varied_pattern
from gsapi import gsio, gsstyles

COUNT = [0]


def folder(name):
    COUNT[0] += 1
    where = os.path.join("output", "c36 %s%d" % (name, COUNT[0] % 5))
    shutil.rmtree(where, ignore_errors=True)
    return where


def markov(k):
    s = gsstyles.MarkovStyle(order=1 + k % 2, numSteps=4, loopDuration=4)
    s.generateStyle([pattern([(i, 1, 60, 100, "kshx"[(i * j + j * k) % 4]) for i in range(4) if (i + j) % 3], 4, name="n%d" % j) for j in range(3)])
    return s


def database(k):
    s = gsstyles.DatabaseStyle()
    s.generateStyle([pattern([(0.5 * i, 0.5, 60 + j, 100, ("a", "b")[:1 + i % 2]) for i in range(2 + j)], 4, name="n%d" % j) for j in range(1 + k)])
    return s


def read_style(cls, how):
    def read(path):
        s = cls()
        getattr(s, "loadFrom" + how)(path)
        return s
    return read


def write_style(how):
    def write(s, where):
        if not os.path.isdir(where):
            os.makedirs(where)
        path = os.path.join(where, "style")
        getattr(s, "saveTo" + how)(path)
        return path
    return write


def style_state(s):
    state = s.getInternalState()
    if "markovChain" in state:
        # the order within a table of transitions means nothing
        chain = state["markovChain"]
        state = dict(chain, transitionTable=[sorted((past, sorted(row)) for past, row in t) for t in chain["transitionTable"]])
    return state


def make(k):
    events = [[], [(0, 1, 60, 100, "k")], [(0.5 * i, 0.25 + i % 2, 40 + i, 60 + i, ("k", ("a", "b"), "s")[i % 3]) for i in range(9)],
              [(i / 3.0, 0.3, 60 + i % 30, 64, ("voice", "%d" % i)) for i in range(60)]][k]
    return pattern(events, 8 + len(events), name="p", bpm=97.25, key="Am", timeSignature=(3, 4))


# kind: (maker, writer of a thing into a folder (gives the path), reader of a path, what to compare)
KINDS = {
    "json": (make, lambda p, where: gsio.toJSONFile(p, where), gsio.fromJSONFile, snap),
    "plain json": (make, lambda p, where: gsio.toJSONFile(p, where, useTagIndexing=False), gsio.fromJSONFile, snap),
    "pickle": (make, lambda p, where: gsio.toPickleFile(p, where), gsio.fromPickleFile, snap),
    "markov json": (markov, write_style("JSON"), read_style(gsstyles.MarkovStyle, "JSON"), style_state),
    "markov pickle": (markov, write_style("Pickle"), read_style(gsstyles.MarkovStyle, "Pickle"), style_state),
    "database json": (database, write_style("JSON"), read_style(gsstyles.DatabaseStyle, "JSON"), style_state),
    "database pickle": (database, write_style("Pickle"), read_style(gsstyles.DatabaseStyle, "Pickle"), style_state),
}


def outcome(read, path, state):
    """what is read from a file, None if it is refused"""
    try:
        got = read(path)
    except:  # noqa: E722 (errors of Java, too)
        return None
    return state(got)


def cut(path, data, n):
    with open(path, "wb") as f:
        f.write(data[:n])


def points(size, sc_step):
    """all the lengths of a file that breaks off, of the long ones every so many and the ends"""
    return sorted(set(list(range(0, size, max(1, size // sc_step))) + list(range(min(size, 40))) + list(range(max(0, size - 40), size))))


@suite("cuts", lambda sc: [(name, k, sc.pick(150, 400, 20000)) for name in sorted(KINDS) for k in range(4)],
       bounds="files of patterns and styles, cut short after each byte (long ones: after 150 to 400 places, thorough: all): refused, and the reader stays as it was")
def cuts(ctx, case):
    name, k, steps = case
    create, write, read, state = KINDS[name]
    thing = create(k)
    path = write(thing, folder("cut"))
    with open(path, "rb") as f:
        data = f.read()
    want = outcome(read, path, state)
    check(want == state(thing), "%s %d: is not read back", name, k)
    copy = path + ".cut"
    for n in points(len(data), steps):
        cut(copy, data, n)
        got = outcome(read, copy, state)
        check(got is None or got == want, "%s %d: cut after %d of %d bytes, it is read as %r", name, k, n, len(data), got)
        ctx.op()
        ctx.visited(1, 0, 0)
    if "json" in name or "pickle" in name and "markov" in name:
        # a style that fails to load keeps its state
        if k == 3 and "markov" in name or "database" in name:
            s = create(1)
            before = state(s)
            for n in points(len(data), 20):
                cut(copy, data, n)
                try:
                    getattr(s, "loadFromJSON" if "json" in name else "loadFromPickle")(copy)
                except:  # noqa: E722 (errors of Java, too)
                    pass
                else:
                    continue
                same(state(s), before, "%s: a style, after it could not load a file cut after %d bytes" % (name, n))
                ctx.op()
    # nothing of what was tried stays
    same(outcome(read, path, state), want, "%s: the whole file, afterwards" % name)


def notes(p):
    return [(t[0], t[2], t[3], t[4]) for t in evs(p)]


@suite("midi cuts", lambda sc: [(k, res, sc.pick(120, 400, 20000)) for k in range(4) for res in (96, 960)],
       bounds="MIDI files cut short after each byte: refused, or the first notes of the whole one, all but those under way as long as they were")
def midi_cuts(ctx, case):
    k, res, steps = case
    p = make(k)
    p.resolution = res
    path = gsio.toMidiFile(p, folderPath=folder("mid"))
    with open(path, "rb") as f:
        data = f.read()
    whole = gsio.fromMidiFile(path)
    want = notes(whole)
    ends = {n: t[1] for n, t in zip(want, evs(whole))}
    last = -1
    for n in points(len(data), steps):
        cut(path, data, n)
        try:
            got = gsio.fromMidiFile(path)
        except:  # noqa: E722 (errors of Java, too)
            check(last <= 0, "cut after %d of %d bytes it is refused, cut earlier it gave %d notes", n, len(data), last)
            ctx.op()
            continue
        found = notes(got)
        same(found, want[:len(found)], "%d notes, cut after %d of %d bytes" % (len(want), n, len(data)))
        check(len(found) >= last, "cut after %d of %d bytes it has %d notes, cut earlier %d", n, len(data), len(found), last)
        for t in evs(got):
            check(t[1] < 0.001 or near(t[1], ends[(t[0], t[2], t[3], t[4])]), "cut after %d of %d bytes: a note that lasts %r", n, len(data), t[1])
        last = len(found)
        ctx.op()
        ctx.visited(1, 0, 0)
    same(last, len(want), "notes of the file without its last bytes")


def limited(size, action):
    """runs it with a disk that takes only so many bytes of a file: (result, error)"""
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
    try:
        return action(), None
    except Exception as e:
        return None, e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


@suite("full disk", lambda sc: [(name, old, new, sc.pick(60, 120, 20000)) for name in sorted(KINDS) for old in (None, 1, 2) for new in range(4)],
       bounds="a disk that is full after each byte (long files: 60 to 120 places, thorough: all), in a new file or over an older one: "
              "reported, and what is on the disk is refused or is the old or the new one; then saved again", py=(3,))
def full_disk(ctx, case):
    name, old, new, steps = case
    create, write, read, state = KINDS[name]
    where = folder("full")
    thing = create(new)
    path = write(thing, where)
    size = os.path.getsize(path)
    allowed = [state(thing)]
    if old is not None:
        allowed.append(state(create(old)))
    before = state(thing)
    for n in points(size, steps):
        os.remove(path)
        if old is not None:
            write(create(old), where)
        res, error = limited(n, lambda: write(thing, where))
        check(error is not None, "%s: a disk that is full after %d of %d bytes, and no error", name, n, size)
        same(state(thing), before, "%s: what was to be saved, after a failure" % name)
        if os.path.exists(path):
            got = outcome(read, path, state)
            check(got is None or got in allowed, "%s: a disk full after %d of %d bytes leaves %r", name, n, size, got)
        if n % 7 == 0:
            write(thing, where)
            same(outcome(read, path, state), before, "%s: saved again after a failure" % name)
        elif not os.path.exists(path):
            write(thing, where)
        ctx.op(3)
        ctx.visited(1, 0, 0)


@suite("midi on a full disk", lambda sc: [(old, new, sc.pick(60, 200, 20000)) for old in (None, 1, 2) for new in range(4)],
       bounds="the same for MIDI files: reported, and no note that is not of the old or the new pattern", py=(3,))
def midi_full(ctx, case):
    old, new, steps = case
    where = folder("fullmid")
    p = make(new)
    path = gsio.toMidiFile(p, folderPath=where)
    size = os.path.getsize(path)
    want = notes(gsio.fromMidiFile(path))
    before = snap(p)
    known = [want]
    if old is not None:
        gsio.toMidiFile(make(old), folderPath=where)
        known.append(notes(gsio.fromMidiFile(path)))
    for n in points(size, steps):
        os.remove(path)
        if old is not None:
            gsio.toMidiFile(make(old), folderPath=where)
        res, error = limited(n, lambda: gsio.toMidiFile(p, folderPath=where))
        check(error is not None, "a disk that is full after %d of %d bytes, and no error", n, size)
        same(snap(p), before, "the pattern, after a failure")
        try:
            got = notes(gsio.fromMidiFile(path))
        except:  # noqa: E722 (errors of Java, too)
            got = []
        check(any(got == k[:len(got)] for k in known), "a disk full after %d of %d bytes leaves %r", n, size, got)
        gsio.toMidiFile(p, folderPath=where)
        same(notes(gsio.fromMidiFile(path)), want, "saved again after a failure")
        ctx.op(3)
        ctx.visited(1, 0, 0)
