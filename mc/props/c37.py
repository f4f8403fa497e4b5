# -*- coding: utf-8 -*-
"""C37 Python 2 and Python 3 give the same results and read each other's files"""
from __future__ import absolute_import, division, print_function

import os
import re
import shutil
import subprocess

import acts
import cross
from core import check, fail, product, same, sequences, suite
from lib import VARIED, chunks, near, varied

# where several chords fit equally well, each is right
OPEN = ("views", "chord", "chord forced")


def other(*args):
    """runs this module's other half under Jython"""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    done = subprocess.run(["jython", "-B", os.path.join(here, "cross.py")] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=300)
    check(done.returncode == 0, "under Python 2: %s", done.stderr.decode("utf-8", "replace")[-1500:])


def family(sc, sizes):
    return [list(c) for c in varied(sc, sizes) if not between_ticks(c)]


def between_ticks(c):
    """whether a time lies in the middle between two ticks, and may go to either"""
    q = cross.make(c)
    return any(near((t * q.resolution) % 1, 0.5, 1e-4) for e in q.events for t in (e.startTime, e.startTime + e.duration))


def batches(cases, size):
    return [cases[i:i + size] for i in range(0, len(cases), size)]


def folder(name):
    path = os.path.abspath(os.path.join("output", name))
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def number(x):
    """the number that x writes, in hexadecimal or not, or None"""
    if isinstance(x, str) and re.match(r"-?\d", x):
        return float.fromhex(x) if "x" in x else float(x)


def first_difference(a, b, path=()):
    """Where a and b first differ, or None. Python 3's sum() is more exact than a loop's: the last digits are open."""
    if a == b:
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            found = first_difference(x, y, path + (i,))
            if found:
                return found
        return None
    x, y = number(a), number(b)
    if x is not None and y is not None and near(x, y, 1e-9):
        return None
    return path, a, b


@suite("results", lambda sc: batches([c for c in family(sc, (3, 10)) if c[1] != "far"][::sc.pick(11, 11, 1)], 8), bounds="all that can be done with " + VARIED + ", under both", py=(3,))
def results(ctx, case):
    where = folder("c37r")
    cases = os.path.join(where, "cases")
    out = os.path.join(where, "out")
    cross.dump(case, cases)
    other("results", cases, out)
    theirs = cross.load(out)
    for c, got in zip(case, theirs):
        mine = [acts.do(act, cross.make(c), out + ".mine") for _, act in acts.ACTS]
        for (name, _), x, y in zip(acts.ACTS, mine, got):
            if name in OPEN:
                continue
            found = first_difference(x, y)
            if found and not (isinstance(x, str) and x.startswith("refused") and isinstance(y, str) and y.startswith("refused")):
                at, a, b = found
                fail("%s of %r: Python 3 gives %r where Python 2 gives %r (at %r)" % (name, c, a, b, at))
            ctx.op(2)
        ctx.visited(1, 0, 0)


@suite("files", lambda sc: batches([c for c in family(sc, (3, 10)) if c[3] != "odd"][::sc.pick(5, 5, 1)], 30), bounds="JSON, MIDI and style files of " + VARIED + ", written under each and read under both", py=(3,))
def files(ctx, case):
    where = folder("c37f")
    cases = os.path.join(where, "cases")
    cross.dump(case, cases)
    mine, theirs = os.path.join(where, "mine"), os.path.join(where, "theirs")
    cross.write(case, mine)
    other("write", cases, theirs)
    other("read", mine, os.path.join(where, "out"))
    got = [cross.read(mine), cross.load(os.path.join(where, "out")), cross.read(theirs)]
    for i, c in enumerate(case):
        for j, form in enumerate(cross.FORMATS):
            for k, who in ((1, "written under Python 3, read under Python 2"), (2, "written under Python 2, read under Python 3")):
                found = first_difference(got[0][i][j], got[k][i][j])
                if found:
                    at, a, b = found
                    fail("%s of %r, %s: %r instead of %r (at %r)" % (form, c, who, b, a, at))
                ctx.op()
        ctx.visited(1, 0, 0)
