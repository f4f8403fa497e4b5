# -*- coding: utf-8 -*-
"""Suites, contexts and helpers shared by the properties."""
from __future__ import absolute_import, division, print_function

import importlib
import itertools
import sys
import traceback

PY2 = sys.version_info[0] == 2


class Violation(Exception):
    def __init__(self, text):
        Exception.__init__(self, text)
        self.text = text


def fail(message):
    raise Violation(message)


def check(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


def same(got, want, what):
    if got != want:
        raise Violation("%s\n   got  %s\n   want %s" % (what, show(got), show(want)))


def show(x):
    return repr(x)[:900]


def trace():
    lines = traceback.format_exc().splitlines()
    return " | ".join(x.strip() for x in lines[-9:])[:1400]


class Scale(object):
    """how far a suite goes: 0 Jython quick, 1 quick, 2 thorough (Jython thorough counts as 1)"""

    def __init__(self, tier, py2):
        self.tier, self.py2 = tier, py2
        self.level = (2 if tier == "thorough" else 1) - (1 if py2 else 0)

    def pick(self, small, quick, thorough):
        return (small, quick, thorough)[self.level]


class Context(object):
    def __init__(self, suite):
        self.suite = suite
        self.states = self.transitions = self.traces = 0

    def begin(self, case):
        self.states += 1
        self.traces += 1

    def op(self, n=1):
        """n operations of the code under test were executed and checked"""
        self.transitions += n

    def visited(self, states, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces


class Suite(object):
    def __init__(self, name, gen, check, bounds="", py=(2, 3)):
        self.name, self.gen, self.check, self.bounds, self.py = name, gen, check, bounds, py


SUITES = []


def suite(name, gen, bounds="", py=(2, 3)):
    def deco(f):
        SUITES.append(Suite(name, gen, f, bounds, py))
        return f
    return deco


def load(prop):
    del SUITES[:]
    importlib.import_module("props." + prop.lower())
    return list(SUITES)


def product(*args):
    return itertools.product(*args)


def sequences(items, low, high):
    """all sequences of items of low to high elements"""
    for n in range(low, high + 1):
        for s in itertools.product(items, repeat=n):
            yield s
