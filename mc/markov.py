# -*- coding: utf-8 -*-
"""Reference of the Markov chains of gsstyles: patterns as sequences of steps, each a frozenset of tags."""
from __future__ import absolute_import, division, print_function

from fractions import Fraction

from lib import pattern

SILENCE = frozenset(["silence"])


def steps_to_pattern(steps, loop, name="p", offset=0, duration=None, reverse=False, pitch=60):
    """a pattern that plays each set of tags on its step; offset moves the events, in steps"""
    size = loop * 1.0 / len(steps)
    events = []
    for i, tags in enumerate(steps):
        for k, tag in enumerate(sorted(tags, key=repr)):
            if tag != "silence":
                events.append((max(0, (i + offset) * size), size if duration is None else duration, pitch + k, 90, tag))
    if reverse:
        events.reverse()
    return pattern(events, loop, name=name)


def model(sequences, order):
    """[{history: {step: probability}}] by position; the first histories are those of a loop"""
    n = len(sequences[0])
    table = [{} for _ in range(n)]
    for seq in sequences:
        for i in range(n):
            past = tuple(seq[(i - k) % n] for k in range(order, 0, -1))
            counts = table[i].setdefault(past, {})
            counts[seq[i]] = counts.get(seq[i], 0) + 1
    return [{past: {s: Fraction(c, sum(counts.values())) for s, c in counts.items()} for past, counts in t.items()}
            for t in table]


def learnt(chain, steps):
    """what the chain holds, by its matrices, in the same form"""
    table = []
    for i in range(steps):
        matrix, ins, outs = chain.getMatrixAtStep(i)
        t = {}
        for past, row in zip(ins, matrix):
            key = tuple(frozenset(x) for x in past)
            counts = t.setdefault(key, {})
            for out, p in zip(outs, row):
                if p:
                    counts[frozenset(out)] = counts.get(frozenset(out), 0) + p
        table.append(t)
    return table


def generated(table, order):
    """{sequence: probability given its first steps} of all that the model can play"""
    n = len(table)
    res = {}

    def extend(seq, p):
        i = len(seq)
        if i == n:
            res[tuple(seq)] = p
            return
        past = tuple(seq[i - order:i])
        for s, q in table[i].get(past, {}).items():
            extend(seq + [s], p * q)
    if order < n:
        for past in table[order]:
            extend(list(past), Fraction(1))
    return res


def steps_of(p, steps, loop):
    """a generated pattern as sets of tags, or a text that says what is wrong with it"""
    size = loop * 1.0 / steps
    res = [set() for _ in range(steps)]
    for e in p.events:
        i = int(round(e.startTime / size))
        if abs(i * size - e.startTime) > 1e-9 or not 0 <= i < steps:
            return "an event starts at %r" % e.startTime
        if abs(e.duration - size) > 1e-9:
            return "an event lasts %r" % e.duration
        if e.tag in res[i]:
            return "tag %r twice on step %d" % (e.tag, i)
        if e.tag == "silence":
            return "a silent event"
        res[i].add(e.tag)
    if abs(p.duration - loop) > 1e-9:
        return "duration %r" % p.duration
    return tuple(frozenset(s) if s else SILENCE for s in res)


def grid_of(table):
    """how many real numbers tell all probabilities of the model apart"""
    grid = 1
    for d in (d for t in table for d in t.values()):
        for q in d.values():
            a, b = grid, q.denominator
            while b:
                a, b = b, a % b
            grid = grid * q.denominator // a
    return grid
