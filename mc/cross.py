# -*- coding: utf-8 -*-
"""The other interpreter's part of C37: `cross.py results CASES OUT` writes what every act gives on every pattern,
`cross.py write CASES FOLDER` saves the patterns, `cross.py read FOLDER OUT` describes what it reads there."""
from __future__ import absolute_import, division, print_function

import io
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
import boot     # noqa: E402
boot.setup()
import acts     # noqa: E402
from lib import varied_pattern    # noqa: E402
from gsapi import gsio, gsstyles  # noqa: E402

FORMATS = ("json", "plain", "mid", "style")


def make(case):
    return varied_pattern(case, name="p")


def results(cases, where):
    return [[acts.do(act, make(c), where) for _, act in acts.ACTS] for c in cases]


def write(cases, folder):
    for i, c in enumerate(cases):
        for form in FORMATS:
            p = make(c)
            where = os.path.join(folder, "%d" % i, form)
            os.makedirs(where)
            if form == "json":
                gsio.toJSONFile(p, where)
            elif form == "plain":
                gsio.toJSONFile(p, where, useTagIndexing=False)
            elif form == "mid":
                gsio.toMidiFile(p, folderPath=where)
            else:
                s = gsstyles.MarkovStyle(order=1, numSteps=8, loopDuration=4)
                s.generateStyle(p.splitInEqualLengthPatterns(4))
                s.saveToJSON(os.path.join(where, "p.json"))


def read(folder):
    res = []
    for i in range(len(os.listdir(folder))):
        row = []
        for form in FORMATS:
            where = os.path.join(folder, "%d" % i, form)
            names = os.listdir(where)
            path = os.path.join(where, names[0])
            if form == "style":
                s = gsstyles.MarkovStyle()
                s.loadFromJSON(path)
                row.append(acts.plain([s.markovChain.order, s.markovChain.numSteps, s.markovChain.loopDuration,
                                       [{past: dict(r) for past, r in t.items()} for t in s.markovChain.transitionTable]]))
            else:
                row.append(acts.plain(gsio.fromMidiFile(path) if form == "mid" else gsio.fromJSONFile(path)))
        res.append(row)
    return res


def dump(what, path):
    text = json.dumps(what)
    with io.open(path, "w", encoding="utf-8") as f:
        f.write(text if isinstance(text, type(u"")) else text.decode("utf-8"))


def load(path):
    with io.open(path, encoding="utf-8") as f:
        return json.load(f)


if __name__ == "__main__":
    job, source, target = sys.argv[1:]
    if job == "results":
        dump(results(load(source), target + ".files"), target)
    elif job == "write":
        write(load(source), target)
    else:
        dump(read(source), target)
