# -*- coding: utf-8 -*-
"""C43 what is logged never changes what is done, and every handler gets each message once, as it is"""
from __future__ import absolute_import, division, print_function

import logging
import os
import re
import shutil
import sys
from contextlib import contextmanager

import acts
import smf
from core import check, product, same, sequences, suite
from lib import VARIED, Event, pattern, varied, varied_pattern
from gsapi import gsdataset, gsio, gslog, gsstyles

LEVELS = (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL)
COLOR = re.compile("\033\\[[0-9;]*m")


class Console(object):
    def __init__(self):
        self.text = ""

    def write(self, text):
        self.text += text

    def flush(self):
        pass


class Listener(logging.Handler):
    """a handler of the user's own"""

    def __init__(self):
        logging.Handler.__init__(self)
        self.heard = []

    def emit(self, record):
        self.heard.append((record.levelno, record.levelname, record.name, record.getMessage()))


def loggers():
    return [x for n, x in logging.Logger.manager.loggerDict.items() if (n == "gsapi" or n.startswith("gsapi.")) and isinstance(x, logging.Logger)]


@contextmanager
def listening(levels=None, color=True, before=False):
    """(console, listener, errors), with all of gsapi's loggers at a level; everything is put back afterwards"""
    console, listener, errors = Console(), Listener(), []
    root = logging.getLogger()
    ours = logging.getLogger("gsapi")
    handlers = [h for h in ours.handlers if isinstance(h, logging.StreamHandler)]
    levels_before = [(x, x.level) for x in loggers()]
    kept = [(h, h.stream) for h in handlers]
    handlers_before, off = list(root.handlers), root.manager.disable
    color_before = gslog.ColoredLogger.USE_COLOR_OUTPUT
    try:
        root.handlers[:] = [listener]
        if before:
            ours.handlers.insert(0, listener)
            root.handlers[:] = []
        for h in handlers:
            h.stream = console
            h.handleError = lambda record: errors.append((record.levelname, record.msg, repr(sys.exc_info()[1])))
        logging.disable(logging.NOTSET)
        if levels is not None:
            for x in loggers():
                x.setLevel(levels)
        gslog.setUseColoredOutput(color)
        yield console, listener, errors
    finally:
        logging.disable(off)
        gslog.setUseColoredOutput(color_before)
        root.handlers[:] = handlers_before
        if listener in ours.handlers:
            ours.handlers.remove(listener)
        for h, s in kept:
            h.stream = s
            del h.handleError
        for x, v in levels_before:
            x.setLevel(v)


def consistent(console, listener, errors, color, what):
    """each message is on the console as often as it was heard, with its level"""
    check(not errors, "%s: messages that could not be written: %r", what, errors[:3])
    rest = COLOR.sub("", console.text)
    if not color:
        same(console.text, rest, what + ": colours that were not asked for")
    elif listener.heard:
        check(console.text != rest, "%s: no colours", what)
    names = {logging.DEBUG: "DEBUG", logging.INFO: "INFO", logging.WARNING: "WARNING", logging.ERROR: "ERROR", logging.CRITICAL: "CRITICAL"}
    place = 0
    for no, level, name, message in listener.heard:
        same(level, names[no], what + ": name of the level for another handler")
        found = rest.find(message, place)
        check(found >= 0, "%s: message %r is not on the console", what, message)
        head = rest[place:found]
        check(name in head and names[no] in head, "%s: %r is announced as %r", what, message, head)
        place = found + len(message)
    texts = {}
    for _, _, _, message in listener.heard:
        texts[message] = texts.get(message, 0) + 1
    for message in texts:
        if message.strip() and sum(texts[m] * m.count(message) for m in texts) == texts[message]:
            same(rest.count(message), texts[message], what + ": times that %r is on the console" % message)
    return len(listener.heard)


def gen_results(sc):
    for i, c in enumerate(varied(sc, sc.pick((3,), (3, 10), (3, 10, 40)), comb=2)):
        for k in range(3):
            if sc.level == 2 or (i + k) % 3 == 0:
                yield (c, (i + k) % 6)


@suite("results", gen_results,
       bounds="all that can be done with " + VARIED + ": silent, and at 3 levels with and without colours (in turn; thorough: all levels)")
def results(ctx, case):
    c, turn = case
    where = os.path.join("output", "c43")
    for i, (name, act) in enumerate(acts.ACTS):
        want = acts.do(act, varied_pattern(c), where)
        level = (logging.DEBUG, logging.INFO, logging.ERROR)[(turn + i) % 3]
        color = bool((turn + i // 3) % 2)
        with listening(level, color) as (console, listener, errors):
            got = acts.do(act, varied_pattern(c), where)
            what = "%s of %r at level %d" % (name, c, level)
            consistent(console, listener, errors, color, what)
            check(all(h[0] >= level for h in listener.heard), "%s: messages of lower levels", what)
        same(got, want, what + ": result")
        ctx.op()


OPS = ["color", "plain"] + [("default", v) for v in LEVELS] + [("say", v) for v in LEVELS]


@suite("switches", lambda sc: product(sequences(range(len(OPS)), 1, sc.pick(2, 3, 4)), (False, True)),
       bounds="all histories of up to 3 (thorough: 4) of: colours on or off, 5 default levels, messages of 5 levels; another handler before or after the console")
def switches(ctx, case):
    history, before = case
    logger = logging.getLogger("gsapi.c43")
    with listening(None, True, before) as (console, listener, errors):
        for v in LEVELS[2:3]:
            gslog.setDefaultLoggingLevel(v)
        level, color, n = logging.WARNING, True, 0
        for k in history + tuple(range(7, 12)):
            op = OPS[k]
            if op in ("color", "plain"):
                color = op == "color"
                gslog.setUseColoredOutput(color)
            elif op[0] == "default":
                level = op[1]
                gslog.setDefaultLoggingLevel(level)
            else:
                n += 1
                console.text, listener.heard[:] = "", []
                logger.log(op[1], "message %d of %s", n, "many")
                what = "history %r" % ([OPS[j] for j in history],)
                same([h[3] for h in listener.heard], ["message %d of many" % n] if op[1] >= level else [], what + ": heard")
                consistent(console, listener, errors, color, what)
                same(console.text.count("\n"), len(listener.heard), what + ": lines")
            ctx.op()


def orphan(where):
    path = os.path.join(where, "orphan.mid")
    smf.write(path, [[("off", 10, 0, 61, 0), ("on", 20, 0, 60, 100), ("off", 40, 0, 60, 0), smf.end(100)]], 96)
    return [(e.startTime, e.pitch) for e in gsio.fromMidiFile(path).events]


def chain():
    return gsstyles.PatternMarkov(order=1, numSteps=4, loopDuration=4)


# (what is done, the level of its message)
SPEAKERS = [
    ("a list as a tag", lambda w: Event(0, 1, 60, 100, ["a", "b"]).tag, logging.ERROR),
    ("a note off without note on", orphan, logging.WARNING),
    ("a folder without files", lambda w: gsdataset.Dataset(os.path.join(w, "none-*.mid")).patterns, logging.ERROR),
    ("no list of patterns", lambda w: chain().generateTransitionTableFromPatternList("text"), logging.ERROR),
    ("a pattern of another length", lambda w: chain().generateTransitionTableFromPatternList([pattern([(0, 1, 60, 100, "k")], 3)]), logging.WARNING),
    ("events at once", lambda w: acts.plain(overlapped()), logging.INFO),
]


def overlapped():
    p = pattern([(0, 1, 60, 100, "k"), (0, 2, 61, 100, "k"), (0.5, 2, 61, 100, "k")], 4)
    p.removeOverlapped()
    return p


@suite("speakers", lambda sc: product(range(len(SPEAKERS)), range(len(SPEAKERS)), range(len(LEVELS) + 1)),
       bounds="every two of 6 calls that log, at every level: told from its own level up, with the same result")
def speakers(ctx, case):
    where = os.path.join("output", "c43s")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    calls = [SPEAKERS[i] for i in case[:2]]

    def run(call):
        try:
            return acts.plain(call(where))
        except Exception as e:
            return "refused: " + type(e).__name__
    want = [run(c[1]) for c in calls]
    if case[2] == len(LEVELS):
        same([run(c[1]) for c in calls], want, "the same calls again")
        return
    level = LEVELS[case[2]]
    for color in (True, False):
        with listening(level, color) as (console, listener, errors):
            for (name, call, own), result in zip(calls, want):
                console.text, listener.heard[:] = "", []
                same(run(call), result, "%s at level %d: result" % (name, level))
                consistent(console, listener, errors, color, name)
                told = [h for h in listener.heard if h[0] == own]
                check(bool(told) == (own >= level), "%s: at level %d there are %d messages of level %d", name, level, len(told), own)
                check(all(h[0] >= level for h in listener.heard), "%s: messages of lower levels", name)
                ctx.op()


def made(k, n):
    """files of one to four tracks, with names and without, of several channels, with stray notes and changes of the fields"""
    tracks = []
    for t in range(1 + k % 4):
        events = [smf.name("track %d" % t)] if (k + t) % 3 else []
        if k % 5 == t:
            events += [smf.tempo(400000), smf.signature(3, 2), smf.key(2)]
        for i in range(n):
            at, pitch = i * 6 + t, 30 + (i * (k + 3) + t * 7) % 70
            events += [("on", at, (t + i) % 16, pitch, 1 + (i * 13) % 127), ("off", at + 5, (t + i) % 16, pitch, 0)]
            if i % 4 == k % 4:
                events += [("off", at + 5, 3, 9, 0), smf.tempo(500000 + i, at + 5), smf.key(i % 7, i % 2, at + 5), smf.signature(2 + i % 3, 2, at + 5)]
        tracks.append(events + [smf.end(n * 6 + 10 + t)])
    return tracks


MAPS = ["pitchName", {"low": [(x, None) for x in range(30, 60)], "high": [(x, None) for x in range(60, 90)]}, {"a": [(i, 0) for i in range(128)]}, None]


@suite("files", lambda sc: product(range(sc.pick(5, 20, 60)), (1, 8, sc.pick(8, 30, 100)), range(len(MAPS))),
       bounds="MIDI files of 1..4 tracks with names and without, stray note offs and changing fields, read with 3 maps: silent, and at every level")
def files(ctx, case):
    k, n, which = case
    where = os.path.join("output", "c43f")
    if not os.path.isdir(where):
        os.makedirs(where)
    path = os.path.join(where, "f.mid")
    smf.write(path, made(k, n), 96)

    def run(**kw):
        try:
            return acts.plain(gsio.fromMidiFile(path, MAPS[which], **kw))
        except Exception as e:
            return "refused: " + type(e).__name__
    for kw in ({}, {"tracksToGet": [0, "track 2"]}, {"tagFromTrackName": True}, {"filterOutNotMapped": False, "checkForOverlapped": True}):
        want = run(**kw)
        for i, level in enumerate(LEVELS[:4]):
            with listening(level, bool((i + k) % 2)) as (console, listener, errors):
                same(run(**kw), want, "file %r read with %r at level %d" % (case, kw, level))
                consistent(console, listener, errors, bool((i + k) % 2), "file %r" % (case,))
            ctx.op()
