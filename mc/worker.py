# -*- coding: utf-8 -*-
"""Runs one shard of the suites of a property, under CPython 3 or Jython 2.7.

    worker.py PROP TIER SHARD SHARDS OUT BEAT WORKDIR [CASE]
"""
from __future__ import absolute_import, division, print_function

import io
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
PY2 = sys.version_info[0] == 2
CASE_SECONDS = 180
MAX_VIOLATIONS = 3


def to_tuple(x):
    return tuple(to_tuple(e) for e in x) if isinstance(x, (list, tuple)) else x


class Hang(BaseException):
    pass


def on_alarm(signum, frame):
    raise Hang()


def main(argv):
    prop, tier, shard, shards, out, beat, work = argv[1:8]
    shard, shards = int(shard), int(shards)
    only = None
    if len(argv) > 8:
        with io.open(argv[8], encoding="utf-8") as f:
            only = json.load(f)
    os.chdir(work)
    import boot
    boot.setup()
    import core
    suites = core.load(prop)
    beatf = open(beat, "w")
    alarm = None
    if not PY2:
        import resource
        import signal
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        signal.signal(signal.SIGALRM, on_alarm)
        alarm = signal.setitimer

    report = {"suites": {}, "violations": [], "samples": []}
    hung = False
    for suite in suites:
        if hung:
            break
        if only and suite.name != only["suite"]:
            continue
        if (2 if PY2 else 3) not in suite.py:
            continue
        ctx = core.Context(suite)
        scale = core.Scale(tier, PY2)
        count = bad = 0
        complete = True
        if only and only.get("case") is not None:
            cases = [(only["index"], to_tuple(only["case"]))]
        else:
            cases = enumerate(suite.gen(scale))
        for index, case in cases:
            if only:
                if index != only["index"]:
                    continue
            elif (index * 2654435761 >> 12) % shards != shard:  # heavy cases come at regular distances
                continue
            beatf.seek(0)
            beatf.write("%s %d \n" % (suite.name, index))
            beatf.flush()
            if only:
                report["case"] = case
            message = None
            try:
                if alarm:
                    alarm(signal.ITIMER_REAL, CASE_SECONDS)
                try:
                    ctx.begin(case)
                    suite.check(ctx, case)
                finally:
                    if alarm:
                        alarm(signal.ITIMER_REAL, 0)
            except core.Violation as e:
                message = e.text
            except Hang:
                message, hung = "no end after %d s" % CASE_SECONDS, True
            except Exception:
                message = "unexpected exception: " + core.trace()
            count += 1
            if count <= 1:
                report["samples"].append({"suite": suite.name, "case": repr(case)[:300]})
            if message is not None:
                bad += 1
                report["violations"].append({"suite": suite.name, "index": index, "case": case,
                                             "message": message})
                if bad >= MAX_VIOLATIONS or hung:
                    complete = False
                    break
        report["suites"][suite.name] = {"cases": count, "states": ctx.states, "transitions": ctx.transitions,
                                        "traces": ctx.traces, "complete": complete, "bounds": suite.bounds}
    text = json.dumps(report)
    with io.open(out, "w", encoding="utf-8") as f:
        f.write(text if not PY2 else text.decode("utf-8"))


if __name__ == "__main__":
    main(sys.argv)
    sys.stdout.flush()
    os._exit(0)
