#!/usr/bin/env python3
"""Runs the check of one property: spreads the cases of its suites over worker
processes (CPython and Jython), watches them, writes the evidence and the verdict.

    driver.py C01 quick|thorough
    driver.py C01 --replay FILE

Exit status: 0 the property held on everything explored (apart from the listed
known findings), 1 it did not (a VIOLATION line names the replay file).
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CPYTHON = "/opt/venv/bin/python"
JYTHON = "jython"
WORKER = os.path.join(HERE, "worker.py")
CASE_LIMIT = 120      # seconds without progress before a worker counts as hung
START_LIMIT = 240     # same, until its first case
MAX_REPORTED = 5


def command(py, args):
    if py == 2:
        return [JYTHON, "-B", WORKER] + args
    return [CPYTHON, "-B", "-W", "ignore", WORKER] + args


class Job(object):
    def __init__(self, prop, tier, py, shard, shards, scratch, only=None, hashseed=None):
        self.prop, self.tier, self.py, self.shard, self.shards = prop, tier, py, shard, shards
        name = "py%d-%d%s" % (py, shard, "-one" if only else "")
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=scratch)
        self.out = os.path.join(self.dir, "result.json")
        self.beat = os.path.join(self.dir, "beat")
        self.log = os.path.join(self.dir, "log")
        self.work = os.path.join(self.dir, "work")
        os.makedirs(os.path.join(self.work, "output"))
        env = dict(os.environ)
        env.update(VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   PYTHONHASHSEED=str(shard if hashseed is None else hashseed), HOME=self.dir,
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", JDK_JAVA_OPTIONS="-Xmx1500m -Xss4m -XX:+UseSerialGC",
                   PYTHONIOENCODING="utf-8")
        self.hashseed = env["PYTHONHASHSEED"]
        args = [prop, tier, str(shard), str(shards), self.out, self.beat, self.work]
        if only:
            one = os.path.join(self.dir, "case.json")
            with open(one, "w") as f:
                json.dump(only, f)
            args.append(one)
        self.logf = open(self.log, "wb")
        self.proc = subprocess.Popen(command(py, args), stdin=subprocess.DEVNULL, stdout=self.logf,
                                     stderr=subprocess.STDOUT, cwd=self.work, env=env, start_new_session=True)
        self.last, self.changed, self.hung = None, time.time(), False

    def position(self):
        try:
            with open(self.beat) as f:
                return f.read().strip()
        except IOError:
            return ""

    def poll(self):
        if self.proc.poll() is not None:
            return True
        now = self.position()
        if now != self.last:
            self.last, self.changed = now, time.time()
        elif time.time() - self.changed > (CASE_LIMIT if now else START_LIMIT):
            self.hung = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def tail(self):
        with open(self.log, "rb") as f:
            return f.read().decode("utf-8", "replace")[-1500:]

    def result(self):
        """the worker's report, or None when it ended without one"""
        self.logf.close()
        if self.hung or self.proc.returncode != 0 or not os.path.exists(self.out):
            return None
        with open(self.out, encoding="utf-8") as f:
            return json.load(f)

    def where(self):
        """(suite, index) that was under way"""
        m = re.match(r"(\S+) (\d+)", self.position())
        return (m.group(1), int(m.group(2))) if m else None


def finish(jobs):
    try:
        while not all([j.poll() for j in jobs]):
            time.sleep(0.05)
    finally:
        for j in jobs:
            if j.proc.poll() is None:
                j.kill()


def plan(prop, tier):
    """the worker processes of a run, as (interpreter, shard, shards)"""
    meta = META.get(prop, {})
    pys = meta.get("py", (3, 2))
    n3, n2 = (6, 2) if tier == "quick" else (8, 4)
    if 2 not in pys:
        n3, n2 = 8, 0
    jobs = []
    if 3 in pys:
        jobs += [(3, i, n3) for i in range(n3)]
    if n2:
        jobs += [(2, i, n2) for i in range(n2)]
    return jobs


# properties whose code cannot run on one of the interpreters
META = {p: {"py": (3,)} for p in ("C29", "C30", "C31", "C38")}


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    res.append((m.group(2), m.group(3).strip()))
    return res


def key_of(v):
    """names the failing input of a violation: suite and case"""
    text = json.dumps([v["suite"], v["case"]], sort_keys=True)
    return v["suite"] + ":" + hashlib.sha1(text.encode("utf-8")).hexdigest()[:12]


def save_replay(prop, v):
    folder = os.path.join(VERIF, "replays", prop)
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, key_of(v).replace(":", "-") + "-py%d.json" % v["py"])
    with open(path, "w") as f:
        json.dump(dict(v, property=prop), f, indent=1, sort_keys=True)
    return path


def run(prop, tier):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="gsapi-mc-%s-" % prop)
    violations, results = [], []
    try:
        jobs = [Job(prop, tier, py, i, n, scratch) for py, i, n in plan(prop, tier)]
        finish(jobs)
        for j in jobs:
            r = j.result()
            if r is not None:
                results.append((j, r))
                for v in r["violations"]:
                    violations.append(dict(v, py=j.py, hashseed=j.hashseed))
                continue
            # the worker crashed or hung: run the case it was at alone, to name it
            where = j.where()
            what = "no progress for %d s" % CASE_LIMIT if j.hung else "exit status %s" % j.proc.returncode
            v = {"suite": where[0] if where else "start", "index": where[1] if where else -1, "case": None,
                 "message": "worker ended without a report (%s): %s" % (what, j.tail()[-600:]),
                 "py": j.py, "hashseed": j.hashseed}
            if where:
                one = Job(prop, tier, j.py, j.shard, j.shards, scratch,
                          only={"suite": where[0], "index": where[1]}, hashseed=j.hashseed)
                finish([one])
                r1 = one.result()
                if r1 is not None and r1["violations"]:
                    v = dict(r1["violations"][0], py=j.py, hashseed=j.hashseed)
                elif r1 is not None:
                    v["case"] = r1.get("case")
            violations.append(v)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    total = {"states": 0, "transitions": 0, "traces": 0}
    suites, samples = {}, []
    exhaustive = True
    for j, r in results:
        for name, s in r["suites"].items():
            a = suites.setdefault(name, {"cases": 0, "states": 0, "transitions": 0, "traces": 0,
                                         "interpreters": [], "bounds": s.get("bounds", "")})
            for k in ("cases", "states", "transitions", "traces"):
                a[k] += s[k]
            label = "CPython 3.12" if j.py == 3 else "Jython 2.7"
            if label not in a["interpreters"]:
                a["interpreters"].append(label)
            total["states"] += s["states"]
            total["transitions"] += s["transitions"]
            total["traces"] += s["traces"]
            exhaustive = exhaustive and s["complete"]
        for s in r["samples"]:
            if len(samples) < 12 and s["suite"] not in [x["suite"] for x in samples[-2:]]:
                samples.append(s)

    known = dict(known_findings(prop))
    new, hit = [], {}
    for v in violations:
        if v["case"] is not None and key_of(v) in known:
            hit[key_of(v)] = v
        else:
            new.append(v)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, known[k]))
    for k in sorted(set(known) - set(hit)):
        print("note: the known finding %s did not fail in this run" % k)
    reported = []
    seen = set()
    for v in new:
        k = (v["suite"], v["message"][:60])
        if k in seen and len(reported) >= 1:
            continue
        seen.add(k)
        if len(reported) < MAX_REPORTED:
            path = save_replay(prop, v)
            reported.append({"suite": v["suite"], "case": v["case"], "message": v["message"][:1500],
                             "interpreter": v["py"], "replay": path})
            print("  %s case %s\n  %s" % (v["suite"], json.dumps(v["case"])[:700], v["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    evidence = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {"states": total["states"], "transitions": total["transitions"],
                     "traces_validated_against_impl": total["traces"],
                     "exhaustive": bool(exhaustive and not violations),
                     "suites": suites, "samples": samples,
                     "interpreters": sorted({i for s in suites.values() for i in s["interpreters"]})},
        "assumptions": ASSUMPTIONS,
        "violations": len(new), "known_findings_hit": sorted(hit),
        "reported": reported, "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    print("%s %s: %d cases, %d states, %d transitions, %d violations, %.1f s" % (
        prop, tier, sum(s["cases"] for s in suites.values()), total["states"], total["transitions"],
        len(new), time.time() - t0))
    for name in sorted(suites):
        print("   %-34s %8d cases %9d states %9d transitions  %s" % (
            name, suites[name]["cases"], suites[name]["states"], suites[name]["transitions"],
            ", ".join(suites[name]["interpreters"])))
    return 1 if new else 0


ASSUMPTIONS = [
    "the property is decided for the enumerated inputs and histories within the bounds given per suite",
    "gsapi runs unmodified; only the functions of the random modules are replaced, by enumerated choices, "
    "in the suites that say so",
    "the reference models in /verif/mc/props are what each public operation documents",
]


def replay(prop, path):
    with open(path) as f:
        v = json.load(f)
    scratch = tempfile.mkdtemp(prefix="gsapi-mc-%s-" % prop)
    try:
        j = Job(prop, "quick", v["py"], 0, 1, scratch,
                only={"suite": v["suite"], "case": v["case"], "index": v["index"]}, hashseed=v["hashseed"])
        finish([j])
        r = j.result()
        if r is None:
            print("worker ended without a report: " + j.tail())
        elif not r["violations"]:
            print("the case passes now")
            return 0
        else:
            print(r["violations"][0]["message"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    prop = argv[1]
    if argv[2] == "--replay":
        return replay(prop, argv[3])
    return run(prop, argv[2])


if __name__ == "__main__":
    code = 1
    try:
        code = main(sys.argv)
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
