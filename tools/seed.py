#!/usr/bin/env python3
"""Plants a bug, confirms it and keeps it in /verif/seeded.

    seed.py BUGS.py [ID ...]      define and confirm the bugs of a file (those not yet kept, or the named ones)
    seed.py --recheck [ID ...]    run the checks again on the kept bugs

BUGS.py has a list BUGS of dicts: id, prop, file, edits [(old, new)], demo, needs, breaks.
A kept bug: replaces lines of the original repository only, its demo passes on /repo and
fails with it, and the stable tests pass with it. Whether the check sees it is only recorded.
"""
import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

REPO, SEEDED = "/repo", "/verif/seeded"
SCRATCH = "/tmp/s"
BASE = "9fd8aac"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
DEMO_SH = '#!/bin/bash\nexec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n'
PROLOGUE = "import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n"


def sh(args, **kw):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tests(repo):
    """the stable tests that fail in a copy"""
    src = open("/opt/vp/run_tests.py").read().replace('REPO = "/repo"', 'REPO = %r' % repo)
    runner = os.path.join(SCRATCH, os.path.basename(repo) + "-run.py")
    open(runner, "w").write(src)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    out = runner + ".lines"
    open(out, "w").close()
    for m in sorted({".".join(s.split("::")[1].split(".")[:2]) for s in stable}):
        subprocess.run(["timeout", "300", "jython", "-B", runner, out, m], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, cwd=repo, env=ENV)
    passed = {l.split()[1] for l in open(out) if l.startswith("PASS")}
    os.remove(runner)
    os.remove(out)
    return sorted(set(stable) - passed)


def original_lines(patch_repo, rel):
    """the removed lines that are not of the original repository"""
    diff = sh(["git", "-C", patch_repo, "diff", "-U0", "HEAD", "--", rel]).stdout
    blame = sh(["git", "-C", REPO, "blame", "-s", "HEAD", "--", rel]).stdout.splitlines()
    mine, gone = [], 0
    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
        a, n = int(m.group(1)), int(m.group(2) or 1)
        gone += n
        mine += [l for l in blame[a - 1:a - 1 + n] if not l.startswith("^")]
    return gone, mine


def check(repo, prop):
    r = sh(["/verif/check", prop, "quick"], env=dict(ENV, VERIF_REPO=repo))
    return r.returncode == 1 and "VIOLATION property=%s " % prop in r.stdout, r.stdout


def plant(bug):
    work = os.path.join(SCRATCH, bug["id"])
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, work], check=True)
    try:
        edits = bug["edits"] if isinstance(bug["edits"], dict) else {bug["file"]: bug["edits"]}
        for rel, subs in edits.items():
            path = os.path.join(work, rel)
            text = open(path, encoding="utf-8").read()
            for old, new in subs:
                if text.count(old) != 1:
                    return "NOT PLANTED: %d x %r" % (text.count(old), old[:60])
                text = text.replace(old, new)
            open(path, "w", encoding="utf-8").write(text)
            gone, mine = original_lines(work, rel)
            if mine:
                return "NOT PLANTED: changes my own lines %s" % mine[:3]
        folder = os.path.join(SCRATCH, bug["id"] + "-kept")
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        open(os.path.join(folder, "demo.py"), "w").write(PROLOGUE + bug["demo"].lstrip("\n"))
        for old, want in ((REPO, 0), (work, 1)):
            r = sh(["bash", os.path.join(folder, "demo.sh")], cwd=old, env=ENV)
            if (r.returncode != 0) != bool(want):
                return "NOT PLANTED: demo rc %d in %s\n%s" % (r.returncode, old, r.stdout[-900:])
        bad = tests(work)
        if bad:
            return "NOT PLANTED: breaks %s" % bad
        caught, out = check(work, bug["prop"])
        open(os.path.join(folder, "patch.diff"), "w").write(sh(["git", "-C", work, "diff", "HEAD"]).stdout)
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(folder, "meta.json"), "w"), indent=1)
        final = os.path.join(SEEDED, bug["id"])
        shutil.rmtree(final, ignore_errors=True)
        shutil.move(folder, final)
        return ("caught" if caught else "MISSED") + ("" if caught else "\n" + out[-600:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(os.path.join(SCRATCH, bug["id"] + "-kept"), ignore_errors=True)


def recheck(name):
    work = os.path.join(SCRATCH, name)
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, work], check=True)
    try:
        r = sh(["git", "-C", work, "apply", os.path.join(SEEDED, name, "patch.diff")])
        if r.returncode:
            return "DOES NOT APPLY " + r.stdout
        prop = json.load(open(os.path.join(SEEDED, name, "meta.json")))["property"]
        demo = sh(["bash", os.path.join(SEEDED, name, "demo.sh")], cwd=work, env=ENV).returncode
        caught, out = check(work, prop)
        return ("caught" if caught else "MISSED") + ("" if demo else " AND THE DEMO PASSES")
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    os.makedirs(SCRATCH, exist_ok=True)
    os.makedirs(SEEDED, exist_ok=True)
    if sys.argv[1] == "--recheck":
        names, f, n = sys.argv[2:] or sorted(os.listdir(SEEDED)), recheck, 2
        jobs = {x: x for x in names}
    else:
        bugs = runpy.run_path(sys.argv[1])["BUGS"]
        want = sys.argv[2:]
        jobs = {b["id"]: b for b in bugs
                if b["id"] in want or not want and not os.path.exists(os.path.join(SEEDED, b["id"]))}
        f, n = plant, 4
    with concurrent.futures.ThreadPoolExecutor(n) as pool:
        futures = {pool.submit(f, jobs[x]): x for x in jobs}
        for fut in concurrent.futures.as_completed(futures):
            print(futures[fut], fut.result(), flush=True)


main()
