#!/usr/bin/env python3
"""Mutation testing of the checks: small automatic changes of gsapi, and which of them no check sees.

    mutate.py cover [PROP ...]        notes which lines of gsapi the check of each property runs
    mutate.py run FILE.py [FROM TO]   the mutants of a module, of lines FROM..TO; survivors go to the log
    mutate.py worker ...              (internal)

Uses the quick cases on CPython only: first a sixth of them, then, for what survives, all.
Works in /tmp/m; results in /tmp/m/log-FILE. Survivors are judged by hand (see DESIGN.md).
"""
import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
MC = os.path.join(VERIF, "mc")
REPO = "/repo"
ROOT = "/tmp/m"
PY = ["/opt/venv/bin/python", "-B", "-W", "ignore"]
PROPS = ["C%02d" % i for i in range(1, 100) if os.path.exists(os.path.join(MC, "props", "c%02d.py" % i))]


# the worker

def worker(repo, out, shards, limit, props):
    """runs the cases of the properties until one fails; writes the verdict"""
    import resource
    import signal
    os.environ["VERIF_REPO"] = repo
    sys.path.insert(0, MC)
    sys.dont_write_bytecode = True
    cover = {}
    current = set()
    if out.endswith(".cover"):
        tool = 3
        mon = sys.monitoring
        mon.use_tool_id(tool, "cover")
        prefix = os.path.join(os.path.abspath(repo), "gsapi") + os.sep

        def line(code, number):
            if code.co_filename.startswith(prefix):
                current.add((os.path.basename(code.co_filename), number))
            return mon.DISABLE
        mon.register_callback(tool, mon.events.LINE, line)
        mon.set_events(tool, mon.events.LINE)
    import boot
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))

    class Hang(BaseException):
        pass

    def on_alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)

    def report(verdict):
        with open(out, "w") as f:
            json.dump(verdict, f)
        os._exit(0)
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        boot.setup()
        import core
    except BaseException as e:
        report({"killed": "import", "message": repr(e)})
    for prop in props:
        current.clear()
        if out.endswith(".cover"):
            mon.restart_events()
        try:
            suites = core.load(prop)
        except Exception as e:
            report({"killed": prop, "message": repr(e)})
        t0 = time.time()
        scale = core.Scale("quick", False)
        for suite in suites:
            if 3 not in suite.py:
                continue
            ctx = core.Context(suite)
            for index, case in enumerate(suite.gen(scale)):
                if index % shards != (hash(suite.name) % 7 + int(prop[1:])) % shards and shards > 1:
                    continue
                message = None
                try:
                    signal.setitimer(signal.ITIMER_REAL, limit)
                    try:
                        ctx.begin(case)
                        suite.check(ctx, case)
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except core.Violation as e:
                    message = e.text
                except Hang:
                    message = "hang"
                except BaseException:
                    message = "exception: " + core.trace()
                if message:
                    report({"killed": prop, "suite": suite.name, "index": index, "message": message[:300]})
        cover[prop] = sorted(current)
        if out.endswith(".cover"):
            sys.stderr.write("%s %.1f s %d lines\n" % (prop, time.time() - t0, len(current)))
    report({"killed": None, "cover": cover})


def launch(repo, props, shards, limit, timeout, name):
    work = os.path.join(ROOT, "work-" + name)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, "output"))
    out = os.path.join(work, name + (".cover" if name.startswith("cover") else ".json"))
    env = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=work)
    try:
        p = subprocess.run(PY + [os.path.abspath(__file__), "worker", repo, out, str(shards), str(limit)] + props, cwd=work, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        if name.startswith("cover"):
            sys.stderr.write(p.stderr.decode()[-300:])
        with open(out) as f:
            return json.load(f)
    except subprocess.TimeoutExpired:
        return {"killed": "timeout", "message": ""}
    except (IOError, ValueError):
        return {"killed": "crash", "message": ""}
    finally:
        shutil.rmtree(work, ignore_errors=True)


# mutants

COMPARE = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
           ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BINARY = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.BitAnd: "|", ast.BitOr: "&",
          ast.LShift: ">>", ast.RShift: "<<", ast.Pow: "*"}


def mutants(source):
    """[(line, description, new source)]"""
    tree = ast.parse(source)
    lines = source.split("\n")
    starts = [0]
    raw = source.encode("utf-8")
    for l in raw.split(b"\n"):
        starts.append(starts[-1] + len(l) + 1)
    span = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[span(n)[0]:span(n)[1]].decode("utf-8")
    res = []

    def put(node, new, what=None):
        a, b = span(node)
        put_at(a, b, new, node.lineno, what)

    def put_at(a, b, new, line, what=None):
        old = raw[a:b].decode("utf-8")
        if old != new:
            changed = (raw[:a] + new.encode("utf-8") + raw[b:]).decode("utf-8")
            try:
                ast.parse(changed)
            except SyntaxError:
                return
            res.append((line, what or "%s => %s" % (" ".join(old.split())[:70], " ".join(new.split())[:70]), changed))

    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.FunctionDef, ast.ClassDef)):
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                docs.add(id(node.body[0]))
                docs.add(id(node.body[0].value))
    for node in ast.walk(tree):
        if id(node) in docs:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for new in COMPARE.get(type(node.ops[0]), []):
                put(node, "%s %s %s" % (text(node.left), new, text(node.comparators[0])))
        elif isinstance(node, ast.BinOp) and type(node.op) in BINARY:
            if not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                put(node, "(%s) %s (%s)" % (text(node.left), BINARY[type(node.op)], text(node.right)))
        elif isinstance(node, ast.BoolOp):
            op = " or " if isinstance(node.op, ast.And) else " and "
            put(node, "(" + op.join(text(v) for v in node.values) + ")")
            for i in range(len(node.values)):
                rest = [text(v) for j, v in enumerate(node.values) if j != i]
                put(node, "(" + (" and " if isinstance(node.op, ast.And) else " or ").join(rest) + ")")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            put(node, "bool(%s)" % text(node.operand))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            put(node, "(%s)" % text(node.operand))
        elif isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)):
            v = node.value
            if v is True or v is False:
                put(node, str(not v))
            elif isinstance(v, int):
                put(node, str(v + 1))
                if v > 0:
                    put(node, str(v - 1))
            elif isinstance(v, float):
                put(node, repr(v * 2 if v else 1.0))
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            put(node.test, "True")
            put(node.test, "False")
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)):
            put(node, "pass", "DROP " + " ".join(text(node).split())[:90])
            if isinstance(node, ast.AugAssign) and type(node.op) in BINARY:
                put(node, "%s = %s" % (text(node.target), text(node.value)))
        elif isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
            put(node, "return None")
        elif isinstance(node, ast.Break):
            put(node, "pass")
            put(node, "continue")
        elif isinstance(node, ast.Continue):
            put(node, "pass")
            put(node, "break")
        elif isinstance(node, ast.Call):
            for k in node.keywords:
                if k.arg and len(node.args) + len(node.keywords) > 1:
                    parts = [text(a) for a in node.args] + [("%s=" % x.arg if x.arg else "**") + text(x.value) for x in node.keywords if x is not k]
                    put(node, "%s(%s)" % (text(node.func), ", ".join(parts)))
            name = text(node.func)
            if name in ("sorted", "list", "set", "tuple", "abs", "int", "float", "round", "reversed", "min", "max", "bool", "str") and node.args:
                put(node, "(%s)" % text(node.args[0]))
            if name.endswith((".copy", "deepcopy")) and not node.args:
                put(node, "(%s)" % text(node.func.value))
            elif name.endswith("copy") and node.args:
                put(node, "(%s)" % text(node.args[0]))
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            put(node, text(node.value))
    seen, unique = set(), []
    for m in sorted(res, key=lambda m: m[0]):
        if m[2] not in seen:
            seen.add(m[2])
            unique.append(m)
    return unique


def cover(props):
    os.makedirs(ROOT, exist_ok=True)
    path = os.path.join(ROOT, "cover.json")
    table = json.load(open(path)) if os.path.exists(path) else {}
    with concurrent.futures.ThreadPoolExecutor(7) as pool:
        for prop, r in zip(props, pool.map(lambda p: launch(REPO, [p], 6, 60, 900, "cover" + p), props)):
            if r["killed"]:
                print(prop, r)
            else:
                table[prop] = r["cover"][prop]
    json.dump(table, open(path, "w"))


def run(name, lo, hi, jobs):
    table = json.load(open(os.path.join(ROOT, "cover.json")))
    by_line = {}
    for prop, lines in table.items():
        for f, n in lines:
            if f == name:
                by_line.setdefault(n, []).append(prop)
    size = {p: len(v) for p, v in table.items()}
    with open(os.path.join(REPO, "gsapi", name), encoding="utf-8", newline="") as f:
        source = f.read()
    work = [m for m in mutants(source) if lo <= m[0] <= hi]
    headers = {}     # line of a def: lines of its body
    for node in ast.walk(ast.parse(source)):
        if isinstance(node, ast.FunctionDef):
            for n in range(node.lineno, node.body[0].lineno):
                headers[n] = range(node.body[0].lineno, node.end_lineno + 1)
    work = [m for m in work if m[0] in headers] if os.environ.get("HEADERS") else work
    log = open(os.path.join(ROOT, "log-" + name), "a")
    lock = threading.Lock()
    stats = {"killed": 0, "survived": 0, "uncovered": 0}

    def one(k):
        line, what, changed = work[k]
        props = sorted(by_line.get(line, ()), key=lambda p: size[p])
        if line in headers:
            props = sorted({p for n in headers[line] for p in by_line.get(n, ())}, key=lambda p: size[p])
        if not props:
            # a line inside a statement that began before
            for back in range(line - 1, max(0, line - 8), -1):
                if back in by_line:
                    props = sorted(by_line[back], key=lambda p: size[p])
                    break
        repo = os.path.join(ROOT, "repo-%s-%d" % (name, k))
        shutil.copytree(os.path.join(REPO, "gsapi"), os.path.join(repo, "gsapi"))
        try:
            with open(os.path.join(repo, "gsapi", name), "w", encoding="utf-8", newline="") as f:
                f.write(changed)
            r = launch(repo, props, 6, 10, 300, "%s-%d" % (name, k)) if props else {"killed": None}
            if r["killed"] is None and props:
                r = launch(repo, props, 1, 20, 1200, "%s-%d" % (name, k))
        finally:
            shutil.rmtree(repo, ignore_errors=True)
        with lock:
            kind = "killed" if r["killed"] else "survived" if props else "uncovered"
            stats[kind] += 1
            if kind != "killed":
                log.write("%s %s:%d %s   [%s]\n" % (kind, name, line, what, " ".join(props)))
                log.flush()
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        list(pool.map(one, range(len(work))))
    log.write("# %s lines %d-%d: %r of %d\n" % (name, lo, hi, stats, len(work)))
    log.close()


if __name__ == "__main__":
    if sys.argv[1] == "worker":
        worker(sys.argv[2], sys.argv[3], int(sys.argv[4]), float(sys.argv[5]), sys.argv[6:])
    elif sys.argv[1] == "cover":
        cover(sys.argv[2:] or PROPS)
    else:
        lo, hi = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (1, 10 ** 6)
        run(sys.argv[2], lo, hi, int(os.environ.get("JOBS", "6")))
