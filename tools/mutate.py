#!/usr/bin/env python3
"""Development aid: mutate functions of a scratch copy and see which mutants the checks miss.

mutate.py --checks C01,C02 --funcs zigpy.appdb:PersistingListener._worker,... [--tests] [--max N]
Nothing is executed from the mutants unless --tests is given (survivors are then run through
the stable tests of the scratch copy, to tell the interesting misses from the others).
"""
import argparse, ast, copy, concurrent.futures as cf, fnmatch, json, os, pathlib, random, re, shutil, subprocess, sys, tempfile, threading, queue

VERIF = pathlib.Path(__file__).resolve().parent.parent
SCR = pathlib.Path("/tmp/mut")


def functions(path):
    src = (pathlib.Path("/repo") / path).read_text()
    tree = ast.parse(src)
    out = {}

    def rec(node, prefix):
        for n in getattr(node, "body", []):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out[prefix + n.name] = n
            elif isinstance(n, ast.ClassDef):
                rec(n, prefix + n.name + ".")
    rec(tree, "")
    return src, out


LOG = {"debug", "info", "warning", "error", "exception", "log"}


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in LOG


def mutants(fn):
    """Yield (description, mutated function node)."""
    nodes = list(ast.walk(fn))
    parents = {}
    for n in nodes:
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def inlog(n):
        while n in parents:
            if is_log(n):
                return True
            n = parents[n]
        return False

    def emit(desc, idx, edit):
        m = copy.deepcopy(fn)
        t = list(ast.walk(m))[idx]
        if edit(t, m) is False:
            return None
        ast.fix_missing_locations(m)
        return (f"L{getattr(nodes[idx], 'lineno', '?')} {desc}", m)

    for i, n in enumerate(nodes):
        if inlog(n) or (i and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and False):
            continue
        # statement lists
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if not isinstance(b, list):
                continue
            for j, st in enumerate(b):
                if is_log(st) or isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom)):
                    continue
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                if isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.AsyncWith, ast.AsyncFor)):
                    def unwrap(t, m, field=field, j=j):
                        l = getattr(t, field)
                        l[j:j + 1] = l[j].body
                        if not any(True for _ in l):
                            l.append(ast.Pass())
                    if not isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
                        yield emit(f"unwrap `{ast.unparse(st).splitlines()[0][:60]}`", i, unwrap)
                if isinstance(st, ast.Try):
                    def untry(t, m, field=field, j=j):
                        l = getattr(t, field)
                        x = l[j]
                        l[j:j + 1] = x.body + x.orelse + x.finalbody
                    yield emit("drop try", i, untry)

                def dele(t, m, field=field, j=j):
                    l = getattr(t, field)
                    l[j] = ast.Pass()
                yield emit(f"delete `{ast.unparse(st).splitlines()[0][:70]}`", i, dele)
                if j + 1 < len(b) and not is_log(b[j + 1]):
                    def swap(t, m, field=field, j=j):
                        l = getattr(t, field)
                        l[j], l[j + 1] = l[j + 1], l[j]
                    yield emit(f"swap `{ast.unparse(st).splitlines()[0][:40]}` <-> `{ast.unparse(b[j+1]).splitlines()[0][:40]}`", i, swap)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            def neg(t, m):
                t.test = ast.UnaryOp(ast.Not(), t.test)
            yield emit(f"negate `{ast.unparse(n.test)[:60]}`", i, neg)
            if not isinstance(n, ast.While):
                for v in (True, False):
                    def setc(t, m, v=v):
                        t.test = ast.Constant(v)
                    yield emit(f"`{ast.unparse(n.test)[:60]}` := {v}", i, setc)
        if isinstance(n, ast.BoolOp):
            def flip(t, m):
                t.op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            yield emit(f"flip and/or in `{ast.unparse(n)[:60]}`", i, flip)
            for k in range(len(n.values)):
                def drop(t, m, k=k):
                    del t.values[k]
                    if len(t.values) == 1:
                        v = t.values[0]
                        t.values = [v, v]
                yield emit(f"drop operand `{ast.unparse(n.values[k])[:50]}`", i, drop)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                   ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
            for o in alt.get(type(n.ops[0]), []):
                def cmpm(t, m, o=o):
                    t.ops = [o()]
                yield emit(f"`{ast.unparse(n)[:60]}` op -> {o.__name__}", i, cmpm)
        if isinstance(n, ast.Constant) and not isinstance(parents.get(n), ast.Expr) and not isinstance(parents.get(n), (ast.JoinedStr,)):
            v = n.value
            news = []
            if isinstance(v, bool):
                news = [not v]
            elif isinstance(v, int):
                news = [v + 1]
            elif v is None and not isinstance(parents.get(n), ast.arguments):
                news = []
            elif isinstance(v, str) and len(v) < 40:
                news = [v + "_x"]
            elif isinstance(v, str):
                news = []
            for nv in news:
                def cst(t, m, nv=nv):
                    t.value = nv
                yield emit(f"const {v!r} -> {nv!r}", i, cst)
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                def dk(t, m, k=k):
                    del t.keywords[k]
                yield emit(f"drop kw {n.keywords[k].arg} of `{ast.unparse(n.func)[:40]}`", i, dk)
            if len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    def sw(t, m, k=k):
                        t.args[k], t.args[k + 1] = t.args[k + 1], t.args[k]
                    yield emit(f"swap args {k},{k+1} of `{ast.unparse(n.func)[:40]}`", i, sw)
                def dl(t, m):
                    del t.args[-1]
                yield emit(f"drop last arg of `{ast.unparse(n.func)[:40]}`", i, dl)
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.Mult}
            o = alt.get(type(n.op))
            if o:
                def bo(t, m, o=o):
                    t.op = o()
                yield emit(f"`{ast.unparse(n)[:50]}` op -> {o.__name__}", i, bo)
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            def rn(t, m):
                t.value = ast.Constant(None)
            yield emit(f"return None instead of `{ast.unparse(n.value)[:50]}`", i, rn)
        if isinstance(n, ast.Break):
            pass
        if isinstance(n, ast.ExceptHandler):
            def he(t, m):
                t.body = [ast.Raise()]
            if not (len(n.body) == 1 and isinstance(n.body[0], ast.Raise)):
                yield emit(f"handler {ast.unparse(n.type) if n.type else ''} re-raises", i, he)
            else:
                def hp(t, m):
                    t.body = [ast.Pass()]
                yield emit(f"handler {ast.unparse(n.type) if n.type else ''} swallows", i, hp)
            if n.type is not None:
                def hr(t, m):
                    t.type = ast.Name("ZeroDivisionError", ast.Load())
                yield emit(f"handler {ast.unparse(n.type)} narrowed away", i, hr)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--checks", required=True)
    ap.add_argument("--funcs", required=True, help="module:Class.func[,..] (fnmatch)")
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--max", type=int, default=100000)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--quiet", action="store_true")
    a = ap.parse_args()
    jobs = []
    for spec in a.funcs.split(","):
        mod, _, pat = spec.partition(":")
        path = mod.replace(".", "/") + ".py"
        if not (pathlib.Path("/repo") / path).exists():
            path = mod.replace(".", "/") + "/__init__.py"
        src, fns = functions(path)
        for name, fn in fns.items():
            if fnmatch.fnmatch(name, pat or "*"):
                for m in mutants(fn):
                    if m is None:
                        continue
                    lines = src.splitlines(keepends=True)
                    lo = min([fn.lineno] + [d.lineno for d in fn.decorator_list]) - 1
                    ind = re.match(r"\s*", lines[fn.lineno - 1]).group(0)
                    try:
                        txt = ast.unparse(m[1])
                    except Exception:
                        continue
                    txt = "".join(ind + l + "\n" if l else "\n" for l in reindent(txt))
                    new = "".join(lines[:lo]) + txt + "".join(lines[fn.end_lineno:])
                    try:
                        compile(new, path, "exec")
                    except SyntaxError:
                        continue
                    jobs.append((path, name, m[0], new))
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[:a.max]
    print(f"{len(jobs)} mutants")
    SCR.mkdir(exist_ok=True)
    pool = queue.Queue()
    for i in range(a.j):
        w = SCR / f"w{os.getpid()}_{i}"
        w.mkdir()
        subprocess.run(["cp", "-a", "/repo/zigpy", "/repo/tests", "/repo/pyproject.toml", str(w)], check=True)
        pool.put(w)
    base = json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())
    out = {"killed": 0, "broken": 0, "missed": []}
    lock = threading.Lock()

    def one(job):
        path, name, desc, new = job
        w = pool.get()
        try:
            f = w / path
            f.write_text(new)
            env = dict(os.environ, ZCHECK_REPO=str(w), ZCHECK_EVIDENCE=str(w / "ev"))
            rcs = []
            killer = []
            for c in a.checks.split(","):
                r = subprocess.run([sys.executable, str(VERIF / "check.py"), c], env=env, capture_output=True, text=True)
                rcs.append(r.returncode)
                if r.returncode == 1:
                    killer.append(c)
                    break
            if killer:
                res = "killed"
            elif any(rcs):
                res = "broken"
            else:
                res = "missed"
            tests = ""
            if res in ("missed", "broken") and a.tests:
                e2 = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC", LANG="C.UTF-8")
                try:
                    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", f"--basetemp={w}/t",
                                        "--ignore=tests/ota/test_ota_providers.py", "--deselect", "tests/test_quirks_v2.py::test_quirks_v2",
                                        "--deselect", "tests/test_serial.py::test_pyserial_error_remapping", *os.environ.get("MUT_TESTS", "tests").split()], cwd=w, env=e2, capture_output=True, text=True, timeout=600)
                    tests = "TESTS-PASS" if t.returncode == 0 else "tests-fail"
                except subprocess.TimeoutExpired:
                    tests = "tests-hang"
            with lock:
                if res == "killed":
                    out["killed"] += 1
                elif res == "broken":
                    out["broken"] += 1
                    if tests != "tests-fail":
                        print("BROKEN", name, desc, tests, r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else r.stderr[-200:])
                else:
                    out["missed"].append((name, desc, tests))
                    if not (tests == "tests-fail" and a.quiet):
                        print("MISSED", name, desc, tests, flush=True)
        finally:
            shutil.copy(pathlib.Path("/repo") / path, w / path)
            pool.put(w)
    with cf.ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, jobs))
    print("killed", out["killed"], "broken", out["broken"], "missed", len(out["missed"]), "missed+tests pass", sum(1 for x in out["missed"] if x[2] == "TESTS-PASS"))
    for i in range(a.j):
        shutil.rmtree(SCR / f"w{os.getpid()}_{i}")


def reindent(txt):
    # multi-line strings must not be touched: ast.unparse renders them escaped on one line
    return txt.splitlines()


main()
