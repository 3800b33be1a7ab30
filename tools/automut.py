"""Developer tool: systematic single-point mutants of /repo/src/rigeo, each run through
the checks (cheap ones first, stopping at the first that reports).  Prints the survivors.
usage: automut.py [--n=400] [--seed=1] [--files=box,util] [--jobs=7] [--list]"""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/rigeo"
ORDER = "C06 C08 C23 C24 C12 C22 C13 C18 C16 C21 C07 C20 C09 C02 C14 C05 C19 C17 C04 C10 C03 C11 C01 C15".split()
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in"}


def seg(lines, n):
    """(start, end) offsets of a node in the text."""
    off = lambda l, c: sum(len(x) for x in lines[: l - 1]) + len(lines[l - 1].encode()[:c].decode())
    return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)


def mutants(path):
    s = open(path).read()
    lines = s.splitlines(keepends=True)
    tree = ast.parse(s)
    out = []

    def add(n, new, what, fn):
        a, b = seg(lines, n)
        out.append((path, a, b, new, f"{os.path.relpath(path, SRC)}:{n.lineno} {fn}: {what}"))

    def txt(n):
        a, b = seg(lines, n)
        return s[a:b]

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in ("__str__", "__repr__", "__hash__"):
                return
            fn = f"{fn}.{n.name}" if fn else n.name
        if isinstance(n, ast.BinOp):
            t = BIN.get(type(n.op))
            if t:
                add(n, f"({txt(n.left)} {t} {txt(n.right)})", f"{txt(n)[:60]} -> {t}", fn)
            if isinstance(n.op, ast.MatMult):
                add(n, f"({txt(n.right)} @ {txt(n.left)})", f"{txt(n)[:60]} -> swapped", fn)
                add(n, f"({txt(n.left)})", f"{txt(n)[:60]} -> left", fn)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            t = CMP[type(n.ops[0])]
            add(n, f"({txt(n.left)} {t} {txt(n.comparators[0])})", f"{txt(n)[:60]} -> {t}", fn)
        elif isinstance(n, ast.BoolOp):
            t = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + t.join(f"({txt(v)})" for v in n.values) + ")", f"{txt(n)[:60]} ->{t}", fn)
        elif isinstance(n, ast.UnaryOp):
            add(n, f"({txt(n.operand)})", f"{txt(n)[:60]} -> operator dropped", fn)
        elif isinstance(n, ast.Constant) and fn:
            if isinstance(n.value, bool):
                add(n, str(not n.value), f"{n.value} flipped", fn)
            elif isinstance(n.value, (int, float)):
                add(n, str(n.value + 1) if isinstance(n.value, int) else repr(n.value * 2), f"{n.value} changed", fn)
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            add(n, f"({txt(n.value)})", f"{txt(n)[:60]} -> not transposed", fn)
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                args = [txt(a) for a in n.args] + [f"{q.arg}={txt(q.value)}" if q.arg else f"**{txt(q.value)}" for j, q in enumerate(n.keywords) if j != i]
                add(n, f"{txt(n.func)}({', '.join(args)})", f"{txt(n)[:50]} without {k.arg}", fn)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                args = [txt(a) for a in n.args]
                args[0], args[1] = args[1], args[0]
                add(n, f"{txt(n.func)}({', '.join(args + [f'{q.arg}={txt(q.value)}' if q.arg else f'**{txt(q.value)}' for q in n.keywords])})", f"{txt(n)[:50]} first two arguments swapped", fn)
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Attribute):
                add(n, f"({txt(n.args[0])})", f"{txt(n)[:50]} -> argument", fn)
            if not n.args and not n.keywords and isinstance(n.func, ast.Attribute):
                add(n, f"({txt(n.func.value)})", f"{txt(n)[:50]} -> receiver", fn)
        elif isinstance(n, ast.IfExp):
            add(n, f"({txt(n.body)})", f"{txt(n)[:50]} -> body", fn)
            add(n, f"({txt(n.orelse)})", f"{txt(n)[:50]} -> else", fn)
        elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(getattr(n, "ctx", None), ast.Load) and len(n.elts) >= 2 and fn:
            e = [txt(x) for x in n.elts]
            b = "[]" if isinstance(n, ast.List) else "()"
            add(n, b[0] + ", ".join(e[:-1]) + ("," if b == "()" else "") + b[1], f"{txt(n)[:50]} last element dropped", fn)
            e[0], e[1] = e[1], e[0]
            add(n, b[0] + ", ".join(e) + b[1], f"{txt(n)[:50]} first two swapped", fn)
        elif isinstance(n, (ast.Assert, ast.Raise, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", f"deleted: {txt(n)[:60]}", fn)
        elif isinstance(n, ast.If) and fn:
            add(n.test, "True", f"if {txt(n.test)[:50]} always", fn)
            add(n.test, "False", f"if {txt(n.test)[:50]} never", fn)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            visit(c, fn)

    visit(tree, "")
    ok = []
    for m in out:
        t = s[: m[1]] + m[3] + s[m[2]:]
        try:
            if ast.dump(ast.parse(t)) != ast.dump(tree):
                ok.append(m)
        except SyntaxError:
            pass
    return ok


def run(m):
    path, a, b, new, what = m
    d = tempfile.mkdtemp(prefix="rga_")
    try:
        for x in ("src", "scripts", "docs"):
            shutil.copytree(f"/repo/{x}", f"{d}/{x}")
        shutil.copy("/repo/pyproject.toml", d)
        p = d + path[len("/repo"):]
        s = open(p).read()
        open(p, "w").write(s[:a] + new + s[b:])
        # only changes that the tests miss matter
        shutil.copytree("/repo/tests", f"{d}/tests")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=120", "--tb=no"], cwd=d, env=dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"), capture_output=True, text=True)
        if "68 passed" not in t.stdout:
            return what, "tested", ""
        for c in ORDER:
            try:
                r = subprocess.run(["python3-vt", "-m", "rgcheck", c], cwd=V, env=dict(os.environ, RGCHECK_REPO=d, RGCHECK_OUT=d, RGCHECK_JOBS="1"), capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                return what, "TIMEOUT", c
            if r.returncode == 1:
                return what, "caught", c
            if r.returncode:
                return what, "ERROR", c + " " + r.stderr[-300:] + r.stdout[-200:]
        # would the tests notice?
        return what, "SURVIVED", ""
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    opt = dict(a[2:].split("=") if "=" in a else (a[2:], "1") for a in sys.argv[1:])
    ms = []
    for root, _, fs in os.walk(SRC):
        if "unused" in root:
            continue
        for f in sorted(fs):
            if f.endswith(".py") and f != "test_util.py" and (not opt.get("files") or f[:-3] in opt["files"].split(",")):
                ms += mutants(os.path.join(root, f))
    print(len(ms), "mutants", flush=True)
    random.Random(int(opt.get("seed", 1))).shuffle(ms)
    ms = ms[: int(opt.get("n", 400))]
    if "list" in opt:
        for m in ms:
            print(m[4])
        sys.exit()
    with ThreadPoolExecutor(int(opt.get("jobs", 7))) as ex:
        for f in as_completed([ex.submit(run, m) for m in ms]):
            w, st, d = f.result()
            print(f"{st:9s} {d:4s} {w}", flush=True)
