"""Developer tool: apply one textual change to a scratch copy of /repo and run
checks on it.  usage: trymut.py MUTFILE [name ...] [--props C01,C02]
MUTFILE: python file defining MUT = {name: (file, old, new, expected)}; expected
is a set of property ids that must report, or None for a change that preserves
behaviour (everything must stay quiet)."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(name, mut, props):
    edits = mut[0] if isinstance(mut[0], list) else [mut[:3]]
    exp = mut[-1]
    d = tempfile.mkdtemp(prefix="rgm_")
    try:
        shutil.copytree("/repo/src", d + "/src")
        shutil.copytree("/repo/scripts", d + "/scripts")
        shutil.copytree("/repo/docs", d + "/docs")
        shutil.copy("/repo/pyproject.toml", d)
        for f, old, new in edits:
            p = os.path.join(d, "src/rigeo", f) if not f.startswith("/") else d + f
            s = open(p).read()
            if s.count(old) < 1:
                return name, "BADMUT", f"pattern occurs {s.count(old)} times in {f}"
            open(p, "w").write(s.replace(old, new, 1))
        out, hit = [], set()
        ps = props or [f[:-3].upper() for f in sorted(os.listdir(V + "/rgcheck/props")) if f.startswith("c") and f.endswith(".py")]
        for p in ps:
            try:
                r = subprocess.run(["python3-vt", "-m", "rgcheck", p], cwd=V, env=dict(os.environ, RGCHECK_REPO=d, RGCHECK_OUT=d, RGCHECK_JOBS="1"), capture_output=True, text=True, timeout=1800)
            except subprocess.TimeoutExpired:
                out.append(f"{p}: timeout")
                hit.add(p + "?")
                continue
            if r.returncode == 1:
                hit.add(p)
                out += [l for l in r.stdout.splitlines() if l.startswith("  ")][:2]
            elif r.returncode != 0:
                out.append(f"{p}: exit {r.returncode} {r.stdout[-200:]} {r.stderr[-300:]}")
                hit.add(p + "?")
        if exp is None:
            st = "ok-quiet" if not hit else "FALSE-ALARM"
        else:
            st = "caught" if hit & exp else ("caught-elsewhere" if hit else "MISSED")
        return name, st, f"{sorted(hit)} expected {sorted(exp) if exp else exp}\n      " + "\n      ".join(x[:260] for x in out[:4])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("muts", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    names = [a for a in sys.argv[2:] if not a.startswith("--")]
    props = None
    for a in sys.argv[2:]:
        if a.startswith("--props="):
            props = a[8:].split(",")
    todo = {k: v for k, v in m.MUT.items() if not names or any(n in k for n in names)}
    if props:
        todo = {k: v for k, v in todo.items() if v[-1] is None or v[-1] & set(props) or names}
    with ThreadPoolExecutor(7) as ex:
        for n, st, d in ex.map(lambda kv: run(kv[0], kv[1], props if props else None), todo.items()):
            print(f"{st:17s} {n}: {d}", flush=True)
