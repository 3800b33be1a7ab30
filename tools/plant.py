"""Developer tool: make /verif/seeded/<id> from a specification and confirm it.
usage: plant.py SPECFILE [id ...]
SPECFILE defines SEED = {id: dict(property, file, old, new | edits, demo, needs, breaks)}."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=900, shell=isinstance(cmd, str))


def run(sid, s):
    d = tempfile.mkdtemp(prefix="plant_")
    try:
        sh(f"git clone -q /repo {d}/repo", "/")
        r = d + "/repo"
        for f, old, new in s.get("edits") or [(s["file"], s["old"], s["new"])]:
            p = os.path.join(r, "src/rigeo", f)
            t = open(p).read()
            if t.count(old) < 1:
                return sid, f"BAD pattern in {f}"
            open(p, "w").write(t.replace(old, new, 1))
        diff = sh("git diff", r).stdout
        # only original lines may change
        fixed = set()
        for f in sh("git diff --name-only", r).stdout.split():
            for l in sh(f"git blame -s HEAD -- {f}", r).stdout.splitlines():
                if not l.startswith("^"):
                    fixed.add(l.split(") ", 1)[-1].strip())
        bad = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() in fixed]
        env = dict(os.environ, PYTHONPATH=r + "/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-n", "2", "--timeout=300", "--tb=line"], r, env)
        o = os.path.join(V, "seeded", sid)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(o + "/demo.sh", "w").write('#!/bin/bash\ncd "$(dirname "$0")" || exit 1\nexport OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python demo.py\n')
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1, ensure_ascii=False)
        a = sh(["bash", o + "/demo.sh"], "/repo", {k: v for k, v in os.environ.items()})
        b = sh(["bash", o + "/demo.sh"], r, env)
        passed = "68 passed" in t.stdout
        ok = passed and a.returncode == 0 and b.returncode != 0 and not bad
        msg = "ok" if ok else f"tests={t.returncode} demo clean={a.returncode} patched={b.returncode} fixlines={bad} {t.stdout[-300:] if not passed else ''} {a.stderr[-300:] if a.returncode else ''}"
        hits = ""
        if ok:
            g = sh(["python3-vt", "-m", "rgcheck", s["property"]], V, dict(os.environ, RGCHECK_REPO=r, RGCHECK_OUT=d))
            hits = f"check exit {g.returncode}: " + next((l for l in g.stdout.splitlines() if l.startswith("  ")), "")[:200]
        else:
            shutil.rmtree(o)
        return sid, msg + " " + hits
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = {k: v for k, v in m.SEED.items() if len(sys.argv) < 3 or k in sys.argv[2:]}
    with ThreadPoolExecutor(3) as ex:
        for sid, msg in ex.map(lambda kv: run(*kv), todo.items()):
            print(f"{sid}: {msg}", flush=True)
