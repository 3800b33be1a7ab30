"""Obligations, comparison of abstract values, verdicts, evidence.

An obligation states that one construct of the analysed source denotes a given
abstract value (or set, or has a given effect).  It ends as

  proved     the canonical forms agree (for every value of every input atom)
  violated   the abstract values are shown to denote different functions, or an
             abstract trace of a valid call ends in an exception
  undecided  the analysis lost precision; nothing is claimed, nothing is alarmed
"""
import ast
import json
import os
import random
import sys
import time
import signal
import traceback

import numpy as np

from . import alg, cond
from .alg import ATOMS, Rat, R
from .cond import B, beval, batoms, bleaves, conj_ineqs
from .interp import Arr, Interp, Opaque, PyObj, Raised, Undecided, Native, Func, Bound, PyClass

REPO = os.environ.get("RGCHECK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEBUG = bool(os.environ.get("RGDEBUG"))

L, M, ONE = (1, 0, 0), (0, 1, 0), (0, 0, 0)


class Anchor(Exception):
    """A public construct a property is anchored on no longer exists."""


class Special(list):
    """Branch outcomes of a trace on which an equality holds."""


class budget:
    """Time allowed for one trace: beyond it the trace is undecided."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def stop(*a):
            raise Undecided("time budget of one trace used up")

        self.old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Ctx:
    def __init__(self, prop, tier="quick", repo=None, load=True):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self._bounds = None
        self.repo = repo or REPO
        sys.setrecursionlimit(20000)
        self.I = Interp(os.path.join(self.repo, "src"))
        try:
            self.m = self.I.load("rigeo") if load else None
        except (Raised, Undecided) as e:
            raise Anchor(f"the package cannot be loaded: {e}")
        self.results = []
        self.paths_seen = 0
        self.truncated = 0
        self.memo = {}
        self.t0 = time.time()
        self.notes = []
        self.base = {}
        self.functions = set()

    # ------------------------------------------------------------ inputs
    def sym(self, name, lo=-alg.INF, hi=alg.INF, unit=ONE, strict=False, dec=False, integer=False):
        k = ("sym", name, unit, dec)
        if k not in self.memo:
            self.memo[k] = alg.new(name, lo, hi, unit=unit, strict=strict, dec=dec, integer=integer)
        return self.memo[k]

    def pos(self, name, unit=L):
        return self.sym(name, 0, unit=unit, strict=True)

    def nn(self, name, unit=L):
        return self.sym(name, 0, unit=unit)

    def vec(self, name, n=3, unit=L):
        return [self.sym(f"{name}{i}", unit=unit) for i in range(n)]

    def mat(self, name, n, m, unit=L):
        return [[self.sym(f"{name}{i}{j}", unit=unit) for j in range(m)] for i in range(n)]

    def posvec(self, name, n=3, unit=L):
        return [self.pos(f"{name}{i}", unit) for i in range(n)]

    def rot(self, name="R", n=3):
        k = ("rot", name, n)
        if k not in self.memo:
            self.memo[k] = alg.Rotation(name, n).matrix() if n > 1 else [[Rat.const(1)]]
        return self.memo[k]

    def token(self, name):
        """A value whose only known property is its identity."""
        k = ("token", name)
        if k not in self.memo:
            self.memo[k] = Opaque(name)
        return self.memo[k]

    def A(self, x, dt="f"):
        x = np_obj(x)
        if dt == "f":
            x = emap(lambda v: R(v) if not isinstance(v, (float, B)) else v, x)
        return Arr(x, dt)

    def eye(self, n=3):
        return [[Rat.const(int(i == j)) for j in range(n)] for i in range(n)]

    # ------------------------------------------------------------ access
    def get(self, name):
        """Public name of the package, dotted through modules and classes."""
        parts = name.split(".")
        v = self.m.scope.vars
        if parts[0] not in v:
            mod = None
            for i in range(len(parts) - 1, 0, -1):
                try:
                    mod = self.I.load("rigeo." + ".".join(parts[:i]))
                except Raised:
                    continue
                break
            if mod is None:
                raise Anchor(f"rigeo.{name}")
            o, rest = mod, parts[i:]
        else:
            o, rest = v[parts[0]], parts[1:]
        for p in rest:
            try:
                o = self.I.getattr(o, p)
            except Raised:
                raise Anchor(f"rigeo.{name}")
        return o

    def func(self, clsname, meth):
        """The function object that implements a method (for reporting)."""
        c = self.get(clsname)
        f = c.find(meth) if isinstance(c, PyClass) else None
        return f

    def where(self, dotted):
        """file:line (qualified name) of a function or class of the package."""
        parts = dotted.split(".")
        o = self.m.scope.vars.get(parts[0])
        try:
            if o is None:
                o = self.get(dotted)
                parts = parts[:1]
            for p in parts[1:]:
                o = o.find(p) if isinstance(o, PyClass) else self.I.getattr(o, p)
        except (Anchor, Raised, Undecided):
            o = None
        for at in ("fget", "f", "func"):
            while hasattr(o, at) and not isinstance(o, Func):
                o = getattr(o, at)
        if isinstance(o, Func):
            p = os.path.relpath(o.mod.path, self.repo)
            return f"{p}:{o.node.lineno} {o.qual}"
        if isinstance(o, PyClass) and o.mod is not None and o.mod.path:
            return f"{os.path.relpath(o.mod.path, self.repo)} {o.qual}"
        return dotted

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        return self.I.call(f, list(args), kw)

    def meth(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    def attr(self, o, name):
        return self.I.getattr(o, name)

    # ------------------------------------------------------------ obligations
    def rec(self, status, rule, construct, detail="", n=1):
        self.results.append({"status": status, "rule": rule, "construct": construct, "detail": str(detail)[:900]})

    def fail(self, rule, construct, detail):
        self.rec("violated", rule, construct, detail)

    def ok(self, rule, construct, detail=""):
        self.rec("proved", rule, construct, detail)

    def unk(self, rule, construct, detail=""):
        self.rec("undecided", rule, construct, detail)

    def start(self, **scenario):
        self.functions |= self.I.funcs_seen
        self.I.reset()
        self.I.scenario = dict(self.base)
        self.I.scenario.update(scenario)

    def run(self, rule, construct, thunk, limit=6, flip=None, raises=False, special=True, **scenario):
        """Analyse the traces of thunk() and judge each with its own verdicts:
        thunk returns an iterable of (ok, detail) / uses self.same etc.  A valid
        call must not raise."""
        cw = self.where(construct) if " " not in construct else construct
        for pre, out in self.paths(thunk, limit, flip, scenario, special):
            kind, v, dec = out
            if isinstance(pre, Special):
                # the same construct where an equality it branches on holds
                if kind == "raise":
                    w = self.feasible(dec)
                    if w:
                        self.fail(rule, cw, f"a valid call raises {v.kind}: {v.msg} at {v.where}{wit(w)}")
                elif kind == "ok":
                    for j in v or []:
                        c = self.where(j[2]) if len(j) > 2 and j[2] else cw
                        if j[0] is True or j[0] == "proved":
                            self.ok(rule, c, j[1])
                        elif j[0] == "diff" and self.feasible(dec):
                            self.fail(rule, c, f"{j[1]} (special case of a branch)")
                continue
            if kind == "raise":
                w = self.feasible(dec)
                if w is None:
                    self.unk(rule, cw, f"raises {v} on a trace not shown feasible")
                elif w is False:
                    continue
                else:
                    self.fail(rule, cw, f"a valid call raises {v.kind}: {v.msg} at {v.where}{wit(w)}")
            elif kind == "unk":
                if pre and ("does not settle" in v or "budget of one trace" in v):
                    self.truncated += 1
                else:
                    self.unk(rule, cw, v)
            else:
                for j in v or []:
                    st, detail = j[0], j[1]
                    c = self.where(j[2]) if len(j) > 2 and j[2] else cw
                    if st is True or st == "proved":
                        self.ok(rule, c, detail)
                    elif st == "undecided":
                        self.unk(rule, c, detail)
                    elif st == "diff":
                        # mismatch on this trace: need the trace to be feasible
                        w = self.feasible(dec)
                        if w is None or w is False:
                            self.unk(rule, c, f"{detail} (trace not shown feasible)")
                        else:
                            self.fail(rule, c, detail)
                    else:
                        self.fail(rule, c, detail)

    def parallel(self, items, fn, workers=None):
        """Judge independent groups of obligations in forked workers."""
        import multiprocessing as mp

        items = list(items)
        k = min(workers or int(os.environ.get("RGCHECK_JOBS", "6")), len(items))
        if k <= 1:
            for x in items:
                fn(x)
            return
        ctx = mp.get_context("fork")
        q = ctx.SimpleQueue()
        work = ctx.Value("i", 0)

        def child():
            base = len(self.results)
            p0 = self.paths_seen
            anchor, where = None, {}
            try:
                while True:
                    with work.get_lock():
                        i = work.value
                        work.value += 1
                    if i >= len(items):
                        break
                    n0 = len(self.results)
                    fn(items[i])
                    where[i] = (n0, len(self.results))
            except Anchor as e:
                anchor = str(e)
            except BaseException as e:
                if DEBUG:
                    traceback.print_exc()
                self.unk("engine", "worker", f"{type(e).__name__}: {e}")
                where[i] = (n0, len(self.results))
            parts = {i: self.results[a:b] for i, (a, b) in where.items()}
            q.put((parts, self.paths_seen - p0, self.functions | self.I.funcs_seen, self.I.visited, anchor))
            sys.stdout.flush()
            os._exit(0)

        sys.stdout.flush()
        ps = [ctx.Process(target=child) for _ in range(k)]
        for p in ps:
            p.start()
        allp, anchor, got = {}, None, 0
        while got < k:
            if q.empty():
                if not any(p.is_alive() for p in ps):
                    time.sleep(0.3)
                    if q.empty():
                        break
                time.sleep(0.02)
                continue
            parts, n, fs, vis, an = q.get()
            got += 1
            allp.update(parts)
            self.paths_seen += n
            self.functions |= fs
            self.I.visited |= vis
            anchor = anchor or an
        for p in ps:
            p.join()
        for i in range(len(items)):
            self.results += allp.get(i, [])
        if anchor:
            raise Anchor(anchor)
        lost = [i for i in range(len(items)) if i not in allp]
        if lost:
            self.unk("engine", "worker", f"{len(lost)} groups of obligations were not analysed: a worker ended early")

    def paths(self, thunk, limit, flip, scenario, special=True):
        todo, n, flipped = [([], None)], 0, {}
        cap = (12 if self.thorough else 4) if special else 0
        special, seen = [], set()
        while todo and n < limit or special and limit > 1:
            if todo and n < limit:
                # branches at places not flipped yet come first
                k = min(range(len(todo)), key=lambda i: flipped.get(todo[i][1], 0))
                pre, at = todo.pop(k)
                flipped[at] = flipped.get(at, 0) + 1
            else:
                pre = special.pop(0)
            if time.time() - self.t0 > (7200 if self.thorough else 660):
                yield pre, ("unk", "time budget of the run used up", [])
                return
            self.start(**{k: (v() if k.startswith("mk_") else v) for k, v in scenario.items()})
            self.I.prefix = pre
            self.I.MAX_LOOP = (60 if self.thorough else 16) if pre else 400
            n += 1
            self.paths_seen += 1
            try:
                with budget(120 if self.thorough else 20):
                    v = thunk()
                    if v is not None and not isinstance(v, (list, tuple)):
                        v = list(v)
                out = ("ok", v, list(self.I.decisions))
            except Raised as e:
                out = ("raise", e, list(self.I.decisions))
            except Undecided as e:
                out = ("unk", f"{e} ({self.I.where()})", list(self.I.decisions))
            except alg.TooBig:
                out = ("unk", "abstract value too large", list(self.I.decisions))
            except Anchor:
                raise
            except (alg.DivByZero, alg.UnitError) as e:
                out = ("unk", f"{type(e).__name__} {e}", list(self.I.decisions))
            except Exception as e:  # engine limitation
                if DEBUG:
                    traceback.print_exc()
                out = ("unk", f"engine: {type(e).__name__}: {e} at {self.I.where()}", list(self.I.decisions))
            yield pre, out
            dec = out[2]
            if limit > 1:
                for i in range(len(pre), len(dec)):
                    d = dec[i]
                    if d[3] in ("hook", "assert"):
                        continue
                    if flip is None and is_eq(d[4]):
                        key = (d[1], d[0])
                        if not isinstance(pre, Special) and len(seen) < cap and key not in seen:
                            seen.add(key)
                            special.append(Special([x[2] for x in dec[:i]] + [not d[2]]))
                        continue
                    if isinstance(pre, Special):
                        continue
                    if flip is not None and not flip(d):
                        continue
                    todo.append(([x[2] for x in dec[:i]] + [not d[2]], d[1]))
        self.functions |= self.I.funcs_seen

    # ------------------------------------------------------------ feasibility
    def feasible(self, dec, tries=300):
        """{} / witness assignment satisfying the branch outcomes of a trace;
        False if contradictory by simplification, None if none was found."""
        conds = []
        for d in dec:
            if d[3] == "hook":
                continue
            b = d[4]
            if isinstance(b, bool):
                if b != d[2]:
                    return False
                continue
            conds.append(b if d[2] else cond.bnot(b))
        if not conds:
            return {}
        if any(l.op == "opq" for c in conds for l in bleaves(c)):
            conds = [c for c in conds if not any(l.op == "opq" for l in bleaves(c))]
            if not conds:
                return None
        atoms = set()
        for c in conds:
            if isinstance(c, bool):
                if not c:
                    return False
                continue
            atoms |= batoms(c)
        rnd = random.Random(7)
        conds = [c for c in conds if isinstance(c, B)]
        name = lambda env: {ATOMS[a].name: round(float(v), 4) for a, v in list(env.items())[:8]}
        for _ in range(tries):
            env = alg.sample_env(atoms, rnd)
            free_fns(env, atoms, rnd)
            try:
                for c in conds:
                    solve_eqs(c, env)
                e2 = dict(env)
                if all(beval(c, e2) for c in conds):
                    return name(env)
            except (KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError):
                return None
        try:
            env = small_region(atoms, conds, rnd)
        except (KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError):
            return None
        return None if env is None else name(env)

    def assume(self):
        """Branch outcomes of the current trace as conditions."""
        out = []
        for d in self.I.decisions:
            if d[3] == "hook" or isinstance(d[4], bool):
                continue
            out.append(d[4] if d[2] else cond.bnot(d[4]))
        return out

    # ------------------------------------------------------------ comparisons
    def same(self, got, want, what, construct=None, assume=None):
        """One verdict: abstract arrays/scalars denote the same values."""
        assume = self.assume() if assume is None else assume
        try:
            g, w = np_obj(got), np_obj(want)
        except Undecided as e:
            return ("undecided", f"{what}: {e}", construct)
        if g.shape != w.shape:
            return ("diff", f"{what}: has shape {g.shape}, expected {w.shape}", construct)
        pend = []
        for i in np.ndindex(*g.shape):
            x, y = g[i], w[i]
            r = same_el(x, y)
            if r is True:
                continue
            if r is False:
                return ("diff", f"{what}{list(i) if i else ''}: is {short(x)}, expected {short(y)}", construct)
            pend.append((i, x, y))
        if not pend:
            return ("proved", f"{what}: {g.size} entries canonical")
        for i, x, y in pend:
            r, w_ = refute_eq(x, y, assume)
            if r == "diff":
                return ("diff", f"{what}{list(i) if i else ''}: is {short(x)}, expected {short(y)}{wit(w_)}", construct)
            if r == "unk":
                return ("undecided", f"{what}{list(i)}: {w_}", construct)
        return ("undecided", f"{what}: not canonically equal, no difference found", construct)

    def same_bool(self, got, want, what, construct=None, assume=None):
        assume = self.assume() if assume is None else assume
        if isinstance(got, Arr) and got.a.size == 1:
            got = got.a.reshape(-1)[0]
        if isinstance(got, Rat) and got.is_const():
            got = bool(got.value())
        if isinstance(got, bool) and isinstance(want, bool):
            if got == want:
                return ("proved", what)
            return ("diff", f"{what}: is {got}, expected {want}", construct)
        if not isinstance(got, (bool, B)):
            return ("undecided", f"{what}: {got!r} is not a truth value", construct)
        if bool_canon(got) is not None and bool_canon(got) == bool_canon(want):
            return ("proved", f"{what}: same set of inequalities")
        r, w = refute_equiv(got, want, assume)
        if r == "diff":
            return ("diff", f"{what}: the condition computed differs from {short(want)}: {w}", construct)
        if r == "unk":
            return ("undecided", f"{what}: {w}", construct)
        return ("undecided", f"{what}: not canonically equal, no difference found", construct)

    def nonneg(self, r, what, construct=None, assume=(), strict=False):
        """r >= 0 for every value of the atoms."""
        if isinstance(r, float):
            return ("proved", what) if r >= 0 else ("diff", f"{what}: {r}", construct)
        r = R(r)
        if alg.prove_nonneg(r):
            return ("proved", what)
        w = refute_ge(r, self.assume())
        if w is not None:
            return ("diff", f"{what}: {short(r)} < 0{wit(w)}", construct)
        return ("undecided", f"{what}: sign of {short(r)} not determined", construct)

    def is_true(self, b, what, construct=None):
        """Condition b holds for every value of the atoms."""
        if isinstance(b, Arr) and b.a.size == 1:
            b = b.a.reshape(-1)[0]
        if isinstance(b, bool):
            return ("proved", what) if b else ("diff", f"{what}: false", construct)
        if not isinstance(b, B):
            return ("undecided", f"{what}: {b!r}", construct)
        q = conj_ineqs(b)
        if q is not None and all(alg.prove_nonneg(-d) for d in q):
            return ("proved", what)
        w = refute_bool(b, self.assume())
        if w is not None:
            return ("diff", f"{what}: {short(b)} fails{wit(w)}", construct)
        return ("undecided", f"{what}: {short(b)} not determined", construct)

    def implied(self, b, what, construct=None):
        """Condition b holds on this trace: always, or because the trace assumes it."""
        have = set()
        for c in self.assume():
            for x in c.args if isinstance(c, B) and c.op == "and" else (c,):
                k = bool_canon(x)
                if k is not None:
                    have.add(k if k[0] != "conj" else ("conj", k[1]))
                q = conj_ineqs(x)
                if q is not None:
                    have |= {("ineq", norm_ineq(d)) for d in q}
        q = conj_ineqs(b) if isinstance(b, B) else None
        if isinstance(b, B) and (bool_canon(b) in have or q is not None and all(("ineq", norm_ineq(d)) in have or alg.prove_nonneg(-d) for d in q)):
            return ("proved", f"{what}: established by the branch taken")
        return self.is_true(b, what, construct)

    def sizes(self, *base, cap=24):
        """The given sizes (of batches, of vertex and face sets), and one beyond every
        whole number above them that the source compares, cuts, bounds or groups by."""
        if self._bounds is None:
            self._bounds = size_bounds(os.path.join(self.repo, "src", "rigeo"))
        top = max(base)
        new = {n + 1 for n in self._bounds if top <= n < cap}
        return tuple(base) + tuple(sorted(new)[-2:])

    # ------------------------------------------------------------ summary
    def counts(self):
        c = {"proved": 0, "violated": 0, "undecided": 0}
        for r in self.results:
            c[r["status"]] += 1
        return c


# ---------------------------------------------------------------- helpers
def emap(f, a):
    out = np.empty(a.shape, dtype=object)
    o, s = out.reshape(-1), a.reshape(-1)
    for i in range(s.size):
        o[i] = f(s[i])
    return out


def np_obj(x):
    """Object array of abstract scalars."""
    if isinstance(x, Arr):
        return x.a
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        parts = [np_obj(y) for y in x]
        if not parts:
            return np.empty((0,), dtype=object)
        if len({p.shape for p in parts}) != 1:
            raise Undecided("ragged value")
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p[()]
        return out
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def wit(w):
    if not w:
        return ""
    if isinstance(w, dict):
        return " (e.g. " + ", ".join(f"{k}={v}" for k, v in list(w.items())[:10]) + ")"
    return f" ({w})"


def short(x):
    s = repr(x)
    return s if len(s) < 170 else s[:166] + " ..."


def is_eq(b):
    """Equality-type condition (measure-zero or tolerance-thin outcome)."""
    if isinstance(b, bool):
        return False
    return any(l.op == "close" or (l.op == "cmp" and l.args[0] == "==") for l in bleaves(b))


def same_el(x, y):
    """True / False / None (needs a closer look)."""
    if isinstance(x, bool):
        x = int(x) if not isinstance(y, bool) else x
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(x, float) and isinstance(y, float):
            return x == y or (x != x and y != y)
        return False
    if isinstance(x, bool) or isinstance(y, bool):
        return x is y if isinstance(x, bool) and isinstance(y, bool) else None
    if isinstance(x, (int, Rat)) and isinstance(y, (int, Rat)):
        d = R(x) - R(y)
        if isinstance(d, float):
            return None
        if d.is_zero():
            return True
        if d.is_const():
            return abs(d.value()) < 1e-12
        return None
    return x == y if type(x) is type(y) and isinstance(x, (str, tuple)) else None


DERIVED = ("eig", "svd")


def derived(a):
    A = ATOMS[a]
    if A.kind == "rot":
        return A.info[0].derived
    if isinstance(A.info, dict):
        return "eig" in A.info
    return False


def opaque_fn(a):
    A = ATOMS[a]
    return A.kind == "fn" and A.info["name"] not in alg.NUMFN and A.info["name"] not in ("abs", "max", "min", "root")


def free_fns(env, atoms, rnd):
    for a in atoms:
        if opaque_fn(a):
            A = ATOMS[a]
            lo = float(A.lo) if A.lo != -alg.INF else -1.5
            hi = float(A.hi) if A.hi != alg.INF else lo + 3
            env[a] = rnd.uniform(lo, hi)


def solve_eqs(c, env):
    """Adjust env so that equality leaves of a conjunction hold (one linear atom
    per equality)."""
    if isinstance(c, bool):
        return
    if c.op == "and":
        for x in c.args:
            solve_eqs(x, env)
        return
    if c.op == "cmp" and c.args[0] == "==":
        d = c.args[1]
    elif c.op == "close":
        d = c.args[0] - c.args[1]
    elif c.op == "cmp" and isinstance(c.args[1], Rat):
        return solve_le(c.args[1], env)
    else:
        return
    if abs(alg.evalf(d, dict(env))) < 1e-14:
        return
    for a in sorted(d.atoms()):
        A = ATOMS[a]
        if A.kind != "var" or alg.inside_fn(d, a):
            continue
        k = alg.coeff(d, a)
        if k is None:
            continue
        kv = alg.evalf(k[0], dict(env))
        if abs(kv) < 1e-9:
            continue
        v = -alg.evalf(k[1], dict(env)) / kv
        if A.lo <= v <= A.hi:
            for b in list(env):
                if ATOMS[b].kind in ("sqrt", "fn"):
                    pass
            env[a] = v
            return


def solve_le(d, env):
    """Move one linear atom so that d < 0."""
    if alg.evalf(d, dict(env)) < 0:
        return
    for a in sorted(d.atoms()):
        A = ATOMS[a]
        if A.kind not in ("var", "draw") or alg.inside_fn(d, a):
            continue
        k = alg.coeff(d, a)
        if k is None:
            continue
        kv = alg.evalf(k[0], dict(env))
        if abs(kv) < 1e-12:
            continue
        v = -alg.evalf(k[1], dict(env)) / kv
        lo, hi = (float(A.lo), min(v, float(A.hi))) if kv > 0 else (max(v, float(A.lo)), float(A.hi))
        if lo > hi:
            continue
        if lo == -alg.INF:
            env[a] = hi - 0.5 - abs(hi) / 2
        elif hi == alg.INF:
            env[a] = lo + 0.5 + abs(lo) / 2
        else:
            env[a] = (lo + hi) / 2
        return


def envs(atoms, assume, n, seed):
    rnd = random.Random(seed)
    k = 0
    conds = [c for c in assume if isinstance(c, B)]
    for i in range(n * 12):
        if k == 0 and i > 150:
            break
        env = alg.sample_env(atoms, rnd)
        free_fns(env, atoms, rnd)
        try:
            for c in assume:
                solve_eqs(c, env)
            if i % 2:
                for c in conds:
                    off_centre(c, env, rnd)
            e2 = dict(env)
            if not all(beval(c, e2) if isinstance(c, B) else c for c in assume):
                continue
        except KeyError:
            raise
        except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            continue
        yield env
        k += 1
        if k >= n:
            return
    if k == 0 and conds and all(isinstance(c, B) or c for c in assume):
        for _ in range(min(n, 6)):
            env = small_region(atoms, conds, rnd)
            if env is None:
                return
            yield env


def off_centre(c, env, rnd):
    """Move the atoms that solve_eqs made exactly equal off that point, within the
    tolerance of the comparison (where the tolerance is more than a rounding margin)."""
    if c.op == "and":
        for x in c.args:
            off_centre(x, env, rnd)
    if c.op != "close":
        return
    x, y, rt, at = c.args
    rt, at = alg.evalf(rt, dict(env)), alg.evalf(at, dict(env))
    w = (at if at > 2e-7 else 0) + (rt * abs(alg.evalf(y, dict(env))) if rt > 5e-5 else 0)
    if not w:
        return
    d = x - y
    for a in sorted(d.atoms()):
        A = ATOMS[a]
        if A.kind != "var" or alg.inside_fn(d, a):
            continue
        k = alg.coeff(d, a)
        if k is None:
            continue
        kv = alg.evalf(k[0], dict(env))
        if abs(kv) < 1e-9:
            continue
        v = -alg.evalf(k[1], dict(env)) / kv + rnd.uniform(-0.9, 0.9) * w / kv
        if A.lo <= v <= A.hi:
            env[a] = v
            return


def small_region(atoms, conds, rnd, tries=60):
    """An assignment that satisfies the conditions, where these hold only in a small
    part of the space: points close to zero (or far away) in the atoms of a condition
    that fails, rotations by a small angle."""
    free = lambda a: ATOMS[a].kind in ("var", "draw") and not (float(ATOMS[a].hi) < alg.INF and float(ATOMS[a].lo) > -alg.INF)
    for _ in range(tries):
        env = alg.sample_env(atoms, rnd)
        free_fns(env, atoms, rnd)
        try:
            for c in conds:
                solve_eqs(c, env)
            for _ in range(6):
                bad = [c for c in conds if not beval(c, dict(env))]
                if not bad:
                    return env
                c = bad[0]
                ids = batoms(c)
                base = dict(env)
                base = {x: v for x, v in base.items() if ATOMS[x].kind not in ("sqrt", "const") and not (ATOMS[x].kind == "fn" and not opaque_fn(x))}
                rots = sorted({ATOMS[a].info[0].uid for a in ids if ATOMS[a].kind == "rot" and not derived(a)})
                vs = sorted(a for a in ids if free(a))
                scales = [10.0**-q for q in range(1, 9)] + [10.0**q for q in (1, 2, 4, 6)]
                moves = [("all", f) for f in scales if vs] + [("some", f) for f in scales if len(vs) > 1]
                moves += [("rot", f) for f in (0.3, 0.1, 0.03, 1e-2, 1e-3, 1e-4, 1e-5) if rots]
                moves += [("equal", f) for f in (1e-2, 1e-4, 1e-6) if len(vs) > 1] + [("one", f) for f in (1e-2, 1e-4, 1e-6) if vs]
                found = None
                for how, f in sorted(moves, key=lambda _: rnd.random()):
                    e = dict(base)
                    if how == "rot":
                        for u in rots:
                            small_rotation(e, u, atoms, f, rnd)
                        if vs and rnd.random() < 0.5:
                            how = "all"
                    sel = vs if how == "all" else rnd.sample(vs, rnd.randint(1, len(vs) - 1)) if how == "some" else ()
                    org = {}
                    for a in sel:
                        lo, hi = float(ATOMS[a].lo), float(ATOMS[a].hi)
                        org[a] = lo if lo > -alg.INF else hi if hi < alg.INF else 0.0
                        e[a] = org[a] + (base[a] - org[a]) * f
                    if how in ("equal", "one"):
                        t = base[rnd.choice(vs)] if how == "equal" else rnd.choice((1.0, 1.0, 0.5, 2.0, -1.0))
                        for a in vs if how == "equal" or rnd.random() < 0.5 else [rnd.choice(vs)]:
                            y = t * (1 + f * rnd.uniform(-1, 1))
                            if float(ATOMS[a].lo) <= y <= float(ATOMS[a].hi):
                                e[a] = y
                    if beval(c, dict(e)):
                        if f < 1 and how in ("all", "some"):
                            # back towards the edge of the region
                            g = f
                            for _ in range(12):
                                g *= 1.3
                                e2 = dict(e)
                                for a in sel:
                                    e2[a] = org[a] + (base[a] - org[a]) * g
                                if not beval(c, dict(e2)):
                                    break
                                e = e2
                        found = e
                        if all(beval(x, dict(e)) for x in conds):
                            return e
                if found is None:
                    break
                env = found
        except KeyError:
            raise
        except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            continue
    return None


def small_rotation(env, uid, atoms, angle, rnd):
    import numpy as np

    mine = [a for a in atoms if ATOMS[a].kind == "rot" and ATOMS[a].info[0].uid == uid]
    if not mine:
        return
    n = ATOMS[mine[0]].info[0].n
    K = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1, n):
            v = rnd.uniform(-1, 1) * angle
            K[i, j], K[j, i] = v, -v
    M = np.linalg.solve(np.eye(n) - K, np.eye(n) + K)
    for a in mine:
        env[a] = float(M[ATOMS[a].info[1], ATOMS[a].info[2]])


def usable(assume):
    return [c for c in assume if not (isinstance(c, B) and any(l.op == "opq" for l in bleaves(c)))]


def show(env):
    return {ATOMS[a].name: round(float(v), 4) for a, v in sorted(env.items()) if ATOMS[a].kind in ("var", "rot", "val")}


def refute_eq(x, y, assume=(), seed=3):
    if not isinstance(x, (int, Rat)) or not isinstance(y, (int, Rat)):
        return ("unk", f"{x!r} vs {y!r}")
    d = R(x) - R(y)
    ay = alg.all_atoms(R(y))
    for a in alg.all_atoms(R(x)):
        if a not in ay and (derived(a) or opaque_fn(a)):
            return ("unk", f"involves {ATOMS[a].name}, which the analysis does not interpret")
    assume = usable(assume)
    atoms = alg.all_atoms(d) | ay
    for c in assume:
        if isinstance(c, B):
            atoms |= batoms(c)
    big = 0
    n = 0
    w = None
    try:
        for env in envs(atoms, assume, 12, seed):
            e = dict(env)
            v = alg.evalf(d, e)
            s = abs(alg.evalf(R(y), dict(env))) + abs(alg.evalf(R(x), dict(env)))
            if v != v:
                continue
            n += 1
            if abs(v) > 1e-7 * (1 + s):
                big += 1
                w = w or show(env)
    except (KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError) as e:
        return ("unk", f"cannot evaluate: {e}")
    if big:
        return ("diff", w)
    return ("same", None) if n else ("unk", "no admissible assignment found")


def size_bounds(root):
    """Whole numbers that the source compares with, cuts sequences at or groups by."""
    import ast

    out = set()

    def num(n):
        if isinstance(n, ast.Constant) and type(n.value) is int:
            return [n.value]
        if isinstance(n, ast.Name):
            return consts.get(n.id, [])
        return []

    for d, _, fs in os.walk(root):
        if "unused" in d:
            continue
        for f in fs:
            if not f.endswith(".py"):
                continue
            with open(os.path.join(d, f)) as fh:
                tree = ast.parse(fh.read())
            consts = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and type(n.value.value) is int:
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            consts.setdefault(t.id, []).append(n.value.value)
                elif isinstance(n, ast.arguments):
                    ps = [*n.posonlyargs, *n.args]
                    for a, v in [*zip(ps[len(ps) - len(n.defaults):], n.defaults), *zip(n.kwonlyargs, n.kw_defaults)]:
                        if isinstance(v, ast.Constant) and type(v.value) is int:
                            consts.setdefault(a.arg, []).append(v.value)
            for n in ast.walk(tree):
                if isinstance(n, ast.Compare):
                    for x in (n.left, *n.comparators):
                        out.update(num(x))
                elif isinstance(n, ast.Slice):
                    for x in (n.lower, n.upper, n.step):
                        out.update(num(x))
                elif isinstance(n, ast.Call):
                    nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
                    if nm in ("min", "max", "minimum", "maximum", "islice", "array_split", "split", "head", "clip"):
                        for x in n.args:
                            out.update(num(x))
                    elif nm == "range" and len(n.args) == 3:
                        out.update(num(n.args[2]))
                elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
                    out.update(num(n.right))
    return {k for k in out if k > 2}


def refute_ge(r, assume=(), seed=5):
    assume = usable(assume)
    atoms = alg.all_atoms(r)
    if any(derived(a) or opaque_fn(a) for a in atoms):
        return None
    for c in assume:
        if isinstance(c, B):
            atoms |= batoms(c)
    low = []
    try:
        for env in envs(atoms, assume, 120, seed):
            v = alg.evalf(r, dict(env))
            if v < -1e-7:
                return show(env)
            low.append((v, len(low), env))
    except (KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError):
        return None
    for v, _, env in sorted(low, key=lambda t: t[:2])[:4]:
        env = descend(r, env, v, assume)
        if env is not None:
            return show(env)
    return None


def descend(r, env, v, assume, sweeps=6):
    """Lower the value of r from an admissible point, one atom at a time; a point where
    it is negative, or None."""
    ids = [a for a in sorted(env) if ATOMS[a].kind == "var"]
    for _ in range(sweeps):
        start = v
        for a in ids:
            A = ATOMS[a]
            lo, hi, x = float(A.lo), float(A.hi), env[a]
            strict = isinstance(A.info, dict) and A.info.get("strict")
            cand = {0.0, x / 2, 2 * x, -x, x - 0.1, x + 0.1, 1.0, -1.0}
            if lo > -alg.INF:
                cand |= {lo + (x - lo) * t for t in (0.02, 0.3, 3.0)} | ({lo} if not strict else set())
            if hi < alg.INF:
                cand |= {hi, (x + hi) / 2}
            for y in sorted(cand):
                if not lo <= y <= hi or strict and y <= lo or abs(y) > 20 or y == x:
                    continue
                e2 = dict(env)
                e2[a] = y
                try:
                    w = alg.evalf(r, dict(e2))
                    if w < v and all(beval(c, dict(e2)) if isinstance(c, B) else c for c in assume):
                        env, v = e2, w
                        if v < -1e-6:
                            return env
                except (KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError):
                    continue
        if not v < start - 1e-12:
            return None
    return None


def refute_bool(b, assume=(), seed=5, n=150):
    assume = usable(assume)
    if any(l.op == "opq" for l in bleaves(b)):
        return None
    atoms = batoms(b)
    if any(derived(a) or opaque_fn(a) for a in atoms):
        return None
    for c in assume:
        if isinstance(c, B):
            atoms |= batoms(c)
    soft = relax(b)
    try:
        for env in envs(atoms, assume, n, seed):
            if not beval(soft, dict(env)):
                return show(env)
    except (KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError):
        return None
    return None


def relax(b, eps=1e-9):
    """Weaken the comparisons of b by a rounding margin."""
    from fractions import Fraction

    e = Rat.const(Fraction(1, 10**9))
    if isinstance(b, bool):
        return b
    if b.op == "cmp":
        if b.args[0] == "==":
            return B("cmp", "<=", alg.absv(b.args[1]) - e)
        return B("cmp", "<=", b.args[1] - e)
    if b.op == "close":
        x, y, rt, at = b.args
        return B("close", x, y, rt, at + e)
    if b.op == "not":
        return b
    return B(b.op, *[relax(x) for x in b.args])


def bool_canon(b):
    """Order-independent canonical form, or None."""
    if isinstance(b, bool):
        return b
    q = conj_ineqs(b)
    if q is not None:
        return ("conj", frozenset(norm_ineq(d) for d in q))
    if b.op in ("and", "or"):
        if b.op == "and":  # merge what is a plain set of inequalities
            lin, rest = [], []
            for x in b.args:
                q = conj_ineqs(x)
                lin, rest = (lin + q, rest) if q is not None else (lin, rest + [x])
            xs = [bool_canon(x) for x in rest]
            return None if any(x is None for x in xs) else ("and", frozenset([("conj", frozenset(norm_ineq(d) for d in lin))] + xs))
        xs = [bool_canon(x) for x in b.args]
        return None if any(x is None for x in xs) else (b.op, frozenset(xs))
    if b.op == "cmp":
        return ("cmp", b.args[0], norm_ineq(b.args[1]))
    if b.op == "close":
        x, y, rt, at = b.args
        return ("close", norm_abs(x - y), rt.fp(), at.fp(), y.fp() if not rt.is_zero() else 0)
    if b.op == "not":
        x = bool_canon(b.args[0])
        return None if x is None else ("not", x)
    if b.op == "psd":
        return ("psd", frozenset(psd_key(b.args[0])))
    return None


def psd_key(m):
    """Entries up to a simultaneous reordering of rows and columns: keyed by the
    diagonal entries they connect."""
    n = m.shape[0]
    d = [R(m[i, i]).fp() for i in range(n)]
    return [(min(d[i], d[j]), max(d[i], d[j]), R(m[i, j]).fp(), i if d.count(d[i]) > 1 else -1, j if d.count(d[j]) > 1 else -1) for i in range(n) for j in range(i, n)]


def norm_abs(d):
    a, b = d.fp(), (-d).fp()
    return min(a, b)


def norm_ineq(d):
    """Fingerprint up to a positive constant factor and positive factors."""
    d = alg.rot_reduce(R(d))
    num = d.num
    for f, e in d.den:
        if e % 2 and not alg.is_pos(Rat(f)):
            num = None
            break
    if num is None:
        return d.fp()
    # divide out a common positive monomial, then compare up to a positive factor
    if not num.t:
        return Rat(num).fp()
    ms = list(num.t)
    common = None
    for m in ms:
        dm = dict(m)
        common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
    common = {a: e for a, e in (common or {}).items() if alg.strict_pos(ATOMS[a])}
    out = {}
    for m, c in num.t.items():
        dm = dict(m)
        for a, e in common.items():
            dm[a] -= e
            if not dm[a]:
                del dm[a]
        out[tuple(sorted(dm.items()))] = c
    r = Rat(alg.Poly(out))
    f = r.fp()
    if len(f) < 2 or not f[0]:
        return f
    inv = pow(f[0], alg.PRIME - 2, alg.PRIME)
    return (sign_at(r),) + tuple(x * inv % alg.PRIME for x in f[1:])


def sign_at(r):
    """Sign of an abstract value at one fixed assignment."""
    ids = sorted(alg.all_atoms(r))
    rnd = random.Random(17)
    try:
        env = {}
        rots = {}
        for a in ids:
            A = ATOMS[a]
            h = alg._mix("sgn", A.id) / alg.PRIME
            if A.kind == "rot":
                rot = A.info[0]
                if rot.uid not in rots:
                    rots[rot.uid] = rot.numeric(random.Random(rot.uid))
                env[a] = float(rots[rot.uid][A.info[1], A.info[2]])
            elif opaque_fn(a) or A.kind not in ("sqrt", "fn", "const"):
                lo = float(A.lo) if A.lo != -alg.INF else -2.0
                hi = float(A.hi) if A.hi != alg.INF else lo + 4.0
                env[a] = lo + (hi - lo) * (0.1 + 0.8 * h)
        return alg.evalf(r, env) > 0
    except (KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError):
        return None


def refute_equiv(got, want, assume=(), seed=11):
    """Search for an assignment at which two conditions differ, also close to
    the boundary of the expected one."""
    for b in (got, want):
        if isinstance(b, B) and any(l.op == "opq" for l in bleaves(b)):
            return ("unk", "opaque condition")
    ga, wa = batoms(got) if isinstance(got, B) else set(), batoms(want) if isinstance(want, B) else set()
    for a in ga:
        if a not in wa and (derived(a) or opaque_fn(a)):
            return ("unk", f"involves {ATOMS[a].name}, which the analysis does not interpret")
    assume = usable(assume)
    atoms = ga | wa
    for c in assume:
        if isinstance(c, B):
            atoms |= batoms(c)
    ev = lambda b, e: b if isinstance(b, bool) else beval(b, dict(e))
    sg, sw = sides(got), sides(want)
    T, F = [], []
    n = 0
    try:
        for env in envs(atoms, assume, 150, seed):
            g, w = ev(got, env), ev(want, env)
            n += 1
            if g != w and robust(got, want, env):
                return ("diff", f"{'accepts' if g else 'rejects'} at {show(env)}")
            (T if w else F).append(env)
        if not n:
            return ("unk", "no admissible assignment found")
        # points that satisfy the expected condition, and points just beyond one
        # of the comparisons from there
        plain = lambda e: {x: v for x, v in e.items() if ATOMS[x].kind not in ("sqrt", "const") and not (ATOMS[x].kind == "fn" and not opaque_fn(x))}
        if len(T) < 5:
            for env in F[:40]:
                e = plain(env)
                for _ in range(3):
                    solve_eqs(want, e)
                    e = plain(e)
                if ev(want, e) and (not assume or all(ev(c, e) for c in assume)):
                    T.append(e)
                    if ev(got, e) is False and robust(got, want, e):
                        return ("diff", f"rejects at {show(e)}")
        leaves = [l for b in (got, want) for l in bleaves(b) if l.op == "cmp" and isinstance(l.args[1], Rat)]
        for env in T[:6] if len(leaves) < 60 else []:
            for l in leaves:
                d = l.args[1]
                for a in sorted(d.atoms())[:40]:
                    A = ATOMS[a]
                    if A.kind != "var" or alg.inside_fn(d, a):
                        continue
                    k = alg.coeff(d, a)
                    if k is None:
                        continue
                    kv, k0 = alg.evalf(k[0], plain(env)), alg.evalf(k[1], plain(env))
                    if abs(kv) < 1e-9:
                        continue
                    for delta in (1e-3, -1e-3, 0.1, -0.1):
                        v = (delta - k0) / kv
                        if not A.lo <= v <= A.hi:
                            continue
                        e = plain(env)
                        e[a] = v
                        if assume and not all(ev(c, e) for c in assume):
                            continue
                        g, w = ev(got, e), ev(want, e)
                        if g != w and robust(got, want, e):
                            return ("diff", f"{'accepts' if g else 'rejects'} beyond one comparison, at {show(e)}")
                    break
        # points near the boundary, along segments
        for k in range(min(30, len(T), len(F))):
            a, b = T[k], F[k]
            base = {x for x in a if ATOMS[x].kind in ("var",)}

            def at(t):
                e = {x: v for x, v in a.items() if ATOMS[x].kind not in ("sqrt", "fn", "const")}
                for x in base:
                    e[x] = (1 - t) * a[x] + t * b[x]
                return e

            lo, hi = 0.0, 1.0
            if not ev(want, at(0)) or ev(want, at(1)):
                continue
            for _ in range(50):
                mid = (lo + hi) / 2
                if ev(want, at(mid)):
                    lo = mid
                else:
                    hi = mid
            for t in (lo - 1e-6, lo - 1e-4, lo - 1e-2, hi + 1e-6, hi + 1e-4, hi + 1e-2):
                if not 0 <= t <= 1:
                    continue
                e = at(t)
                if assume and not all(ev(c, e) for c in assume):
                    continue
                g, w = ev(got, e), ev(want, e)
                if g != w and robust(got, want, e):
                    return ("diff", f"{'accepts' if g else 'rejects'} near the boundary, at {show(e)}")
    except (KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError) as e:
        return ("unk", f"cannot evaluate: {e}")
    return ("same", None)


def sides(b):
    return None


def robust(got, want, env):
    """The disagreement is not a rounding artefact: truth values keep their
    value when comparisons are shifted by a tiny margin."""
    for b in (got, want):
        if isinstance(b, bool):
            continue
        for l in bleaves(b):
            e = dict(env)
            if l.op == "cmp":
                if abs(alg.evalf(l.args[1], e)) < 1e-11:
                    return False
            elif l.op == "close":
                x, y, rt, at = [alg.evalf(z, e) for z in l.args]
                if abs(abs(x - y) - at - rt * abs(y)) < 1e-11:
                    return False
            elif l.op == "psd":
                if abs(cond.min_eig(l, e)) < 1e-7:
                    return False
    return True


# ---------------------------------------------------------------- linear algebra on abstract values
def mm(a, b):
    a, b = np_obj(a), np_obj(b)
    if a.ndim == 1 and b.ndim == 1:
        return sum((R(x) * R(y) for x, y in zip(a, b)), Rat.const(0))
    if a.ndim == 1:
        return np_obj([mm(a, b[:, j]) for j in range(b.shape[1])])
    if b.ndim == 1:
        return np_obj([mm(a[i], b) for i in range(a.shape[0])])
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = sum((R(a[i, k]) * R(b[k, j]) for k in range(a.shape[1])), Rat.const(0))
    return out


def add(a, b, k=1):
    a, b = np.broadcast_arrays(np_obj(a), np_obj(b))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = R(a[i]) + k * R(b[i])
    return out


def sub(a, b):
    return add(a, b, -1)


def mul(a, k):
    return emap(lambda v: R(v) * k, np_obj(a))


def T(a):
    return np_obj(a).T


def outer(a, b):
    return np_obj([[R(x) * R(y) for y in b] for x in a])


def diag(v):
    n = len(v)
    return np_obj([[R(v[i]) if i == j else Rat.const(0) for j in range(n)] for i in range(n)])


def eye(n):
    return diag([Rat.const(1)] * n)


def zeros(*s):
    a = np.empty(s, dtype=object)
    a[...] = Rat.const(0)
    return a


def band(xs):
    return cond.band(*list(xs))


# ---------------------------------------------------------------- running a check
def load_known():
    """known_findings.txt: 'finding: property=<id> rule=<rule> construct=<...> | text'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l[len("finding:"):].split("|")[0].split() if "=" in x)
                out.append((f.get("property"), f.get("rule"), f.get("construct"), l.split("|", 1)[1].strip() if "|" in l else ""))
    return out


def qualname(construct):
    return construct.split()[-1]


def main(argv):
    import importlib

    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module(f"rgcheck.props.{prop.lower()}")
    t0 = time.time()
    try:
        C = Ctx(prop, tier, load=getattr(mod, "LOAD", True))
        mod.check(C)
    except Anchor as e:
        print(f"ERROR: property={prop} a construct the property is anchored on is missing: {e}")
        return 2
    return report(C, mod, t0)


def report(C, mod, t0):
    prop = C.prop
    known = [k for k in load_known() if k[0] == prop]
    viol, seen, kf = [], set(), {}
    for r in C.results:
        if r["status"] != "violated":
            continue
        k = (r["rule"], r["construct"])
        hit = next((x for x in known if x[1] == r["rule"] and x[2] == qualname(r["construct"])), None)
        if hit:
            kf.setdefault(hit, []).append(r)
            continue
        if k in seen:
            continue
        seen.add(k)
        viol.append(r)
    c = C.counts()
    cov = {
        "explanation": getattr(mod, "__doc__", "") or "",
        "rule": " ".join((getattr(mod, "RULE", None) or "each obligation compares the abstract value a construct computes with the value the property prescribes").split()),
        "obligations": len(C.results),
        "discharged": c["proved"],
        "undecided": c["undecided"],
        "traces_analysed": C.paths_seen,
        "traces_cut_at_loop_bound": C.truncated,
        "functions_analysed": sorted(C.functions),
        "statements_analysed": len(C.I.visited),
        "rules_applied": sorted({r["rule"] for r in C.results}),
        "obligations_by_construct": by(C.results),
        "undecided_list": [f"{r['rule']} @ {r['construct']}: {r['detail'][:160]}" for r in C.results if r["status"] == "undecided"][:60],
        "samples": [f"[{r['status']}] {r['rule']} @ {r['construct']}: {r['detail'][:200]}" for r in spread(C.results, 14)],
        "checker_cmd": f"cd /verif && python3-vt -m rgcheck {prop} --tier {C.tier}",
        "trusted_base": ["rgcheck/alg.py, cond.py, interp.py (value domain and AST interpretation)", "rgcheck/models*.py (transfer functions of numpy, scipy, cvxpy, cddlib)", f"rgcheck/props/{prop.lower()}.py (the specification)", "CPython's ast module"],
        "known_findings_seen": [f"{x[1]} {x[2]}" for x in kf],
    }
    cov.update(getattr(C, "extra", {}))
    ev = {
        "property": prop, "tier": C.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": getattr(mod, "LEVEL", "other"),
        "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON, "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    cov["violation_list"] = [f"{r['rule']} @ {r['construct']}: {r['detail']}" for r in viol]
    d = os.environ.get("RGCHECK_OUT") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print(f"property={prop} tier={C.tier} obligations={len(C.results)} proved={c['proved']} undecided={c['undecided']} violated={c['violated']} traces={C.paths_seen} functions={len(C.functions)} wall={ev['wall_s']}s")
    for hit, rs in kf.items():
        print(f"KNOWN-FINDING: property={prop} {hit[2]}: {hit[3]}")
    if DEBUG:
        for r in C.results:
            if r["status"] == "undecided":
                print("  undecided:", r["rule"], "@", r["construct"], ":", r["detail"][:300])
    if not viol:
        return 0
    rp = os.path.join(d, prop + ".violation.txt")
    with open(rp, "w", encoding="utf-8") as f:
        f.write(f"property {prop}\nreplay: cd {VERIF} && python3-vt -m rgcheck {prop} --tier {C.tier}\n\n")
        for r in viol:
            f.write(f"rule      {r['rule']}\nconstruct {r['construct']}\nfinding   {r['detail']}\n\n")
    for r in viol[:20]:
        print(f"  {r['rule']} @ {r['construct']}: {r['detail'][:500]}")
    print(f"VIOLATION property={prop} replay={rp}")
    return 1


COMMON = [
    "real-number semantics: floating-point rounding is outside the abstraction (N04)",
    "the library transfer functions in rgcheck/models*.py describe numpy, scipy, cvxpy and cddlib correctly",
    "canonical forms are compared by fingerprint modulo 2^61-1 at three points (error probability below 1e-40 per comparison)",
]


def by(rs):
    out = {}
    for r in rs:
        k = qualname(r["construct"])
        o = out.setdefault(k, {"proved": 0, "undecided": 0, "violated": 0})
        o[r["status"]] += 1
    return out


def spread(rs, n):
    if len(rs) <= n:
        return rs
    s = len(rs) / n
    return [rs[int(i * s)] for i in range(n)]
