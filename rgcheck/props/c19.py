"""Dimensional analysis (inference of units of measure by unification).  Every public
operation is evaluated on abstract operands that carry units of length, mass and time.
On every analysed trace, every sum, comparison, maximum, root, returned entry, branch
condition and generated constraint must be dimensionally homogeneous for one assignment
of units to the quantities whose unit is not given (decision variables, answers of
libraries); quantities with a known physical meaning must have that dimension."""
import math
from fractions import Fraction

from .. import alg
from ..alg import ATOMS, Rat, R
from ..cond import B
from ..core import *
from ..catalog import ops, scenario
from ..interp import Arr, PyObj
from ..build import *

LEVEL = "other"
RULE = "one assignment of units makes every sum, comparison, returned entry, branch condition and generated constraint of the trace homogeneous, and gives each known quantity its physical dimension"
ASSUMPTIONS = ["operands carry the units of the catalogue", "pure numbers below 1e-4 in sums and comparisons are tolerances", "tolerances and margins passed by the caller are zero"]

ML, ML2 = (1, 1, 0), (2, 1, 0)
VEL, ANG = (1, 0, -1), (0, 0, -1)
TINY = 1e-4


class Mixed(Exception):
    pass


class Units:
    """Linear forms over unknown units, solved by elimination."""

    def __init__(self):
        self.sub = {}  # unknown -> (const, {unknown: coefficient})
        self.atoms = {}
        self.fresh = 0

    # forms: (vec3, {unk: k})
    def norm(self, f):
        c, u = list(f[0]), {}
        todo = list(f[1].items())
        while todo:
            a, k = todo.pop()
            if a in self.sub:
                c2, u2 = self.sub[a]
                c = [x + k * y for x, y in zip(c, c2)]
                todo += [(b, k * j) for b, j in u2.items()]
            else:
                u[a] = u.get(a, 0) + k
        return tuple(c), {a: k for a, k in u.items() if k}

    @staticmethod
    def lin(f, k, g=((0, 0, 0), {}), j=0):
        u = {a: k * x for a, x in f[1].items()}
        for a, x in g[1].items():
            u[a] = u.get(a, 0) + j * x
        return tuple(k * x + j * y for x, y in zip(f[0], g[0])), u

    def equal(self, f, g, what):
        c, u = self.norm(self.lin(f, 1, g, -1))
        if not u:
            if any(c):
                raise Mixed(f"{what}: [{self.name(f)}] and [{self.name(g)}]")
            return
        a = max(u)
        k = Fraction(u.pop(a))
        self.sub[a] = (tuple(-x / k for x in c), {b: -x / k for b, x in u.items()})

    def name(self, f):
        c, u = self.norm(f)
        return alg.unit_name(tuple(int(x) if x == int(x) else x for x in c)) + ("*?" if u else "")

    def unk(self):
        self.fresh += 1
        return ((0, 0, 0), {self.fresh: 1})

    def atom(self, a):
        if a in self.atoms:
            return self.atoms[a]
        A = ATOMS[a]
        if A.kind == "sqrt":
            self.atoms[a] = f = self.lin(self.poly(A.info), Fraction(1, 2))
            return f
        if A.kind == "fn":
            self.atoms[a] = f = self.fn(A)
            return f
        if A.unit is not None:
            f = (tuple(A.unit), {})
        elif A.kind == "rot":
            f = ((0, 0, 0), {})
        else:
            f = self.unk()
        self.atoms[a] = f
        return f

    def fn(self, A):
        nm = A.info["name"]
        xs = [x for x in A.info.get("args", []) if isinstance(x, (Rat, int, Fraction)) and not (R(x).is_const() and abs(R(x).value()) < TINY)]
        if nm in ("abs", "max", "min", "trunc", "cp.abs", "cp.max", "cp.min", "cp.pos", "cp.norm2", "cp.norm1", "cp.norm_inf"):
            fs = [f for f in map(self.rat, xs) if f is not None]
            for f in fs[1:]:
                self.equal(fs[0], f, f"{nm} of quantities of different dimension")
            return fs[0] if fs else ((0, 0, 0), {})
        if nm in ("cp.square", "cp.sum_squares"):
            fs = [f for f in map(self.rat, xs) if f is not None]
            for f in fs[1:]:
                self.equal(fs[0], f, f"{nm} of quantities of different dimension")
            return self.lin(fs[0], 2) if fs else ((0, 0, 0), {})
        if nm == "cp.sqrt":
            return self.lin(self.rat(xs[0]), Fraction(1, 2))
        if nm == "root":
            f = self.rat(xs[0])
            return self.lin(f, Fraction(1, A.info["q"])) if f else self.unk()
        if nm == "cp.log_det":
            self.congruent(xs)
            return self.unk()
        for x in xs:
            self.rat(x)
        if nm in ("sin", "cos", "exp", "log", "ceil", "floor", "rint"):
            for x in xs:
                f = self.rat(x)
                if f is not None:
                    self.equal(f, ((0, 0, 0), {}), f"{nm} of a dimensional quantity")
            return ((0, 0, 0), {})
        return self.unk()

    def mono(self, m):
        f = ((0, 0, 0), {})
        for a, e in m:
            f = self.lin(f, 1, self.atom(a), e)
        return f

    def poly(self, p):
        f = first = None
        for m, k in p.t.items():
            if not m and abs(k) < TINY and len(p.t) > 1:
                continue
            g = self.mono(m)
            if f is None:
                f, first = g, m
            else:
                self.equal(f, g, f"adds {alg.mono_name(first)[:60]} and {alg.mono_name(m)[:60]}")
        return f

    def rat(self, r):
        """Unit of a value; None for zero and values that are not finite."""
        if isinstance(r, float):
            return None
        r = R(r)
        f = self.poly(r.num)
        if f is None:
            return None
        for d, e in r.den:
            f = self.lin(f, 1, self.poly(d), -e)
        return f

    def congruent(self, xs):
        n = int(round(len(xs) ** 0.5))
        m = [[self.rat(xs[i * n + j]) for j in range(n)] for i in range(n)]
        self.psd(m, n)

    def psd(self, m, n, what="entries of one symmetric matrix"):
        d = [m[i][i] if m[i][i] is not None else self.unk() for i in range(n)]
        for i in range(n):
            for j in range(n):
                if i != j and m[i][j] is not None:
                    self.equal(self.lin(m[i][j], 2), self.lin(d[i], 1, d[j], 1), f"{what} ({i},{j}) do not scale together")

    # ---- conditions
    def cond(self, b):
        if not isinstance(b, B):
            return
        if b.op == "cmp":
            self.compare(b.args[1])
        elif b.op == "close":
            x, y, rt, at = b.args
            self.compare(R(x) - R(y) if not isinstance(x, float) and not isinstance(y, float) else 0)
        elif b.op in ("and", "or", "not"):
            for x in b.args:
                self.cond(x)

    def compare(self, d):
        if isinstance(d, float):
            return
        self.rat(d)

    def con(self, c):
        if c.op == "bool":
            for b in c.expr.reshape(-1):
                self.cond(b)
        elif c.op == "psd":
            e = c.expr
            n = e.shape[0]
            self.psd([[self.rat(e[i, j]) for j in range(n)] for i in range(n)], n, "entries of a matrix constrained semidefinite")
        else:
            for x in c.expr.reshape(-1):
                self.compare(x)


DIMS = {  # attribute of a result -> dimension
    "half_extents": L, "center": L, "rotation": ONE, "length": L, "radius": L, "axis": ONE, "vertices": L, "mass": M, "com": L, "h": ML, "H": ML2, "Hc": ML2, "I": ML2, "Ic": ML2, "rays": None,
}
RESULT = {  # operation -> dimension of its value
    "side_lengths": L, "diaglen": L, "inner_length": L, "full_length": L, "volume": (3, 0, 0), "E": (2, 0, 0), "S": (-2, 0, 0), "half_extents_inv": (-1, 0, 0), "endpoints": L, "closest_points": L,
    "random_points": L, "random_points_on_surface": L, "random_points_on_edges": L, "grid": L, "longitudinal_axis": ONE, "transverse_axes": ONE,
}


def leaves(v, path="", seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, (Arr, PyObj, list, dict)):
        if id(v) in seen:
            return
        seen.add(id(v))
    if isinstance(v, Arr):
        for x in v.a.reshape(-1):
            yield path, x
    elif isinstance(v, PyObj):
        for k, x in v.attrs.items():
            yield from leaves(x, f"{path}.{k}", seen)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from leaves(x, path + "[]", seen)
    elif isinstance(v, dict):
        for x in v.values():
            yield from leaves(x, path + "{}", seen)
    else:
        yield path, v


def matrices(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from matrices(x)
    elif isinstance(v, PyObj):
        for x in v.attrs.values():
            yield from matrices(x)


def check(C):
    todo, skipped = ops(C)
    limit = 30 if C.thorough else 8
    zero = {p: (lambda: 0) for p in ("tol", "eps")}

    def one(op):
        over = {p: f for p, f in zero.items() if p in op.args}
        if op.name in ("from_cdd_matrix",):
            return

        def f():
            C.I.scenario.update(scenario(C))
            thunk, ext = op.prepare(C, **over)
            u = Units()
            n0 = len(C.I.events) if hasattr(C.I, "events") else 0
            try:
                v = thunk()
            except Raised as e:
                return [("proved", f"{op.label}: raises {e.kind}")]
            out = []
            n = 0

            def judge(what, thing):
                nonlocal n
                n += 1
                try:
                    thing()
                except Mixed as e:
                    out.append(("diff", f"{op.label}: {what}: {e}"))

            dec = list(C.I.decisions)
            for d in dec:
                judge(f"condition at {d[1]}", lambda: u.cond(d[4]))
            for r in C.I.records:
                if r[0] == "constraint":
                    judge(f"constraint made at {getattr(r[1], 'where', '')}", lambda: u.con(r[1]))
                elif r[0] in ("multinomial", "choice") and r[1] is not None:
                    for x in np_obj(r[1]).reshape(-1) if not isinstance(r[1], (int, float)) else []:
                        judge(f"probability given at {r[3]}", lambda: (u.rat(x) is not None and u.equal(u.rat(x), ((0, 0, 0), {}), "a probability has a dimension")))
            for pr in C.I.problems:
                for c in pr.constraints:
                    judge(f"constraint of the program at {pr.where}", lambda: u.con(c))
                judge(f"objective of the program at {pr.where}", lambda: u.rat(pr.objective.e))
            if op.name not in ("affine",):
                want = DIMS.get(op.name, RESULT.get(op.name)) if op.kind in ("prop", "method") else None
                for path, x in leaves(v):
                    if isinstance(x, B):
                        judge(f"truth value {path}", lambda: u.cond(x))
                    elif isinstance(x, Rat):
                        def j(x=x, path=path):
                            g = u.rat(x)
                            last = path.rsplit(".", 1)[-1].rstrip("[]{}")
                            w = want if path.rstrip("[]{}") == "" else DIMS.get(last) if op.args.keys() - {"rng"} or op.kind in ("prop", "method", "op") else None
                            if g is not None and w is not None:
                                u.equal(g, (tuple(w), {}), f"dimension of {path or 'the result'} is not that of {last or op.name}")
                        judge(f"value {path}", j)
            if not out:
                out.append(("proved", f"{op.label}: {n} quantities homogeneous"))
            return out

        C.run("homogeneous", op.construct, f, limit=limit, flip=lambda d: True, special=False)

    C.parallel(todo, one)
    C.extra = {"operations_analysed": len(todo), "operations_skipped": skipped}
