"""Transfer functions for the convex-modelling library.

An optimisation expression is an array (k='cp') of abstract numbers over
decision atoms; constraints and problems are recorded, never solved.
"""
import itertools

import numpy as np

from . import alg
from .alg import Rat
from .cond import B
from .interp import Arr, Native, Opaque, Raised, Undecided, GenList, sc_arith

SOLVERS = ["MOSEK", "SCS", "ECOS", "CLARABEL", "OSQP", "CVXOPT", "GUROBI", "SCIPY", "COPT", "XPRESS", "CPLEX", "SDPA", "GLPK", "GLPK_MI", "CBC", "PROXQP", "PIQP", "HIGHS", "DAQP", "QOCO", "ECOS_BB", "NAG", "SCIP", "DIFFCP", "CUCLARABEL", "MPAX", "COSMO", "CUOPT", "PDLP"]
CONVEX = {"norm2": "convex", "norm1": "convex", "norm_inf": "convex", "norm_fro": "convex", "norm_nuc": "convex", "sum_squares": "convex", "quad_form": "convex", "lambda_max": "convex", "sigma_max": "convex", "lambda_min": "concave", "log_det": "concave", "log": "concave", "sqrt": "concave", "exp": "convex", "square": "convex", "abs": "convex", "max": "convex", "min": "concave", "quad_over_lin": "convex", "inv_pos": "convex", "geo_mean": "concave", "pos": "convex", "entr": "concave", "huber": "convex", "pnorm": "convex", "matrix_frac": "convex", "tr_inv": "convex", "sum_largest": "convex"}


class Con:
    """A recorded constraint.  op: 'eq' (expr == 0), 'ge' (expr >= 0 elementwise),
    'psd' (expr is positive semidefinite)."""

    def __init__(self, op, expr, where, fname, sides):
        self.op, self.expr, self.where, self.fname, self.sides = op, expr, where, fname, sides

    def __repr__(self):
        return f"<{self.op} {self.expr.shape} at {self.where}>"


class Var:
    def __init__(self, uid, shape, attrs, where, fname, a):
        self.uid, self.shape, self.attrs, self.where, self.fname, self.a = uid, shape, attrs, where, fname, a


def has_dec(r):
    return isinstance(r, Rat) and any(alg.ATOMS[a].dec for a in alg.all_atoms(r))


def install(I):
    def Cx(x):
        """cvxpy operand: array of abstract numbers."""
        if isinstance(x, Arr):
            return x.a
        if isinstance(x, (list, tuple, GenList)):
            if any(isinstance(y, Arr) and y.k == "cp" for y in x):
                raise I.err("ValueError", "list of expressions where an expression is expected")
            return I.arr(list(x)).a
        if isinstance(x, (int, float, Rat, bool, B)):
            a = np.empty((), dtype=object)
            a[()] = x
            return a
        if isinstance(x, Opaque):
            raise Undecided(f"optimisation expression of {x!r}")
        raise I.err("TypeError", f"cannot convert {I.tname(x)} to an expression")

    def E(a):
        if not isinstance(a, np.ndarray):
            x = np.empty((), dtype=object)
            x[()] = a
            a = x
        return Arr(a, "f", "cp")

    def num(v):
        if isinstance(v, (B, bool)):
            return I.indicator(v) if isinstance(v, B) else int(v)
        return v

    def arith(op, a, b):
        return sc_arith(op, num(a), num(b), I)

    def scalarish(a):
        return a.size == 1

    def prod(a, b, what="product"):
        """Record products of two decision expressions (never allowed)."""
        if a is not None and any(has_dec(x) for x in a.reshape(-1)) and any(has_dec(x) for x in b.reshape(-1)):
            I.events.append(("cp.product", what, I.where(), I.fname()))

    def cp_binop(op, L, R_):
        a, b = L.a, R_.a
        if op in ("+", "-"):
            if scalarish(a) and b.ndim and not a.ndim or not scalarish(a) or True:
                return E(I.bcast(lambda x, y: arith(op, x, y), (a, b)))
        if op in ("*", "@"):
            prod(a, b)
        if op == "/":
            prod(b, b, "division by a decision expression")
        if op == "*":
            if scalarish(a) or scalarish(b):
                if scalarish(a) and not scalarish(b):
                    a = a.reshape(())
                elif scalarish(b) and not scalarish(a):
                    b = b.reshape(())
                return E(I.bcast(lambda x, y: arith("*", x, y), (a, b)))
            if a.ndim <= 1 and b.ndim <= 1 and a.shape == b.shape or a.ndim and b.ndim and a.shape[-1] == b.shape[-2 if b.ndim > 1 else 0]:
                I.events.append(("cp.matmul-by-*", I.where()))
                return mm(L, R_)
            raise I.err("ValueError", f"Incompatible dimensions {a.shape} {b.shape}")
        if op == "@":
            if not a.ndim or not b.ndim:
                raise I.err("ValueError", "Scalar operands are not allowed, use '*' instead")
            return mm(L, R_)
        if op == "/":
            return E(I.bcast(lambda x, y: arith("/", x, y), (a, b)))
        if op == "**":
            return E(I.bcast(lambda x, y: power_el(x, y), (a, b)))
        if op in ("<<", ">>"):
            d = I.bcast(lambda x, y: arith("-", x, y), (b, a) if op == "<<" else (a, b))
            if d.ndim != 2 or d.shape[0] != d.shape[1]:
                raise I.err("ValueError", f"Non-square matrix in positive definite constraint {d.shape}")
            return con("psd", d, (L, R_))
        raise I.err("TypeError", f"unsupported operand for {op}: expression")

    def power_el(x, y):
        y = Rat.const(y) if isinstance(y, (int,)) else y
        if has_dec(x):
            if y.is_const() and y.value() == 2:
                return cvx("square", [x])
            if y.is_const() and y.value() == 1:
                return x
            return cvx("power", [x, y], key=str(y))
        return arith("**", x, y)

    def mm(L, R_):
        r = I.matmul(Arr(L.a), Arr(R_.a))
        return E(r.a if isinstance(r, Arr) else r)

    def con(op, d, sides):
        c = Con(op, d, I.where(), I.fname(), sides)
        I.records.append(("constraint", c))
        return c

    def cp_compare(op, L, R_):
        if op in ("<", ">"):
            raise I.err("NotImplementedError", "Strict inequalities are not allowed.")
        if op == "!=":
            raise I.err("Exception", "Cannot evaluate the truth value of a constraint or chain constraints")
        a, b = L.a, R_.a
        if op == "==":
            return con("eq", I.bcast(lambda x, y: arith("-", x, y), (a, b)), (L, R_))
        if op == "<=":
            a, b = b, a
        return con("ge", I.bcast(lambda x, y: arith("-", x, y), (a, b)), (L, R_))

    def cvx(name, args, key=None, lo=-alg.INF, hi=alg.INF):
        args = [num(x) for x in args]
        args = [alg.R(x) if not isinstance(x, float) else x for x in args]
        r = alg.fn("cp." + name, args, lo, hi, key=key, curv=CONVEX.get(name, "unknown"))
        at = alg.as_atom(r)
        at.dec = any(has_dec(x) for x in args)
        return r

    def norm2_(xs):
        xs = [num(x) for x in xs]
        if not any(has_dec(x) for x in xs):
            return alg.sqrt(sum((alg.R(x) * alg.R(x) for x in xs), Rat.const(0)))
        return cvx("norm2", xs, lo=0)

    def cp_fn(name, x, *rest):
        a = Cx(x)
        if name in ("abs", "square", "sqrt", "log", "exp", "pos", "inv_pos", "entr"):
            from .models import emap

            def one(v):
                v = alg.R(num(v)) if not isinstance(v, float) else v
                if not has_dec(v):
                    if name == "abs":
                        return alg.absv(v)
                    if name == "square":
                        return v * v
                    if name == "sqrt":
                        return alg.sqrt(v)
                    if name == "pos":
                        return alg.maxv([v, Rat.const(0)])
                    if name == "inv_pos":
                        return Rat.const(1) / v
                return cvx(name, [v])

            return E(emap(one, a))
        raise Undecided(f"cvxpy {name}")

    # ---------------------------------------------------------------- variables
    def mkshape(s):
        if isinstance(s, (tuple, list)):
            return tuple(I.as_int(x) for x in s)
        return (I.as_int(s),)

    def leaf(kind):
        def make(shape=(), name=None, value=None, PSD=False, NSD=False, symmetric=False, nonneg=False, nonpos=False, pos=False, neg=False, diag=False, integer=False, boolean=False, hermitian=False, complex=False, imag=False, bounds=None, sparsity=None, var_id=None, id=None):
            shp = mkshape(shape)
            I.counter += 1
            uid = I.counter
            sym = PSD or NSD or symmetric or diag
            if any(d <= 0 for d in shp):
                raise I.err("ValueError", f"Invalid dimensions {shp}.")
            if sym and (len(shp) != 2 or shp[0] != shp[1]):
                raise I.err("ValueError", f"Invalid dimensions {shp}. Must be a square matrix.")
            a = np.empty(shp, dtype=object)
            attrs = {k: v for k, v in dict(PSD=PSD, NSD=NSD, symmetric=symmetric, nonneg=nonneg, nonpos=nonpos, pos=pos, neg=neg, diag=diag, integer=integer, boolean=boolean).items() if v}
            unit = I.scenario.get("var_unit")
            for i in np.ndindex(*shp):
                if sym and i[0] > i[1]:
                    continue
                if diag and i[0] != i[1]:
                    a[i] = Rat.const(0)
                    continue
                lo = 0 if nonneg or pos or boolean or (PSD and i[0] == i[1]) else -alg.INF
                hi = 0 if nonpos or neg or (NSD and i[0] == i[1]) else (1 if boolean else alg.INF)
                u = unit(uid, i, attrs) if unit else None
                v = alg.new(f"{(name or 'x')}{uid}[{','.join(map(str, i))}]", lo, hi, unit=u, dec=kind == "Variable", info={"cpvar": uid, "idx": i, "param": kind != "Variable"})
                a[i] = v
                if sym:
                    a[i[::-1]] = v
            var = Var(uid, shp, attrs, I.where(), I.fname(), a)
            if kind == "Variable":
                I.variables.append(var)
            else:
                I.records.append(("parameter", var))
            return Arr(a, "f", "cp", {"uid": uid, "attrs": attrs, "kind": kind, "var": var})

        make.__name__ = kind
        return make

    solved = {}
    I.cp_solved = solved

    def value_of(o):
        """Value after solving: each decision atom has one optimal value."""
        from .models import emap

        mp = {}
        for x in o.a.reshape(-1):
            if not isinstance(x, Rat):
                continue
            for a in alg.all_atoms(x):
                A = alg.ATOMS[a]
                if A.dec and isinstance(A.info, dict) and "cpvar" in A.info:
                    uid = A.info["cpvar"]
                    if uid not in I.solved_vars:
                        return None
                    if a not in mp:
                        mp[a] = val_atom(A)
                elif isinstance(A.info, dict) and A.info.get("param") and "cpvar" in A.info:
                    pass
        a = emap(lambda x: alg.subst(x, mp) if isinstance(x, Rat) else num(x), o.a) if mp else emap(num, o.a)
        if a.ndim == 0:
            v = a[()]
            return v
        return Arr(emap(lambda v: alg.R(v) if not isinstance(v, float) else v, a), "f")

    def val_atom(A):
        hook = I.scenario.get("value")
        if hook is not None:
            v = hook(A)
            if v is not None:
                return alg.R(v)
        return alg._intern(("optval", A.id), lambda: Rat.atom(alg.Atom(f"val({A.name})", "val", A.lo, A.hi, unit=A.unit, info={"of": A.id, "strict": bool((A.info or {}).get("PSD"))})))

    def flat_names(o):
        out = []
        seen = set()
        for x in o:
            if isinstance(x, Rat):
                for a in alg.all_atoms(x):
                    A = alg.ATOMS[a]
                    if isinstance(A.info, dict) and "cpvar" in A.info and A.info["cpvar"] not in seen:
                        seen.add(A.info["cpvar"])
                        out.append(A.info["cpvar"])
        return out

    def cp_attr(o, n):
        a = o.a
        if n == "shape":
            return tuple(a.shape)
        if n == "ndim":
            return a.ndim
        if n == "size":
            return int(a.size)
        if n == "T":
            return E(a.T)
        if n == "H":
            return E(a.T)
        if n == "value":
            return value_of(o)
        if n == "flatten":
            return lambda order="F": E(a.flatten(order))
        if n in ("sum", "trace", "diagonal"):
            return lambda *p, **k: (sum_ if n == "sum" else trace if n == "trace" else diag)(o, *p, **k)
        if n in ("is_dcp", "is_convex", "is_concave", "is_affine", "is_constant", "is_psd", "is_symmetric", "is_nonneg", "is_scalar", "is_vector", "is_matrix"):
            if n == "is_scalar":
                return lambda: a.size == 1
            if n == "is_vector":
                return lambda: a.ndim <= 1 or min(a.shape) == 1
            if n == "is_matrix":
                return lambda: a.ndim > 1
            if n == "is_constant":
                return lambda: not any(has_dec(x) for x in a.reshape(-1))
            return lambda *p, **k: B("opq", n)
        if n in ("attributes",):
            return dict((o.var or {}).get("attrs", {}))
        if n in ("id", "name"):
            return (lambda: "x") if n == "name" else id(o)
        if n in ("variables", "parameters", "constants"):
            return lambda: Opaque(n)
        if n in ("curvature", "sign", "expr", "args", "project", "save_value", "grad"):
            raise Undecided(f"Expression.{n}")
        if n == "__array__":
            raise Undecided("array conversion of an expression")
        raise I.err("AttributeError", f"'Expression' object has no attribute {n!r}")

    def con_attr(c, n):
        if n == "args":
            return list(c.sides)
        if n in ("dual_value", "violation", "value", "is_dcp", "residual", "variables", "id", "expr"):
            if n == "expr":
                return E(c.expr)
            if n == "value":
                return lambda *p, **k: B("opq", f"constraint value {c.where}")
            raise Undecided(f"Constraint.{n}")
        raise I.err("AttributeError", f"constraint object has no attribute {n!r}")

    I.cp_con_attr = con_attr
    I.cp_binop, I.cp_compare, I.cp_fn, I.cp_attr = cp_binop, cp_compare, cp_fn, cp_attr
    I.Con = Con

    # ---------------------------------------------------------------- atoms
    def sum_(expr, axis=None, keepdims=False):
        if isinstance(expr, (list, tuple, GenList)):
            s = 0
            for x in expr:
                s = I.binop("+", s, x)
            return s
        a = Cx(expr)
        if axis is None:
            s = Rat.const(0)
            for x in a.reshape(-1):
                s = arith("+", s, x)
            return E(s if not keepdims else np.array([[s]], dtype=object).reshape((1,) * a.ndim))
        ax = I.as_int(axis)
        out = np.empty(np.delete(a.shape, ax), dtype=object)
        m = np.moveaxis(a, ax, 0)
        for i in np.ndindex(*out.shape):
            s = Rat.const(0)
            for k in range(m.shape[0]):
                s = arith("+", s, m[(k,) + i])
            out[i] = s
        return E(np.expand_dims(out, ax) if keepdims else out)

    def trace(expr):
        a = Cx(expr)
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise I.err("ValueError", "Argument to trace must be a square matrix.")
        s = Rat.const(0)
        for i in range(a.shape[0]):
            s = arith("+", s, a[i, i])
        return E(s)

    def reshape(expr, shape, order=None):
        a = Cx(expr)
        if order is None:
            order = "F"
        try:
            return E(a.reshape(tuple(I.as_int(x) for x in (shape if isinstance(shape, (tuple, list)) else (shape,))), order=order))
        except ValueError as ex:
            raise I.err("ValueError", str(ex))

    def vec(expr, order=None):
        return E(Cx(expr).reshape(-1, order=order or "F"))

    def upper_tri(expr):
        a = Cx(expr)
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise I.err("ValueError", "Argument to upper_tri must be a square matrix.")
        return E(a[np.triu_indices(a.shape[0], 1)].reshape(-1, 1))

    def diag(expr, k=0):
        a = Cx(expr)
        if a.ndim == 2 and 1 in a.shape and a.shape[0] != a.shape[1]:
            a = a.reshape(-1)
        if a.ndim == 1:
            out = np.empty((a.size,) * 2, dtype=object)
            out.fill(Rat.const(0))
            for i in range(a.size):
                out[i, i] = a[i]
            return E(out)
        return E(np.diagonal(a, I.as_int(k)).copy())

    def as2(a):
        if a.ndim == 0:
            return a.reshape(1, 1)
        if a.ndim == 1:
            return a.reshape(-1, 1)
        return a

    def bmat(blocks):
        rows = [hst([as_row(Cx(b)) for b in row]) for row in I.iterate(blocks)]
        return E(vst(rows))

    def as_row(a):
        # cvxpy treats a vector inside bmat as given by hstack
        return a

    def hst(xs):
        if all(x.ndim == 0 for x in xs):
            return np.array([x[()] for x in xs], dtype=object).reshape(-1)
        xs = [x.reshape(1) if x.ndim == 0 else x for x in xs]
        try:
            return np.concatenate(xs, axis=1 if xs[0].ndim > 1 else 0)
        except ValueError as ex:
            raise I.err("ValueError", f"All the input dimensions except for axis 1 must match exactly: {ex}")

    def vst(xs):
        xs = [x.reshape(1, -1) if x.ndim < 2 else x for x in xs]
        try:
            return np.concatenate(xs, axis=0)
        except ValueError as ex:
            raise I.err("ValueError", f"All the input dimensions except for axis 0 must match exactly: {ex}")

    def norm(expr, p=2, axis=None, keepdims=False):
        a = Cx(expr)
        if axis is not None:
            ax = I.as_int(axis)
            out = np.empty(np.delete(a.shape, ax), dtype=object)
            m = np.moveaxis(a, ax, 0)
            for i in np.ndindex(*out.shape):
                out[i] = norm_of(list(m[(slice(None),) + i]), p, 1)
            return E(out)
        return E(norm_of(list(a.reshape(-1)), p, a.ndim if a.ndim < 2 or 1 in a.shape else 2))

    def norm_of(xs, p, nd):
        if isinstance(p, Rat) and p.is_const():
            p = int(p.value())
        if p in (2, "fro") and not (nd == 2 and p == 2):
            return norm2_(xs)
        if nd == 2 and p == 2:
            return cvx("sigma_max", xs)
        if p == 1:
            return cvx("norm1", xs, lo=0)
        if isinstance(p, float) or p == "inf":
            return cvx("norm_inf", xs, lo=0)
        raise Undecided(f"norm order {p!r}")

    def sum_squares(x):
        xs = [alg.R(num(v)) for v in Cx(x).reshape(-1)]
        if not any(has_dec(v) for v in xs):
            return E(sum((v * v for v in xs), Rat.const(0)))
        return E(cvx("sum_squares", xs, lo=0))

    def quad_form(x, P, assume_PSD=False):
        xa, P_ = Cx(x).reshape(-1), Cx(P)
        if any(has_dec(v) for v in P_.reshape(-1)) or not any(has_dec(v) for v in xa):
            r = I.matmul(Arr(I.matmul(Arr(xa), Arr(P_)).a), Arr(xa))
            return E(r)
        return E(cvx("quad_form", list(xa) + list(P_.reshape(-1)), key=str(xa.size)))

    def matfn(name):
        def f(X):
            a = Cx(X)
            if a.ndim != 2 or a.shape[0] != a.shape[1]:
                raise I.err("ValueError", f"The argument to {name} must be a square matrix")
            return E(cvx(name, list(a.reshape(-1)), key=str(a.shape[0])))

        f.__name__ = name
        return f

    def maxmin(name):
        def f(*xs):
            def one(*v):
                if any(has_dec(x) for x in v):
                    return cvx("max" if name == "maximum" else "min", list(v))
                return (alg.maxv if name == "maximum" else alg.minv)([alg.R(num(x)) for x in v])

            return E(I.bcast(one, [Cx(x) for x in xs]))

        return f

    def rmaxmin(name):
        def f(x, axis=None, keepdims=False):
            if axis is not None:
                raise Undecided(f"cp.{name} with axis")
            xs = list(Cx(x).reshape(-1))
            if any(has_dec(v) for v in xs):
                return E(cvx(name, xs))
            return E((alg.maxv if name == "max" else alg.minv)([alg.R(num(v)) for v in xs]))

        return f

    def kron(a, b):
        a, b = as2(Cx(a)), as2(Cx(b))
        prod(a, b)
        out = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
        for i, j in np.ndindex(*a.shape):
            for k, l in np.ndindex(*b.shape):
                out[i * b.shape[0] + k, j * b.shape[1] + l] = arith("*", a[i, j], b[k, l])
        return E(out)

    def outer(a, b):
        a, b = Cx(a).reshape(-1), Cx(b).reshape(-1)
        prod(a, b)
        return E(I.bcast(lambda x, y: arith("*", x, y), (a[:, None], b[None, :])))

    def partial(name):
        return lambda *a, **k: (_ for _ in ()).throw(Undecided(f"cp.{name} is not modelled"))

    # ---------------------------------------------------------------- problems
    class Obj:
        def __init__(self, sense, e, where):
            self.sense, self.e, self.where = sense, e, where

    def objective(sense):
        def f(expr):
            a = Cx(expr)
            if a.size != 1:
                raise I.err("ValueError", f"The '{sense}' objective must resolve to a scalar.")
            o = Native("objective", sense=sense, e=a.reshape(-1)[0], where=I.where())
            o.attrs.update({"args": [E(a)], "expr": E(a), "is_dcp": lambda: B("opq", "is_dcp")})
            o.attrs["__getattr__"] = lambda n: obj_attr(o, n)
            return o

        f.__name__ = sense
        return f

    def obj_attr(o, n):
        if n == "value":
            v = value_of(E(o.e))
            return v
        raise Undecided(f"objective.{n}")

    def flat_con(cs):
        out = []
        for c in I.iterate(cs) if cs is not None else []:
            if isinstance(c, Con):
                out.append(c)
            elif isinstance(c, bool):
                out.append(Con("bool", np.array([c], dtype=object), I.where(), I.fname(), (c,)))
            elif isinstance(c, B):
                out.append(Con("bool", np.array([c], dtype=object), I.where(), I.fname(), (c,)))
            else:
                raise I.err("ValueError", f"Problem has an invalid constraint of type {I.tname(c)}")
        return out

    def problem(objective, constraints=None):
        if not (isinstance(objective, Native) and objective.name == "objective"):
            raise I.err("DCPError" if False else "TypeError", "Problem objective must be Minimize or Maximize.")
        cs = flat_con(constraints)
        p = Native("Problem", objective=objective, constraints=cs, where=I.where(), fname=I.fname(), solves=[])
        I.problems.append(p)
        state = {"status": None, "value": None}

        def solve(*args, **kw):
            kw = dict(kw)
            solver = kw.get("solver")
            if args:
                kw["*args"] = args
            used = set(flat_names([objective.e] + [x for c in cs for x in c.expr.reshape(-1)]))
            rec = {"problem": p, "solver": solver, "kwargs": kw, "where": I.where(), "func": I.fname()}
            p.solves.append(rec)
            I.records.append(("solve", rec))
            hook = I.scenario.get("solve")
            st = "optimal"
            if hook is not None:
                st = hook(p, rec) or "optimal"
            I.solved_vars |= used
            state["status"] = st
            state["value"] = value_of(E(objective.e)) if st == "optimal" else alg.INF
            return state["value"]

        p.attrs.update({"solve": solve, "objective": objective, "constraints": cs})

        def ga(n):
            if n in ("status", "value"):
                return state[n]
            if n in ("is_dcp", "is_dpp", "is_qp"):
                return lambda *a, **k: B("opq", n)
            if n in ("variables", "parameters"):
                return lambda: Opaque(n)
            if n in ("solver_stats", "size_metrics", "compilation_time"):
                return Opaque(n)
            raise Undecided(f"Problem.{n}")

        p.attrs["__getattr__"] = ga
        return p

    expr_t = Native("cvxpy.Expression", test=lambda v: isinstance(v, Arr) and v.k == "cp")
    var_t = Native("cvxpy.Variable", {"__call__": leaf("Variable")}, test=lambda v: isinstance(v, Arr) and v.k == "cp" and v.var is not None and v.var["kind"] == "Variable")
    par_t = Native("cvxpy.Parameter", {"__call__": leaf("Parameter")}, test=lambda v: isinstance(v, Arr) and v.k == "cp" and v.var is not None and v.var["kind"] == "Parameter")

    def constant(x, name=None):
        return Arr(Cx(x), "f", "cp", {"const": True, "kind": "Constant", "uid": None, "attrs": {}})

    con_t = Native("cvxpy.Constant", {"__call__": constant}, test=lambda v: isinstance(v, Arr) and v.k == "cp" and not any(has_dec(x) for x in v.a.reshape(-1)))
    I.cp_types = {"Expression": expr_t, "Variable": var_t, "Parameter": par_t, "Constant": con_t}
    prob_t = Native("cvxpy.Problem", {"__call__": problem}, test=lambda v: isinstance(v, Native) and v.name == "Problem")
    ns = {
        "Expression": expr_t, "Variable": var_t, "Parameter": par_t, "Constant": con_t, "Problem": prob_t,
        "Minimize": objective("minimize"), "Maximize": objective("maximize"),
        "sum": sum_, "trace": trace, "reshape": reshape, "vec": vec, "upper_tri": upper_tri, "diag": diag, "bmat": bmat,
        "hstack": lambda xs: E(hst([Cx(x) for x in I.iterate(xs)])), "vstack": lambda xs: E(vst([Cx(x) for x in I.iterate(xs)])),
        "norm": norm, "norm2": lambda x, axis=None: norm(x, 2, axis) if Cx(x).ndim < 2 or axis is not None else E(norm2_(list(Cx(x).reshape(-1)))), "norm1": lambda x, axis=None: norm(x, 1, axis), "norm_inf": lambda x, axis=None: norm(x, alg.INF, axis), "pnorm": lambda x, p=2, axis=None: norm(x, p, axis),
        "sum_squares": sum_squares, "quad_form": quad_form, "log_det": matfn("log_det"), "lambda_max": matfn("lambda_max"), "lambda_min": matfn("lambda_min"), "tr_inv": matfn("tr_inv"),
        "abs": lambda x: cp_fn("abs", x), "square": lambda x: cp_fn("square", x), "sqrt": lambda x: cp_fn("sqrt", x), "log": lambda x: cp_fn("log", x), "exp": lambda x: cp_fn("exp", x), "pos": lambda x: cp_fn("pos", x), "inv_pos": lambda x: cp_fn("inv_pos", x), "neg": lambda x: cp_fn("pos", I.unop("USub", x)),
        "maximum": maxmin("maximum"), "minimum": maxmin("minimum"), "max": rmaxmin("max"), "min": rmaxmin("min"),
        "multiply": lambda a, b: (prod(Cx(a), Cx(b)), E(I.bcast(lambda x, y: arith("*", x, y), (Cx(a), Cx(b)))))[1], "kron": kron, "outer": outer, "matmul": lambda a, b: (prod(Cx(a), Cx(b)), mm(Arr(Cx(a)), Arr(Cx(b))))[1], "transpose": lambda x: E(Cx(x).T),
        "psd_wrap": lambda x: E(Cx(x)), "power": lambda x, p: E(I.bcast(power_el, (Cx(x), Cx(p)))),
        "scalar_product": lambda a, b: prod(Cx(a), Cx(b)) or sum_(E(I.bcast(lambda x, y: arith("*", x, y), (Cx(a), Cx(b))))),
        "PSD": lambda x: con("psd", Cx(x), (x,)), "Zero": lambda x: con("eq", Cx(x), (x,)), "NonNeg": lambda x: con("ge", Cx(x), (x,)), "NonPos": lambda x: con("ge", I.np_unop("USub", E(Cx(x))).a, (x,)),
        "installed_solvers": lambda: Opaque("installed_solvers"), "OPTIMAL": "optimal", "OPTIMAL_INACCURATE": "optimal_inaccurate", "INFEASIBLE": "infeasible", "UNBOUNDED": "unbounded", "SolverError": Native("SolverError"), "DCPError": Native("DCPError"), "error": Native("cvxpy.error", {"SolverError": Native("SolverError"), "DCPError": Native("DCPError")}),
        "__version__": "1.6.6",
    }
    def soc(t, X, axis=0):
        ta, xa = Cx(t), Cx(X)
        if ta.size != 1:
            raise Undecided("vector SOC")
        return con("ge", np.array([arith("-", ta.reshape(-1)[0], norm2_(list(xa.reshape(-1))))], dtype=object), (t, X))

    ns["SOC"] = soc
    for s in SOLVERS:
        ns[s] = s
    real = {"atoms", "settings", "constraints", "expressions", "problems", "reductions", "cumsum", "conv", "vec_to_upper_tri", "quad_over_lin", "matrix_frac", "geo_mean", "harmonic_mean", "huber", "logistic", "log_sum_exp", "mixed_norm", "normNuc", "partial_trace", "sigma_max", "sum_largest", "sum_smallest", "tv", "xexp", "entr", "kl_div", "rel_entr", "lambda_sum_largest", "ptp", "std", "var", "mean", "stack", "concatenate", "broadcast_to", "swapaxes", "moveaxis", "squeeze", "expand_dims", "permute_dims", "diff", "cummax", "dotsort", "trace", "ExpCone", "PowCone3D", "CallbackParam", "Zero", "prod", "convolve", "vdot", "real", "imag", "conj", "Var", "Inf", "inf"}

    def missing(n):
        if n in real:
            raise Undecided(f"cvxpy.{n} is not modelled")
        raise I.err("AttributeError", f"module 'cvxpy' has no attribute {n!r}")

    ns["__getattr__"] = missing
    for n, f in ns.items():
        if callable(f) and not isinstance(f, Native) and getattr(f, "__name__", "") in ("<lambda>", "f"):
            f.__name__ = n
    I.natives["cvxpy"] = Native("cvxpy", ns)
    I.solved_vars = set()
