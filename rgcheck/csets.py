"""Meaning of recorded optimisation constraints: the set of decision values that
satisfy them, as a condition over the decision atoms."""
import numpy as np

from . import alg
from .alg import ATOMS, Rat, R
from .cond import B, cmp, band
from .interp import Arr, Undecided
from .core import np_obj, emap


def variable(C, shape, **attrs):
    """A decision variable made by the caller of the analysed code."""
    return C.I.call(C.I.natives["cvxpy"].attrs["Variable"], [shape], attrs)


def expr(C, rows):
    """An affine decision expression with the given entries."""
    return Arr(emap(lambda v: R(v), np_obj(rows)), "f", "cp")


def flat(cs):
    """Constraint objects of a returned list."""
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            out += flat(c)
        else:
            out.append(c)
    return out


def plain(x):
    """Replace convex atoms of the modelling library by their definition."""
    if not isinstance(x, Rat):
        return x
    mp = {}
    for a in alg.all_atoms(x):
        A = ATOMS[a]
        if A.kind != "fn" or not A.info["name"].startswith("cp."):
            continue
        n, xs = A.info["name"][3:], [plain(v) for v in A.info["args"]]
        if n in ("norm2", "sum_squares"):
            v = sum((v * v for v in xs), Rat.const(0))
            mp[a] = alg.sqrt(v) if n == "norm2" else v
        elif n == "square":
            mp[a] = xs[0] * xs[0]
        elif n == "abs":
            mp[a] = alg.absv(xs[0])
        elif n == "max":
            mp[a] = alg.maxv(xs)
        elif n == "min":
            mp[a] = alg.minv(xs)
        elif n == "pos":
            mp[a] = alg.maxv([xs[0], Rat.const(0)])
        elif n == "sqrt":
            mp[a] = alg.sqrt(xs[0])
        elif n == "norm1":
            mp[a] = sum((alg.absv(v) for v in xs), Rat.const(0))
        elif n == "norm_inf":
            mp[a] = alg.maxv([alg.absv(v) for v in xs])
        elif n == "quad_form":
            k = int(A.args[0][len("cp.quad_form"):])
            v, P = xs[:k], xs[k:]
            mp[a] = sum((v[i] * P[i * k + j] * v[j] for i in range(k) for j in range(k)), Rat.const(0))
    return alg.subst(x, mp) if mp else x


def unroot(d):
    """d <= 0 with one root: k*sqrt(q) + rest <= 0 and -rest >= 0 known."""
    for a in d.atoms():
        A = ATOMS[a]
        if A.kind == "sqrt":
            c = alg.coeff(d, a)
            if c is None:
                continue
            k, rest = c
            if alg.is_pos(k) and alg.prove_nonneg(-rest):
                return k * k * Rat(A.info) - rest * rest
    return d


def con_cond(c):
    """Condition of one constraint."""
    if c.op == "bool":
        return band(*list(c.expr.reshape(-1)))
    if c.op == "psd":
        return psd_cond((c.expr + c.expr.T) / 2 if False else sym(c.expr))
    out = []
    for x in c.expr.reshape(-1):
        x = plain(R(x))
        if c.op == "eq":
            out.append(cmp("==", x, Rat.const(0)))
        else:
            out.append(cmp("<=", unroot(-x), Rat.const(0)))
    return band(*out)


def sym(m):
    out = np.empty(m.shape, dtype=object)
    for i, j in np.ndindex(*m.shape):
        a, b = R(m[i, j]), R(m[j, i])
        out[i, j] = a if a.same(b) else (a + b) / 2
    return out


def psd_cond(m):
    """Positive semidefiniteness by elimination: a strictly positive pivot is
    replaced by its Schur complement, a zero pivot forces its row to zero."""
    m = m.copy()
    conds = []
    while m.shape[0] > 1:
        n = m.shape[0]
        zero = [i for i in range(n) if R(m[i, i]).is_zero()]
        if zero:
            i = zero[0]
            for j in range(n):
                if j != i and not R(m[i, j]).is_zero():
                    conds.append(cmp("==", R(m[i, j]), Rat.const(0)))
            m = np.delete(np.delete(m, i, 0), i, 1)
            continue
        piv = [i for i in range(n) if alg.is_pos(R(m[i, i]))]
        if not piv:
            return band(*conds, B("psd", m)) if conds else B("psd", m)
        i = min(piv, key=lambda i: sum(not R(m[i, j]).is_zero() for j in range(n)))
        k = [j for j in range(n) if j != i]
        s = np.empty((n - 1, n - 1), dtype=object)
        for a, p in enumerate(k):
            for b, q in enumerate(k):
                s[a, b] = R(m[p, q]) - R(m[p, i]) * R(m[i, q]) / R(m[i, i])
        m = s
    if m.shape[0]:
        conds.append(cmp("<=", -R(m[0, 0]), Rat.const(0)))
    return band(*conds)


def cons_cond(cs, dec_vars=()):
    out = [con_cond(c) for c in flat(cs)]
    for v in dec_vars:
        out += var_conds(v)
    return band(*out)


def var_conds(v):
    out = []
    if v.attrs.get("PSD"):
        out.append(psd_cond(v.a))
    for k in ("nonneg", "pos"):
        if v.attrs.get(k):
            out += [cmp("<=", -R(x), Rat.const(0)) for x in v.a.reshape(-1)]
    return out


def vars_of(C, cs, skip=()):
    """Decision variables (Var) that occur in constraints, except those skipped."""
    ids = set()
    for c in flat(cs):
        for x in c.expr.reshape(-1):
            if isinstance(x, Rat):
                ids |= alg.all_atoms(x)
    out = []
    for v in C.I.variables:
        if v in skip:
            continue
        if any(R(x).atoms() & ids for x in v.a.reshape(-1) if isinstance(x, Rat)):
            out.append(v)
    return out
