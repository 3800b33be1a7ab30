"""Linear equalities of a recorded convex program: elimination of decision atoms."""
import numpy as np

from . import alg
from .alg import ATOMS, Rat, R
from .csets import plain


def dec_atoms(x):
    return [a for a in sorted(alg.all_atoms(x)) if ATOMS[a].dec]


def eliminate(eqs, keep=()):
    """Substitution implied by the equalities e == 0 that are affine in decision
    atoms; atoms of `keep` are eliminated last.  (substitution, equalities left)"""
    mp, left = {}, []
    todo = [R(e) for e in eqs]
    for e in todo:
        e = alg.subst(e, mp) if mp else e
        if e.is_zero():
            continue
        best = None
        for a in dec_atoms(e):
            if ATOMS[a].kind == "fn":
                continue
            c = alg.coeff(e, a)
            if c is None:
                continue
            k, rest = c
            if k.is_const() and not k.is_zero() or alg.is_pos(k) or alg.is_pos(-k):
                s = (a in keep, not k.is_const())
                if best is None or s < best[0]:
                    best = (s, a, k, rest)
        if best is None:
            left.append(e)
            continue
        _, a, k, rest = best
        v = -rest / k
        mp = {b: alg.subst(x, {a: v}) for b, x in mp.items()}
        mp[a] = v
    return mp, left


def eqs_of(cons):
    return [R(x) for c in cons if c.op == "eq" for x in c.expr.reshape(-1)]


def matrix_arg(p):
    """Matrix whose determinant the objective of a program measures, or None."""
    e = R(p.objective.e)
    for a in alg.all_atoms(e):
        A = ATOMS[a]
        if A.kind == "fn" and A.info["name"] == "cp.log_det":
            xs = A.info["args"]
            n = int(round(len(xs) ** 0.5))
            return np.array(xs, dtype=object).reshape(n, n)
    return None


def spherical(p):
    """Whether the equalities of a program force the measured matrix to be a
    multiple of the identity; None if it measures no matrix."""
    m = matrix_arg(p)
    if m is None:
        return None
    mp, _ = eliminate(eqs_of(p.constraints))
    n = m.shape[0]
    v = [[alg.subst(R(m[i, j]), mp) if mp else R(m[i, j]) for j in range(n)] for i in range(n)]
    if n == 1:
        return None
    return all(v[i][j].is_zero() for i in range(n) for j in range(n) if i != j) and all(v[i][i].same(v[0][0]) for i in range(n))
