"""Realizability constraint sets read back as conditions on the pseudo-inertia matrix.

A generated constraint list is a set of abstract equalities, inequalities and matrix
inequalities in the entries of the parameter and of auxiliary decision atoms.  The
parameter is replaced by the moments of a point mass at an abstract location (or a
perturbation of them); the auxiliary atoms are eliminated by what the conditions
imply (linear elimination, zero diagonals and rank-one minors of positive semidefinite
matrices), and what remains open is completed by a proposed distribution.
"""
import itertools
import math
import random

import numpy as np

from . import alg
from .alg import ATOMS, Rat, R
from .core import np_obj, emap, mm, T, add, sub, M, L, ONE, zeros
from .csets import flat, plain, sym, variable, vars_of
from .build import Z, box, ellipsoid, cylinder, poly, Spec
from .interp import Undecided


def red(e):
    return alg.rot_reduce(R(e))


def isdec(e):
    return any(ATOMS[a].dec for a in alg.all_atoms(e))


def decs(e):
    return {a for a in alg.all_atoms(e) if ATOMS[a].dec}


def dirac(m, p):
    v = np_obj([*p, Rat.const(1)])
    return np_obj([[red(R(m) * v[i] * v[j]) for j in range(4)] for i in range(4)])


def theta(J):
    """Inertial parameter vector of a pseudo-inertia matrix."""
    tr = R(J[0, 0]) + R(J[1, 1]) + R(J[2, 2])
    I = [[(tr if i == j else Z) - R(J[i, j]) for j in range(3)] for i in range(3)]
    return [J[3, 3], J[0, 3], J[1, 3], J[2, 3], I[0][0], I[0][1], I[0][2], I[1][1], I[1][2], I[2][2]]


class Prog:
    """A constraint list over parameter atoms X and auxiliary decision atoms."""

    def __init__(self, C, cs, X):
        self.C, self.X = C, X
        self.items, self.blocks = [], []
        cons = flat(cs)
        self.aux = vars_of(C, cons, skip=[X.var["var"]])
        self.auxids = {alg.as_atom(R(x)).id: v for v in self.aux for x in v.a.reshape(-1) if not R(x).is_zero()}
        for c in cons:
            w = f"{c.where}"
            if c.op == "bool":
                for x in c.expr.reshape(-1):
                    if x is not True:
                        raise Undecided("a truth value stands in the constraint list")
                continue
            if c.op == "psd":
                self.items.append(("psd", emap(lambda v: R(plain(R(v))), sym(c.expr)), w))
                continue
            expr = emap(lambda v: R(plain(R(v))), c.expr)
            if c.op == "eq" and c.expr.shape == (4, 4):
                self.blocks.append((expr, w))
            for x in expr.reshape(-1):
                if c.op == "eq" and x.is_zero():
                    continue
                self.items.append((c.op, x, w))
        for v in self.aux:
            w = f"{v.where} (attribute of the variable)"
            if v.attrs.get("PSD"):
                self.items.append(("psd", emap(R, v.a), w))
            if v.attrs.get("NSD"):
                self.items.append(("psd", emap(lambda x: -R(x), v.a), w))
            if v.attrs.get("nonneg") or v.attrs.get("pos"):
                self.items += [("ge", R(x), w) for x in v.a.reshape(-1)]
            if v.attrs.get("nonpos") or v.attrs.get("neg"):
                self.items += [("ge", -R(x), w) for x in v.a.reshape(-1)]
            if v.attrs.get("boolean") or v.attrs.get("integer"):
                raise Undecided("integer variables in a constraint list")
        self.xids = {alg.as_atom(R(x)).id for x in X.a.reshape(-1)}

    def bind(self, J):
        v = J.reshape(-1) if self.X.a.size == 16 else np_obj(theta(J))
        return {alg.as_atom(R(x)).id: R(y) for x, y in zip(self.X.a.reshape(-1), v)}

    def constants(self):
        """Items with a part that is constant in the decision atoms."""
        out = []
        for op, e, w in self.items:
            for x in [e] if op != "psd" else e.reshape(-1):
                if decs(R(x)):
                    z = alg.subst(R(x), {a: Z for a in decs(R(x))})
                    if not red(z).is_zero():
                        out.append(w)
                        break
        return out


def nonconst_coeff(e, skip=()):
    """A linear decision atom with a coefficient that is not a number."""
    for a in decs(e) - set(skip):
        c = alg.coeff(e, a)
        if c is None or not c[0].is_const():
            return True
    return False


def const_coeff(e):
    for a in decs(e):
        c = alg.coeff(e, a)
        if c is not None and c[0].is_const():
            return True
    return False


class Sol:
    """State of the elimination of the auxiliary atoms for one parameter value."""

    def __init__(self, prog, J, poses=()):
        self.prog, self.mp, self.left = prog, {}, []
        self.x = dict(prog.bind(J))
        self.eqs, self.ges, self.mats = [], [], []
        for op, e, w in prog.items:
            if op == "eq":
                self.eqs.append((red(alg.subst(e, self.x)), w))
            elif op == "ge":
                self.ges.append((red(alg.subst(e, self.x)), w))
            else:
                self.mats.append((emap(lambda v: red(alg.subst(R(v), self.x)), e), w))
        self.poses = poses
        skip = set()
        for b, w in prog.blocks:
            if any(nonconst_coeff(R(x), prog.xids) for x in b.reshape(-1)):
                self.add_block(emap(lambda v: alg.subst(R(v), self.x), b), w)
                skip |= {id(x) for x in b.reshape(-1)}
        self.add([q for q, it in zip(self.eqs, [i for i in prog.items if i[0] == "eq"]) if id(it[1]) not in skip])

    def add_block(self, e, w):
        """A matrix equality; congruence by an invertible transform keeps its solutions."""
        e = emap(self.full, e)
        rank = lambda t: sum(nonconst_coeff(x) and not const_coeff(x) for x in t.reshape(-1))
        best = rank(e), e
        if best[0]:
            for P in self.poses:
                Ti = np_obj([[Z] * 4 for _ in range(4)])
                Ti[:3, :3] = T(P.R)
                Ti[:3, 3] = [-x for x in mm(T(P.R), P.c)]
                Ti[3, 3] = Rat.const(1)
                t = emap(red, mm(Ti, mm(e, T(Ti))))
                k = rank(t)
                if k < best[0]:
                    best = (k, t)
        return self.add([(x, w) for x in best[1].reshape(-1)])

    def copy(self):
        s = object.__new__(Sol)
        s.prog, s.mp, s.left, s.x = self.prog, dict(self.mp), list(self.left), self.x
        s.poses = self.poses
        s.eqs, s.ges, s.mats = self.eqs, self.ges, self.mats
        return s

    def full(self, e):
        e = R(e)
        for _ in range(200):
            hit = [a for a in alg.all_atoms(e) if a in self.mp]
            if not hit:
                return red(e)
            e = alg.subst(e, {a: self.mp[a] for a in hit})
        raise Undecided("elimination does not end")

    def add(self, eqs):
        """Impose equalities; those without a solvable atom stay in `left`."""
        new = False
        for e, w in eqs:
            e = self.full(e)
            if e.is_zero():
                continue
            best = None
            for a in sorted(decs(e), reverse=True):
                if ATOMS[a].kind == "fn":
                    continue
                c = alg.coeff(e, a)
                if c is None or decs(c[0]):
                    continue
                k, rest = c
                if k.is_const() or alg.is_pos(k) or alg.is_pos(-k):
                    s = not k.is_const()
                    if best is None or s < best[0]:
                        best = (s, a, k, rest)
            if best is None:
                self.left.append((e, w))
                continue
            _, a, k, rest = best
            self.mp[a] = -rest / k
            new = True
        return new

    def matrices(self):
        return [(emap(self.full, m), w) for m, w in self.mats]

    def close(self):
        """What positive semidefiniteness implies: a zero diagonal entry annihilates
        its row, a zero 2x2 minor makes two columns proportional."""
        for _ in range(8):
            new = []
            for m, w in self.matrices():
                n = m.shape[0]
                if not any(decs(R(x)) for x in m.reshape(-1)):
                    continue
                det = [[not decs(R(m[i, j])) for j in range(n)] for i in range(n)]
                for i in range(n):
                    if det[i][i] and R(m[i, i]).is_zero():
                        new += [(R(m[i, j]), w) for j in range(n) if not R(m[i, j]).is_zero()]
                for i in range(n):
                    if not (det[i][i] and not R(m[i, i]).is_zero() and (alg.is_pos(R(m[i, i])) or alg.prove_nonneg(R(m[i, i])))):
                        continue
                    for j in range(n):
                        if j == i or not (det[i][j] and det[j][j]):
                            continue
                        if all(det[j]) and all(det[i]):
                            continue
                        if red(R(m[i, i]) * R(m[j, j]) - R(m[i, j]) ** 2).is_zero():
                            t = R(m[i, j]) / R(m[i, i])
                            for k in range(n):
                                if not (det[k][j] and det[k][i]):
                                    e = red(R(m[k, j]) - t * R(m[k, i]))
                                    if not e.is_zero():
                                        new.append((e, w))
                    break
            if not new or not self.add(new):
                return self

        return self

    def complete(self):
        """A choice: rank-one completion of matrices with a known pivot row."""
        for _ in range(4):
            new = []
            for m, w in self.matrices():
                n = m.shape[0]
                if not any(decs(R(x)) for x in m.reshape(-1)):
                    continue
                if all(decs(R(x)) or R(x).is_zero() for x in m.reshape(-1)):
                    new += [(R(x), w) for x in m.reshape(-1)]
                    continue
                for i in range(n):
                    if not any(decs(R(x)) for x in m[i]) and alg.is_pos(R(m[i, i])):
                        new += [(R(m[k, l]) - R(m[i, k]) * R(m[i, l]) / R(m[i, i]), w) for k in range(n) for l in range(k, n) if decs(R(m[k, l]))]
                        break
            if not new or not self.add(new):
                break
        return self

    def open_vars(self):
        out = []
        for v in self.prog.aux:
            if any(decs(self.full(R(x))) for x in v.a.reshape(-1)):
                out.append(v)
        return out

    def residuals(self):
        """(equalities left, inequalities, matrices) after elimination."""
        return [(self.full(e), w) for e, w in self.left], [(self.full(e), w) for e, w in self.ges], self.matrices()


# ---------------------------------------------------------------- proofs
def prove(e, slacks):
    """e >= 0 wherever the slacks are nonnegative."""
    e = R(e)
    if e.is_zero() or alg.prove_nonneg(e):
        return True
    for g in slacks:
        q = ratio(e, g)
        if q is not None and (alg.is_pos(q) or alg.prove_nonneg(q)):
            return True
    for n in (2, 3):
        for g in itertools.combinations(slacks, n):
            q = ratio(e, red(math.prod(g[1:], start=R(g[0]))))
            if q is not None and (q.is_const() and q.value() >= 0 or alg.is_pos(q) or alg.prove_nonneg(q)):
                return True
    return False


def ratio(e, g):
    """e/g as an expression whose denominator does not contain what g contains, or None."""
    g = R(g)
    if g.is_zero():
        return None
    q = R(e) / g
    loc = g.num.atoms()
    if any(set(f.atoms()) & loc and not f.is_const() and same_up(f, g) for f, _ in q.den):
        return None
    return q


def same_up(f, g):
    """f is the numerator of g up to a constant."""
    return set(f.atoms()) == set(g.num.atoms()) and len(f.t) == len(g.num.t) and len(f.t) > 1 or len(f.t) == 1 and len(g.num.t) == 1


def psd_proved(m, slacks, certs=()):
    m = np_obj([[R(x) for x in r] for r in m])
    keep = [i for i in range(m.shape[0]) if any(not R(x).is_zero() for x in m[i])]
    m = m[np.ix_(keep, keep)]
    n = m.shape[0]
    if n == 0:
        return True
    if n == 1:
        return prove(m[0, 0], slacks)
    if all(R(m[i, j]).is_zero() for i in range(n) for j in range(n) if i != j):
        return all(prove(m[i, i], slacks) for i in range(n))
    for i in range(n):
        d = R(m[i, i])
        if d.is_zero():
            continue
        if all(red(R(m[k, l]) * d - R(m[i, k]) * R(m[i, l])).is_zero() for k in range(n) for l in range(k, n) if k != i and l != i):
            if prove(d, slacks):
                return True
    for c in certs:
        if c.shape == m.shape and all(red(R(m[i, j]) - R(c[i, j])).is_zero() for i in range(n) for j in range(n)):
            return True
    # strictly positive pivot: Schur complement
    for i in range(n):
        if alg.is_pos(R(m[i, i])):
            k = [j for j in range(n) if j != i]
            s = np_obj([[red(R(m[a, b]) - R(m[a, i]) * R(m[i, b]) / R(m[i, i])) for b in k] for a in k])
            return psd_proved(s, slacks)
    return False


# ---------------------------------------------------------------- numbers
def val(e, env):
    return alg.evalf(R(e), dict(env))


def mval(m, env):
    return np.array([[val(x, env) for x in r] for r in m])


def holds(items, env, tol=1e-6):
    """(True, None) or (False, the item that fails) at an assignment."""
    env = dict(env)
    for op, e, w in items:
        if op == "psd":
            a = np.array([[alg.evalf(R(x), env) for x in r] for r in e])
            if np.linalg.eigvalsh((a + a.T) / 2)[0] < -(0.1 * tol * np.abs(a).max() + 1e-4 * tol):
                return False, (op, w)
        else:
            v = alg.evalf(e, env)
            if not np.isfinite(v):
                raise Undecided("not finite")
            if op == "eq" and abs(v) > tol or op == "ge" and v < -tol:
                return False, (op, w)
    return True, None


# ---------------------------------------------------------------- cases
class Case:
    """A shape (or body) with a mass at an abstract point: coordinates of the point,
    membership slacks, ways to place the point, proposals for auxiliary atoms."""

    def __init__(self, C, kind, obj, spec, p, slacks, pieces=(), points=None, certs=(), style="local", label=""):
        self.C, self.kind, self.obj, self.spec, self.p, self.slacks = C, kind, obj, spec, p, slacks
        self.pieces, self.points, self.certs, self.style, self.label = pieces, points, certs, style, label
        self.m = C.pos("mass", M)
        self.J = dirac(self.m, p)

    def poses(self):
        return [s.pose for s in [self.spec] + [c.spec for c in getattr(self, "members", ())] if s.pose is not None]

    def free(self):
        ids = set()
        for x in [*self.p, self.m, *self.slacks]:
            ids |= alg.all_atoms(R(x))
        return ids


def loc_atoms(C, tag="q", n=3):
    return np_obj(C.vec(tag, n))


def world(s, q):
    return add(s.pose.c, mm(s.pose.R, q))


def from_local(s, q):
    return np_obj([red(x) for x in world(s, q)])


def slacks_of(s, q):
    """Membership slacks at local coordinates."""
    if s.kind == "Box":
        return [R(s.h[i]) - k * R(q[i]) for i in range(3) for k in (1, -1)]
    if s.kind == "Ellipsoid":
        e = Rat.const(1)
        for x, h in zip(q, s.h):
            if not R(h).is_zero():
                e = e - (R(x) / R(h)) ** 2
        return [e]
    if s.kind == "Cylinder":
        return [1 - ((R(q[0]) ** 2 + R(q[1]) ** 2) / s.radius**2)] + [s.length / 2 - k * R(q[2]) for k in (1, -1)]
    raise KeyError(s.kind)


class Placer:
    """Numeric placement of the point (inside, outside one condition, extremal)."""

    def __init__(self, s, q, style="local", pw=None, A=None):
        self.s, self.q, self.style, self.pw = s, q, style, pw
        n = {"Box": 6, "Ellipsoid": 1, "Cylinder": 3}
        if s.kind == "Ellipsoid" and q is not None:
            n["Ellipsoid"] += sum(alg.as_atom(R(q[i])) is not None for i in s.flat)
        self.nout = n.get(s.kind, s.A.shape[0] if s.kind == "ConvexPolyhedron" else 0)

    def dims(self, env):
        f = lambda x: val(x, env)
        s = self.s
        if s.kind in ("Box", "Ellipsoid"):
            return np.array([f(x) for x in s.h])
        if s.kind == "Cylinder":
            return np.array([f(s.radius), f(s.length / 2)])

    def coord(self, env, rnd, mode, k=0):
        s = self.s
        g = lambda: rnd.uniform(-0.95, 0.95)

        def ball(n, lo=0.0, hi=0.97):
            u = np.array([rnd.gauss(0, 1) for _ in range(n)])
            return u / np.linalg.norm(u) * rnd.uniform(lo, hi)

        if s.kind == "Box":
            h = self.dims(env)
            if mode == "ext":
                return h * np.array([rnd.choice([-1, 1]) for _ in range(3)])
            q = h * np.array([g() for _ in range(3)])
            if mode == "out":
                q[k // 2] = (1 if k % 2 == 0 else -1) * h[k // 2] * rnd.uniform(1.1, 2)
            return q
        if s.kind == "Ellipsoid":
            h = self.dims(env)
            nz = [i for i in range(3) if h[i] > 0]
            q = np.zeros(3)
            if nz:
                u = ball(len(nz), *{"in": (0, 0.97), "ext": (1.0, 1.0), "out": (1.1, 2) if k == 0 else (0, 0.7)}[mode])
                q[nz] = h[nz] * u
            if mode == "out" and (k > 0 or not nz):
                z = [i for i in range(3) if h[i] == 0]
                q[z[max(k - 1, 0)]] = rnd.choice([-1, 1]) * rnd.uniform(0.3, 1.5)
            return q
        if s.kind == "Cylinder":
            r, h = self.dims(env)
            u = ball(2, *((1.1, 1.8) if mode == "out" and k == 0 else (0, 0.97))) * r
            z = rnd.choice([-h, h, g() * h]) if mode == "out" and k == 0 else (1 if k == 1 else -1) * h * rnd.uniform(1.1, 1.8) if mode == "out" else rnd.choice([-h, h]) if mode == "ext" else g() * h
            return np.array([*u, z])
        raise KeyError(s.kind)

    def place(self, env, rnd, mode, k=0):
        s = self.s
        q = self.coord(env, rnd, mode, k)
        Rn, cn = mval(s.pose.R, env), np.array([val(x, env) for x in s.pose.c])
        if self.style == "local":
            at, v = self.q, q
        else:
            at, v = self.pw, cn + Rn @ q
        for a, x in zip(at, v):
            a = alg.as_atom(R(a))
            if a is not None:
                env[a.id] = float(x)


class FacePlacer(Placer):
    """A point relative to abstract half-spaces."""

    def __init__(self, s, p):
        self.s, self.p, self.nout = s, p, s.A.shape[0]

    def fix(self, env, rnd):
        # bounded around the origin; offsets positive
        n = self.s.A.shape[0]
        if n in (4, 6):
            tet = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]) / 1.5 if n == 4 else np.vstack([np.eye(3), -np.eye(3)])
            q, _ = np.linalg.qr(np.array([[rnd.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
            for i, j in np.ndindex(n, 3):
                a = alg.as_atom(R(self.s.A[i, j]))
                if a is not None:
                    env[a.id] = float((tet @ q)[i, j] + rnd.uniform(-0.1, 0.1))
        for i in range(n):
            a = alg.as_atom(R(self.s.b[i]))
            if a is not None:
                env[a.id] = rnd.uniform(0.4, 2)

    def place(self, env, rnd, mode, k=0):
        A = mval(self.s.A, env)
        b = np.array([val(x, env) for x in self.s.b])
        for _ in range(400):
            d = np.array([rnd.gauss(0, 1) for _ in range(3)])
            if mode == "out":
                d = A[k] / np.linalg.norm(A[k]) + 0.5 * d
            s = A @ d
            t = [b[i] / s[i] for i in range(len(b)) if s[i] > 1e-9]
            tmax = min(t) if t else 3.0
            if mode == "in":
                x = d * tmax * rnd.uniform(0, 0.95)
            elif mode == "ext":
                x = d * tmax
            else:
                if s[k] <= 1e-9:
                    continue
                x = d * (b[k] / s[k]) * rnd.uniform(1.05, 1.6)
                if any(A[i] @ x > b[i] for i in range(len(b)) if i != k):
                    continue
                if A[k] @ x < b[k] * 1.04:
                    continue
            if any(A[i] @ x > b[i] + 1e-9 for i in range(len(b)) if not (mode == "out" and i == k)):
                continue
            for a, v in zip(self.p, x):
                env[alg.as_atom(R(a)).id] = float(v)
            return
        raise Undecided("no point found")


class WeightPlacer(Placer):
    def __init__(self, s, w):
        self.s, self.w, self.nout = s, w, len(w) + 1

    def place(self, env, rnd, mode, k=0):
        n = len(self.w) + 1
        w = np.array([rnd.uniform(0.1, 1) for _ in range(n)])
        w /= w.sum()
        if mode == "ext":
            w[:] = 0
            w[rnd.randrange(n)] = 1
        if mode == "out":
            w[k] = -rnd.uniform(0.2, 0.8)
            o = [i for i in range(n) if i != k]
            w[o] *= (1 - w[k]) / w[o].sum()
        for a, v in zip(self.w, w):
            env[alg.as_atom(R(a)).id] = float(v)


# ---------------------------------------------------------------- building cases
def box_points(s):
    """Vertices of a box in local coordinates."""
    return [np_obj([sg[i] * R(s.h[i]) for i in range(3)]) for sg in itertools.product((1, -1), repeat=3)]


def box_weights(s, q):
    out = []
    for sg in itertools.product((1, -1), repeat=3):
        w = Rat.const(1)
        for i in range(3):
            w = w * (R(s.h[i]) + sg[i] * R(q[i])) / (2 * R(s.h[i]))
        out.append(w)
    return out


def one_shape(C, kind, pose="generic", flat=(), tag="", world_style=False, nf=4):
    """(Case, Placer) for a single posed shape."""
    if kind == "ConvexPolyhedron":
        s = poly(C, nf, 4, 3, "v" + tag)
        p = loc_atoms(C, "p" + tag)
        sl = [R(s.b[i]) - mm(s.A[i], p) for i in range(s.A.shape[0])]
        return Case(C, kind, s.obj, s, p, sl, label="faces"), FacePlacer(s, p)
    s = box(C, pose, tag=tag) if kind == "Box" else cylinder(C, pose, tag=tag) if kind == "Cylinder" else ellipsoid(C, pose, flat=flat, tag=tag)
    q = loc_atoms(C, "q" + tag)
    if s.kind == "Ellipsoid":
        q = np_obj([Z if i in s.flat else x for i, x in enumerate(q)])
    if world_style:
        p = loc_atoms(C, "p" + tag)
        ql = s.pose.local(p)
        c = Case(C, kind, s.obj, s, p, slacks_of(s, ql), style="world")
        c.q = ql
        return c, Placer(s, q, "world", p)
    c = Case(C, kind, s.obj, s, from_local(s, q), slacks_of(s, q))
    c.q = q
    if kind == "Box":
        c.points = [(from_local(s, v), w) for v, w in zip(box_points(s), box_weights(s, q))]
        dg = np_obj([[c.m * (R(s.h[i]) ** 2 - R(q[i]) ** 2) if i == j else Z for j in range(3)] for i in range(3)])
        c.certs = (emap(red, mm(mm(s.pose.R, dg), T(s.pose.R))),)
    if kind == "Cylinder":
        h = s.length / 2
        ps = []
        for sg in (1, -1):
            lam = (h + sg * R(q[2])) / (2 * h)
            v = np_obj([q[0], q[1], sg * h])
            ps.append((lam * c.m, v))
        loc = [dirac(a, v) for a, v in ps]
        wld = [dirac(a, from_local(s, v)) for a, v in ps]
        c.pieces = [tuple(loc), tuple(loc[::-1]), tuple(wld), tuple(wld[::-1])]
    return c, Placer(s, q)


def free_atoms_case(C, kind, flat):
    """Ellipsoid point with free coordinates also along flat directions."""
    s = ellipsoid(C, "generic", flat=flat)
    q = loc_atoms(C, "q")
    c = Case(C, kind, s.obj, s, from_local(s, q), slacks_of(s, q))
    c.q = q
    return c, Placer(s, q)


def vertex_case(C, nv=4):
    s = poly(C, 4, nv, 3, "v")
    w = [C.I.fresh_weight(i) if False else alg.new(f"w{i}", 0, 1, unit=ONE) for i in range(nv - 1)]
    ws = w + [1 - sum(w, Z)]
    p = np_obj([sum((ws[k] * R(s.V[k, i]) for k in range(nv)), Z) for i in range(3)])
    c = Case(C, "ConvexPolyhedron", s.obj, s, p, [R(x) for x in ws], label="vertices")
    c.points = [(np_obj(s.V[k]), ws[k]) for k in range(nv)]
    cert = np.empty((3, 3), dtype=object)
    for i, j in np.ndindex(3, 3):
        cert[i, j] = sum((c.m * ws[k] * ws[l] * (R(s.V[k, i]) - R(s.V[l, i])) * (R(s.V[k, j]) - R(s.V[l, j])) for k in range(nv) for l in range(k)), Z)
    c.certs = (cert,)
    return c, WeightPlacer(s, w)


class BodyPlacer:
    def __init__(self, placers, i):
        self.placers, self.i, self.nout = placers, i, placers[i].nout

    def fix(self, env, rnd):
        for p in self.placers:
            if hasattr(p, "fix"):
                p.fix(env, rnd)

    def place(self, env, rnd, mode, k=0):
        self.placers[self.i].place(env, rnd, mode, k)


def body(C, kinds, i, flats=()):
    """A body of several shapes with the mass in (or near) its i-th shape."""
    cs, ps = [], []
    for k, kind in enumerate(kinds):
        fl = (2,) if kind == "flat Ellipsoid" else ()
        if fl:
            s = ellipsoid(C, "generic", flat=fl, tag=f"b{k}")
            q = np_obj([Z if j in s.flat else x for j, x in enumerate(loc_atoms(C, f"qb{k}"))])
            c = Case(C, kind, s.obj, s, from_local(s, q), slacks_of(s, q))
            c.q = q
            pl = Placer(s, q)
        else:
            c, pl = one_shape(C, kind, tag=f"b{k}")
        cs.append(c)
        ps.append(pl)
    o = C.call("RigidBody", [c.obj for c in cs])
    me = cs[i]
    out = Case(C, "RigidBody", o, me.spec, me.p, me.slacks, label=f"{' + '.join(kinds)}, mass in shape {i + 1}")
    zero = np_obj([[Z] * 4 for _ in range(4)])
    order = [out.J if k == i else zero for k in range(len(kinds))]
    out.pieces = [tuple(order)] + [tuple(x) for x in dict.fromkeys(itertools.permutations(range(len(kinds)))) if False]
    out.members = cs
    return out, BodyPlacer(ps, i)


# ---------------------------------------------------------------- completion by proposals
def weight_eqs(sol, case, signed=False):
    """Nonnegative scalar atoms whose coefficients are the moments of a proposed point
    (signed: also atoms that nothing keeps nonnegative)."""
    prog = sol.prog
    if not case.points:
        return []
    open_ = [v for v in sol.open_vars() if signed and not v.attrs.get("PSD") or v.attrs.get("nonneg") or v.attrs.get("pos") or any(op == "ge" and e.same(R(v.a.reshape(-1)[0])) for op, e, w in prog.items)]
    atoms = [alg.as_atom(R(x)).id for v in open_ for x in v.a.reshape(-1)]
    if not atoms:
        return []
    mine = set(atoms)
    eqs = [(e, w) for op, e, w in prog.items if op == "eq" and not (decs(e) - mine - prog.xids) and decs(e) & mine]
    if not eqs:
        return []
    gam = {a: [] for a in atoms}
    for e, w in eqs:
        for a in atoms:
            c = alg.coeff(e, a)
            gam[a].append(red(c[0]) if c is not None else None)
    rho = []
    for p, wt in case.points:
        b = prog.bind(dirac(Rat.const(1), p))
        b.update({a: Z for a in atoms})
        rho.append([red(alg.subst(e, b)) for e, w in eqs])
    out, used = [], set()
    for a in atoms:
        hit = None
        for k, (p, wt) in enumerate(case.points):
            if k not in used and all(g is not None and red(g + r).is_zero() for g, r in zip(gam[a], rho[k])):
                hit = k
                break
        if hit is None:
            return []
        used.add(hit)
        out.append((Rat.atom(ATOMS[a]) - case.m * case.points[hit][1], "proposed weights"))
    return out


def proposals(sol, case):
    """Completed states of the elimination."""
    base = sol.copy()
    we = weight_eqs(base, case)
    if we:
        base.add(we)
        base.close()
    mats = [v for v in base.prog.aux if v.a.shape == (4, 4)]
    done = False
    for pc in case.pieces:
        for vs in itertools.combinations(mats, len(pc)):
            s = base.copy()
            n0 = len(s.left)
            for v, m in zip(vs, pc):
                s.add_block(np_obj([[R(v.a[i, j]) - R(m[i, j]) for j in range(4)] for i in range(4)]), "proposed distribution")
            if any(not e.is_zero() for e, w in s.left[n0:]):
                continue
            s.close().complete()
            done = True
            yield s
    if not done:
        # moment matrices the conditions leave open: moments of the point itself
        for pt in ([case.q] if getattr(case, "q", None) is not None else []) + [case.p]:
            s = base.copy()
            for v in s.open_vars():
                d = {10: 2, 20: 3}.get(v.a.shape[0] if v.a.ndim == 2 and v.a.shape[0] == v.a.shape[1] else 0)
                if d:
                    b = [math.prod((R(x) for x in g), start=Rat.const(1)) for g in itertools.combinations_with_replacement([Rat.const(1), *pt], d)]
                    s.add([(R(v.a[i, j]) - red(case.m * b[i] * b[j]), "proposed moments") for i in range(len(b)) for j in range(len(b))])
                    done = True
            if done and not any(not s.full(e).is_zero() for e, w in s.left):
                yield s.close().complete()
    if not done or case.kind != "RigidBody":
        yield base.close().complete()


def admissible(sol, case):
    """(True, '') if every condition is shown to hold; else (False, reason)."""
    left, ges, mats = sol.residuals()
    for e, w in left:
        if not e.is_zero():
            return False, f"equality at {w}"
    for e, w in ges:
        if decs(e):
            return False, f"undetermined inequality at {w}"
        if not prove(e, case.slacks):
            return False, f"inequality at {w}: {str(e)[:100]}"
    for m, w in mats:
        if any(decs(R(x)) for x in m.reshape(-1)):
            return False, f"undetermined matrix at {w}"
        if not psd_proved(m, case.slacks, case.certs):
            return False, f"matrix at {w}"
    return True, ""


def environment(prog, case, placer, rnd, mode, k=0, extra=()):
    ids = case.free()
    for op, e, w in prog.items:
        for x in ([e] if op != "psd" else e.reshape(-1)):
            ids |= alg.all_atoms(R(x))
    for x in extra:
        ids |= alg.all_atoms(R(x))
    for s in [case.spec] + [c.spec for c in getattr(case, "members", ())]:
        if s.pose is not None:
            for x in [*s.pose.R.reshape(-1), *s.pose.c]:
                ids |= alg.all_atoms(R(x))
        for nm in ("h", "A", "b", "V", "length", "radius"):
            v = getattr(s, nm, None)
            if v is not None:
                for x in np_obj(v).reshape(-1) if not isinstance(v, Rat) else [v]:
                    ids |= alg.all_atoms(R(x))
    ids = {a for a in ids if not ATOMS[a].dec}
    env = alg.sample_env(ids, rnd)
    if hasattr(placer, "fix"):
        placer.fix(env, rnd)
    placer.place(env, rnd, mode, k)
    return env


def refuted(sol, case, env):
    """A determined condition that fails at an assignment, or None."""
    left, ges, mats = sol.residuals()
    for e, w in left:
        if not decs(e) and abs(val(e, env)) > 1e-6:
            return f"equality at {w}"
    for e, w in ges:
        if not decs(e) and val(e, env) < -1e-6:
            return f"inequality at {w}"
    for m, w in mats:
        n = m.shape[0]
        keep = []
        for i in range(n):
            if not decs(R(m[i, i])) and all(not decs(R(m[i, j])) for j in keep):
                keep.append(i)
        if keep:
            a = mval(m[np.ix_(keep, keep)], env)
            if np.linalg.eigvalsh((a + a.T) / 2)[0] < -1e-6 * (1 + np.abs(a).max()):
                return f"matrix condition at {w}"
    return weights_refuted(sol, env)


def weights_refuted(sol, env):
    """Equalities over nonnegative unknowns: a ratio of two right-hand sides outside the
    range of the ratios of their coefficients."""
    prog = sol.prog
    nn = set()
    for op, e, w in prog.items:
        if op == "ge":
            a = alg.as_atom(R(e))
            if a is not None and ATOMS[a.id].dec and a.id not in prog.xids:
                nn.add(a.id)
    if not nn:
        return None
    rows = []
    env2 = dict(env)
    for op, e, w in prog.items:
        if op != "eq" or not decs(e) & nn or decs(e) - nn - prog.xids:
            continue
        x = alg.subst(e, sol.x)
        g, ok = [], True
        for a in sorted(nn):
            c = alg.coeff(x, a)
            if c is None or decs(c[0]):
                ok = False
                break
            g.append(-val(c[0], env))
        if ok:
            rows.append((val(alg.subst(x, {a: Z for a in decs(x)}), env), np.array(g), w))
    base = next((r for r in rows if (r[1] > 1e-9).all() or (r[1] < -1e-9).all()), None)
    if base is None:
        return None
    r0, g0, _ = base
    if abs(r0) < 1e-6:
        return None
    for r, g, w in rows:
        q, lim = r / r0, g / g0
        t = 1e-6 * (1 + np.abs(lim).max())
        if q < lim.min() - t or q > lim.max() + t:
            return f"equality at {w}"
    return None


def witness(sol, prog, env):
    """Values of all decision atoms given by a completed elimination."""
    env = dict(env)
    for a, v in sol.x.items():
        env[a] = val(v, env)
    for v in prog.aux:
        for x in v.a.reshape(-1):
            x = R(x)
            if x.is_zero():
                continue
            e = sol.full(x)
            if decs(e):
                return None
            env[alg.as_atom(x).id] = val(e, env)
    return env
