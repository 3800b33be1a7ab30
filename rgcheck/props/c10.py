"""Realizability conditions are complete.  The constraint list of every shape,
relaxation and parameterisation is read back and decided against what it has to
exclude: asymmetric matrices, matrices below the margin, point masses outside each face,
bounding surface or sub-shape, parameters not tied to the distribution, auxiliary
moment matrices that are not moment matrices, and mixtures that put a negative weight on
a localizing condition.  A condition whose residual is a nonzero multiple of the defect
proves the exclusion; an assignment of all unknowns that satisfies every condition and
carries the defect is reported.  The direct checks are compared as conditions."""
import itertools
import random

import numpy as np

from .. import alg
from ..alg import ATOMS, Rat, R
from ..core import *
from ..build import *
from ..cond import band, bnot, bor, beval, batoms, cmp
from ..csets import variable
from ..interp import Undecided
from ..realize import *
from .c09 import targets, instantiate, member_params, eig_hook

LEVEL = "other"
RULE = "for every defect (asymmetry, margin, outside each bounding condition, untied moment, inconsistent auxiliary moments) some generated condition excludes it"
ASSUMPTIONS = ["equalities and psd conditions whose residual in the size of a defect is nonzero at random shapes are nonzero for generic shapes", "polyhedra are given by abstract faces for face-based conditions and by the vertices of an abstract tetrahedron for vertex-based ones"]


class Setup:
    """A program with the elimination for a point mass and its completion."""

    def __init__(self, C, item, shape, eps=None):
        construct, label, name, kw, mk = item
        if eps is not None:
            kw = dict(kw, eps=eps)
        self.case, self.placer, self.prog = instantiate(C, construct, name, kw, mk, shape)
        self.lab = f"{label}, parameter {'matrix' if shape == (4, 4) else 'vector'}"
        self.sol = Sol(self.prog, self.case.J, self.case.poses()).close()
        self.done = None
        for s in proposals(self.sol, self.case):
            if self.done is None:
                self.done = s
            if admissible(s, self.case)[0]:
                self.done = s
                break
        self.rnd = random.Random(11)

    def env(self, mode="in", k=0, extra=()):
        return environment(self.prog, self.case, self.placer, self.rnd, mode, k, extra)

    def values(self, env):
        return witness(self.done, self.prog, env)

    def mixture(self, points, extra=()):
        """Values of every unknown for a sum of point masses: [(mode, k, mass)]."""
        env = self.env(extra=extra)
        m = alg.as_atom(R(self.case.m)).id
        dec, out = {}, None
        for mode, k, mass in points:
            e = dict(env)
            e[m] = mass
            self.placer.place(e, self.rnd, mode, k)
            w = self.values(e)
            if w is None:
                return None
            out = out or w
            for a in w:
                if ATOMS[a].dec:
                    dec[a] = dec.get(a, 0.0) + w[a]
        out = dict(out)
        out.update(dec)
        return out

    def accepts(self, env):
        return holds(self.prog.items, env)[0]

    def J(self, env):
        return np.array([[val(x, env) for x in r] for r in self.pim()])

    def pim(self):
        """Pseudo-inertia matrix in the parameter's atoms."""
        X = self.prog.X.a
        if X.size == 16:
            return X
        v = [R(x) for x in X.reshape(-1)]
        I = [[v[4], v[5], v[6]], [v[5], v[7], v[8]], [v[6], v[8], v[9]]]
        tr = (v[4] + v[7] + v[9]) / 2
        J = np.empty((4, 4), dtype=object)
        for i, j in np.ndindex(3, 3):
            J[i, j] = (tr if i == j else Z) - I[i][j]
        for i in range(3):
            J[i, 3] = J[3, i] = v[1 + i]
        J[3, 3] = v[0]
        return J

    def set_J(self, env, J):
        """Environment with the parameter set to a given matrix."""
        env = dict(env)
        X = self.prog.X.a.reshape(-1)
        if X.size == 16:
            v = J.reshape(-1)
        else:
            t = np.trace(J[:3, :3]) * np.eye(3) - J[:3, :3]
            v = [J[3, 3], *J[:3, 3], t[0, 0], t[0, 1], t[0, 2], t[1, 1], t[1, 2], t[2, 2]]
        for x, y in zip(X, v):
            env[alg.as_atom(R(x)).id] = float(y)
        return env


def spread(n=10):
    return [("in", 0, 0.4 + 0.1 * i) for i in range(n)]


# ---------------------------------------------------------------- parameter matrix
def symmetric(C, item):
    def f():
        S = Setup(C, item, (4, 4))
        bad, open_ = [], []
        for i, j in itertools.permutations(range(4), 2):
            J = S.case.J.copy()
            d = alg.new(f"skew{i}{j}", unit=None)
            J[i, j] = R(J[i, j]) + d
            sol = Sol(S.prog, J, S.case.poses()).close()
            left, ges, mats = sol.residuals()
            ok = False
            for e, w in left:
                q = R(e) / d
                if not decs(e) and q.is_const() and not q.is_zero():
                    ok = True
            if ok:
                continue
            env = S.mixture(spread())
            if env is not None:
                Jn = S.J(env)
                Jn[i, j] += 0.05
                if S.accepts(S.set_J(env, Jn)):
                    bad.append((i, j))
                    continue
            open_.append((i, j))
        if bad:
            yield ("diff", f"{S.lab}: a matrix that is not symmetric satisfies every condition (entry {bad[0]})")
        elif open_:
            yield ("undecided", f"{S.lab}: asymmetry of entry {open_[0]}")
        else:
            yield ("proved", f"{S.lab}: all 12 off-diagonal entries are tied to their transposes")

    return f


def margin(C, item, shape):
    def f():
        eps = C.nn("eps", M)
        S = Setup(C, item, shape, eps)
        e = alg.as_atom(R(eps)).id
        J = S.pim()
        want = np_obj([[red((R(J[i, j]) + R(J[j, i])) / 2 - (R(eps) if i == j else Z)) for j in range(4)] for i in range(4)])
        found = False
        for op, m, w in S.prog.items:
            if op == "psd" and m.shape == (4, 4):
                if all(red(R(m[i, j]) - R(want[i, j])).is_zero() for i in range(4) for j in range(4)):
                    found = True
        others = 0
        for op, m, w in S.prog.items:
            for x in [m] if op != "psd" else m.reshape(-1):
                if e in alg.all_atoms(R(x)):
                    others += 1
                    break
        env0 = None
        for t in range(6):
            # a margin is part of the constant terms: complete with margin zero
            pts = spread(12)
            env0 = S.mixture(pts, extra=[eps])
            if env0 is None:
                break
            Jn = S.J(env0)
            lam = np.linalg.eigvalsh((Jn + Jn.T) / 2)[0]
            if lam < 1e-3:
                continue
            hi, lo = dict(env0), dict(env0)
            hi[e], lo[e] = 1.3 * lam, 0.6 * lam
            if S.accepts(hi):
                yield ("diff", f"{S.lab}: a pseudo-inertia matrix with smallest eigenvalue {lam:.4f} is accepted at margin {1.3 * lam:.4f}")
                return
            if not S.accepts(lo):
                yield ("diff", f"{S.lab}: a realizable pseudo-inertia matrix with smallest eigenvalue {lam:.4f} is excluded at margin {0.6 * lam:.4f} by the condition at {holds(S.prog.items, lo)[1][1]}")
                return
        if found and others == 1:
            yield ("proved", f"{S.lab}: J - eps I is required to be positive semidefinite and the margin enters nowhere else")
        else:
            yield ("undecided", f"{S.lab}: margin occurs in {others} conditions")

    return f


# ---------------------------------------------------------------- outside
def hull_rule(sol, case):
    """Weights tie mass and first moment to points of the shape: the centre of mass
    lies in their convex hull."""
    we = weight_eqs(sol, case)
    if not we:
        return False
    b = sol.prog.bind(dirac(Rat.const(1), case.p))
    res = []
    for op, e, w in sol.prog.items:
        if op == "eq" and decs(e) and not (decs(e) - {a for x, _ in we for a in decs(x)} - sol.prog.xids):
            b2 = dict(b)
            b2.update({a: Z for x, _ in we for a in decs(x)})
            res.append(red(alg.subst(e, b2)))
    has = lambda x: any(red(r - x).is_zero() or red(r + x).is_zero() for r in res)
    loc = getattr(case, "q", None)
    return has(Rat.const(1)) and (all(has(R(x)) for x in case.p) or loc is not None and all(has(R(x)) for x in loc))


def candidates(sol):
    """Quantities that the conditions force to be nonnegative (or to vanish)."""
    left, ges, mats = sol.residuals()
    out = [("eq", e) for e, w in left if not decs(e)]
    out += [("ge", e) for e, w in ges if not decs(e)]
    for m, w in mats:
        out += [("ge", R(m[i, i])) for i in range(m.shape[0]) if not decs(R(m[i, i]))]
    und = [e for e, w in ges if decs(e)]
    for n in (2, 3):
        for c in itertools.combinations(und, n) if len(und) <= 8 else ():
            t = red(sum(c, Z))
            if not decs(t):
                out.append(("ge", t))
    return out


def outside(C, item, shape):
    def f():
        S = Setup(C, item, shape)
        case = S.case
        flat = [i for i in getattr(case.spec, "flat", ()) or ()]
        ns = S.placer.nout
        states = [S.done] + [s for s in itertools.islice(proposals(S.sol, case), 4)]
        for k in range(ns):
            for t in range(4):
                env = S.env("out", k)
                if not outside_all(S, env):
                    continue
                for s in states:
                    w = witness(s, S.prog, env)
                    if w is not None and S.accepts(w):
                        yield ("diff", f"{S.lab}: a point mass outside bounding condition {k + 1} satisfies every generated condition")
                        return
        cand = candidates(S.sol)
        if case.kind == "RigidBody":
            cand += candidates(S.done)
        hull = hull_rule(S.sol, case)
        missing = []
        for k, g in enumerate(case.slacks):
            ok = hull
            for op, e in cand:
                if ok:
                    break
                q = ratio(e, g)
                if q is not None and (alg.is_pos(q) or q.is_const() and q.value() > 0):
                    ok = True
            if not ok:
                missing.append(k + 1)
        if missing:
            yield ("undecided", f"{S.lab}: no condition found that is a multiple of bounding condition {missing}")
        else:
            yield ("proved", f"{S.lab}: {len(case.slacks)} bounding conditions of the shape are enforced on point masses" + (" (convex hull of weights)" if hull else ""))

    return f


def outside_all(S, env):
    """The point lies outside every member of a body."""
    case = S.case
    cs = getattr(case, "members", None)
    if not cs:
        return True
    p = [val(x, env) for x in case.p]
    for c in cs:
        if c.spec is case.spec:
            continue
        if member_at(c.spec, p, env):
            return False
    return True


def member_at(s, p, env):
    if s.kind == "ConvexPolyhedron":
        A = mval(s.A, env)
        b = np.array([val(x, env) for x in s.b])
        return bool((A @ p <= b + 1e-6).all())
    Rn = mval(s.pose.R, env)
    q = Rn.T @ (np.array(p) - np.array([val(x, env) for x in s.pose.c]))
    pl = Placer(s, None)
    d = pl.dims(env)
    if s.kind == "Box":
        return bool((np.abs(q) <= d + 1e-6).all())
    if s.kind == "Ellipsoid":
        z = d == 0
        return bool((np.abs(q[z]) < 1e-3).all() and ((q[~z] / d[~z]) ** 2).sum() <= 1 + 1e-6)
    return bool(np.hypot(q[0], q[1]) <= d[0] + 1e-6 and abs(q[2]) <= d[1] + 1e-6)


def flat_directions(C, item, shape):
    """A point mass off the plane (line, point) of a degenerate shape."""

    def f():
        construct, label, name, kw, mk = item
        base, _ = mk()
        flat = tuple(getattr(base.spec, "flat", ()))

        def free():
            s = base.spec
            q = loc_atoms(C, "qf")
            c = Case(C, "Ellipsoid", s.obj, s, from_local(s, q), slacks_of(s, q))
            c.q = q
            return c, Placer(s, q)

        S = Setup(C, (construct, label, name, kw, free), shape)
        for k in range(1, 1 + len(flat)):
            for t in range(3):
                env = S.env("out", k)
                for s in itertools.islice(proposals(S.sol, S.case), 4):
                    w = witness(s, S.prog, env)
                    if w is not None and S.accepts(w):
                        yield ("diff", f"{S.lab}: a point mass off the flat shape satisfies every generated condition")
                        return
        left = [e for op, e in candidates(S.sol) if op == "eq"]
        q = S.case.q
        for i in flat:
            tgt = [R(q[i]), R(q[i]) ** 2]
            ok = False
            for e in left:
                for t in tgt:
                    r = R(e) / t
                    if r.is_const() and not r.is_zero() or alg.is_pos(r) or alg.is_pos(-r):
                        ok = True
            if not ok:
                yield ("undecided", f"{S.lab}: flat direction {i}")
                return
        yield ("proved", f"{S.lab}: mass is confined to the shape along its {len(flat)} flat directions")

    return f


# ---------------------------------------------------------------- ties
DIRS = [(3, 3), (0, 3), (1, 3), (2, 3), (0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]
NAMES = ["mass", "first moment x", "first moment y", "first moment z", "second moment xx", "second moment xy", "second moment xz", "second moment yy", "second moment yz", "second moment zz"]


def ties(C, item, shape):
    """With the auxiliary unknowns fixed at those of an extremal distribution (vertices,
    end disks, faces), no entry of the parameter can move on its own; a second moment
    may only shrink."""

    def f():
        S = Setup(C, item, shape)
        if not S.prog.aux:
            yield ("proved", f"{S.lab}: the parameter enters the conditions itself")
            return
        n = 0
        for t in range(4):
            for mode in ("ext", "in"):
                env = S.mixture([(mode, 0, 0.3 + 0.1 * i) for i in range(16)])
                if env is None:
                    yield ("undecided", f"{S.lab}: some unknowns are left open")
                    return
                if not S.accepts(env):
                    yield ("undecided", f"{S.lab}: a distribution inside was not admitted")
                    return
                J0 = S.J(env)
                lam = np.linalg.eigvalsh(J0)[0]
                d0 = 0.3 * lam if lam > 1e-3 else 0.01
                for k, (i, j) in enumerate(DIRS):
                    if mode == "in" and k >= 4:
                        continue
                    for d in (d0, -d0):
                        if i == j < 3 and d < 0:
                            continue
                        J = J0.copy()
                        J[i, j] += d
                        if i != j:
                            J[j, i] += d
                        n += 1
                        if S.accepts(S.set_J(env, J)):
                            yield ("diff", f"{S.lab}: the {NAMES[k]} is not tied to the distribution: changed by {d:.3g} with the distribution unchanged, every condition still holds")
                            return
        yield ("proved", f"{S.lab}: mass, first and second moments are tied to the distribution ({n} changes excluded)")

    return f


# ---------------------------------------------------------------- auxiliary unknowns
def auxiliary(C, item, shape):
    """Auxiliary matrices carry the moments of the same distribution: entries standing
    for the same moment agree and every other entry is tied."""

    def f():
        S = Setup(C, item, shape)
        envs = []
        for t in range(3):
            e = S.mixture(spread(14))
            if e is None:
                yield ("undecided", f"{S.lab}: some unknowns are left open")
                return
            envs.append(e)
        ok0 = S.accepts(envs[0])
        n = 0
        for v in S.prog.aux:
            ids = [alg.as_atom(R(x)).id for x in v.a.reshape(-1)]
            for a in dict.fromkeys(ids):
                twins = [b for b in dict.fromkeys(ids) if b != a and all(abs(e[a] - e[b]) < 1e-9 * (1 + abs(e[a])) for e in envs)]
                for d in (0.02, 1.0):
                    e = dict(envs[0])
                    e[a] += d
                    n += 1
                    if ok0 and S.accepts(e) and (twins or not monomials(v, envs[0])):
                        yield ("diff", f"{S.lab}: an entry of the auxiliary unknown at {v.where} can be changed on its own" + (" although another entry stands for the same moment" if twins else ""))
                        return
        if not S.prog.aux:
            yield ("proved", f"{S.lab}: no auxiliary unknowns")
        elif ok0:
            yield ("proved", f"{S.lab}: {n} single-entry changes of auxiliary unknowns are excluded or are free moments")
        else:
            yield ("undecided", f"{S.lab}: a distribution inside was not admitted")

    return f


def monomials(v, env):
    """The variable holds distinct moments (a moment matrix larger than second order)."""
    return v.a.ndim == 2 and v.a.shape[0] == v.a.shape[1] and v.a.shape[0] > 4 and v.attrs.get("PSD")


def localizing(C, item, shape):
    """A distribution with a little mass outside one face violates a localizing
    condition of relaxations of order two and higher."""

    def f():
        S = Setup(C, item, shape)
        ns = 1 if S.case.spec.kind == "Ellipsoid" else S.placer.nout
        for k in range(ns):
            for t in range(3):
                env = S.mixture([("in", 0, 1.0), ("in", 0, 1.2), ("out", k, 0.1)])
                if env is None:
                    yield ("undecided", f"{S.lab}: some unknowns are left open")
                    return
                if S.accepts(env):
                    yield ("diff", f"{S.lab}: moments of a distribution with mass outside bounding condition {k + 1} satisfy every condition")
                    return
        yield ("proved", f"{S.lab}: moments of distributions with any mass outside each of {ns} bounding conditions are excluded")

    return f


def weights(C, item, shape):
    """Masses at vertices are nonnegative: a matrix that only a negative mass at one
    vertex produces (it is the moment matrix of no distribution inside) is excluded."""

    def f():
        S = Setup(C, item, shape)
        eqs = weight_eqs(S.sol, S.case)
        if eqs:
            yield ("proved", f"{S.lab}: masses at the vertices are nonnegative")
            if S.case.kind == "Box":
                yield from excess(S, eqs)
            return
        eqs = weight_eqs(S.sol, S.case, signed=True)
        if not eqs:
            return
        env = S.env()
        spec, pts = S.case.spec, S.case.points
        if S.case.kind == "Box":
            # local correlations of -0.45: the square of the sum of the scaled local
            # coordinates is at least one at every vertex, and every second moment is
            # the largest possible, so all mass is at vertices
            mu = [(1 - 0.45 * (a * b + a * c + b * c)) / 8 for a, b, c in itertools.product((1, -1), repeat=3)]
        elif S.case.kind == "ConvexPolyhedron" and len(pts) == 6:
            # octahedron: |x| + |y| + |z| <= 1, with E|x| >= 0.6, E|y| and E|z| >= 0.3
            M_ = np.array([[S.rnd.gauss(0, 1) for _ in range(3)] for _ in range(3)])
            V = np.vstack([np.eye(3), -np.eye(3)])[[0, 3, 1, 4, 2, 5]] @ M_
            for i, j in np.ndindex(6, 3):
                env[alg.as_atom(R(spec.V[i, j])).id] = float(V[i, j])
            mu = [0.5, -0.1, 0.15, 0.15, 0.15, 0.15]
        else:
            return
        J = np.zeros((4, 4))
        for u, (p, wt) in zip(mu, pts):
            x = np.array([val(R(v), env) for v in p] + [1.0])
            J += u * np.outer(x, x)
        e = S.set_J(env, J)
        mine = vertex_masses(S, eqs, mu, e)
        if set(S.prog.auxids) - mine:
            yield ("undecided", f"{S.lab}: some unknowns are left open")
        elif S.accepts(e):
            yield ("diff", f"{S.lab}: a matrix that only a negative mass at a vertex produces satisfies every generated condition")
        else:
            yield ("proved", f"{S.lab}: a negative mass at a vertex is excluded")

    return f


def vertex_masses(S, eqs, mu, env):
    """Set the unknowns that stand for the mass at a vertex; returns which they are."""
    mine = set()
    for d, w in eqs:
        for a in decs(d):
            # the atom minus the mass times the weight of its vertex
            j = [i for i, (p, wt) in enumerate(S.case.points) if red(d - Rat.atom(ATOMS[a]) + S.case.m * wt).is_zero()]
            if len(j) == 1:
                env[a] = mu[j[0]]
                mine.add(a)
    return mine


def excess(S, eqs):
    """A box with its mass at the vertices, and more spread along one local axis than
    the box has (with less along another)."""
    env = S.env()
    Q = mval(S.case.spec.pose.R, env)
    h = [val(R(x), env) for x in S.case.spec.h]
    for i, j in itertools.permutations(range(3), 2):
        J = np.zeros((4, 4))
        for p, wt in S.case.points:
            x = np.array([val(R(v), env) for v in p] + [1.0])
            J += np.outer(x, x) / 8
        d = 0.3 * h[j] ** 2
        J[:3, :3] += d * (np.outer(Q[:, i], Q[:, i]) - np.outer(Q[:, j], Q[:, j]))
        e = S.set_J(env, J)
        if set(S.prog.auxids) - vertex_masses(S, eqs, [0.125] * 8, e):
            yield ("undecided", f"{S.lab}: some unknowns are left open")
            return
        if S.accepts(e):
            yield ("diff", f"{S.lab}: more spread along local axis {i} than the box has satisfies every generated condition")
            return
    yield ("proved", f"{S.lab}: the spread along each local axis is bounded by the box's")


# ---------------------------------------------------------------- direct checks
def as_condition(C, thunk, ids):
    """The result of a computation as one condition over its undetermined branches."""

    def go(path):
        taken = []

        def hook(c, where):
            if not batoms(c) & ids:
                return None
            k = len(taken)
            v = path[k] if k < len(path) else True
            taken.append(c)
            return v

        C.I.scenario["decide"] = hook
        try:
            r = C.I.truthy(thunk())
        finally:
            C.I.scenario["decide"] = None
        if len(taken) > 8:
            raise Undecided("many branches")
        for k in range(len(taken) - 1, len(path) - 1, -1):
            alt = go(path + [True] * (k - len(path)) + [False])
            c = taken[k]
            r = band(c, r) if alt is False else band(bnot(c), alt) if r is False else r if r is alt else bor(band(c, r), band(bnot(c), alt))
        return r

    return go([])


def least(lam, eps):
    """All eigenvalues at least eps, as a conjunction and through their minimum."""
    return [band(*[cmp(">=", x, eps) for x in lam]), cmp(">=", alg.minv(lam), eps)]


def either(C, got, wants, what):
    out = [C.same_bool(got, w, what) for w in wants]
    for o in out:
        if o[0] == "proved":
            return o
    return out[0]


def consistent(C):
    for with_eps in (False, True):
        def f():
            J = np_obj(C.mat("J", 4, 4, M))
            J = np_obj([[R(J[min(i, j), max(i, j)]) for j in range(4)] for i in range(4)])
            lam = [alg.new(f"lam{i}", unit=M) for i in range(4)]
            C.I.scenario["eig"] = eig_hook(C, J, lam)
            p = C.call("InertialParameters", J[3, 3], h=C.A(np_obj(J[:3, 3])), H=C.A(np_obj(J[:3, :3])))
            eps = C.nn("eps", M)
            r = C.meth(p, "consistent", **({"eps": eps} if with_eps else {}))
            yield either(C, r, least(lam, eps if with_eps else 0), f"consistency{' with a margin' if with_eps else ''}: every eigenvalue of the pseudo-inertia matrix is at least the margin")

        C.run("direct-consistent", "InertialParameters.consistent", f, special=False)


def can_realize(C):
    for pose in ("generic", "default"):
        def f():
            s = ellipsoid(C, pose)
            J = np_obj(C.mat("J", 4, 4, M))
            J = np_obj([[R(J[min(i, j), max(i, j)]) for j in range(4)] for i in range(4)])
            lam = [alg.new(f"lam{i}", unit=M) for i in range(4)]
            eps = C.nn("eps", M)
            C.I.scenario["eig"] = eig_hook(C, J, lam)
            p = C.call("InertialParameters", J[3, 3], h=C.A(np_obj(J[:3, 3])), H=C.A(np_obj(J[:3, :3])))
            r = as_condition(C, lambda: C.meth(s.obj, "can_realize", p, eps=eps), {a for x in [*lam, *J.reshape(-1)] for a in alg.all_atoms(R(x))})
            l = s.pose
            # second moment in the body frame
            Ti = zeros(4, 4)
            Ti[:3, :3] = T(l.R)
            Ti[:3, 3] = [-x for x in mm(T(l.R), l.c)]
            Ti[3, 3] = Rat.const(1)
            K = mm(Ti, mm(J, T(Ti)))
            tr = R(K[3, 3])
            for i in range(3):
                tr = tr - R(K[i, i]) / R(s.h[i]) ** 2
            yield either(C, r, [band(w, cmp(">=", tr, 0)) for w in least(lam, eps)], f"direct realizability on an ellipsoid ({pose})")

        C.run("direct-ellipsoid", "Ellipsoid.can_realize", f, special=False)
    for flat in ((0,), (2,), (0, 1)):
        for k in range(1 + len(flat)):
            def g():
                s = ellipsoid(C, "generic", flat=flat)
                q = loc_atoms(C, "q")
                c = Case(C, "Ellipsoid", s.obj, s, from_local(s, q), slacks_of(s, q))
                pl = Placer(s, q)
                p = member_params(C, c)
                r = C.I.truthy(C.meth(s.obj, "can_realize", p))
                rnd = random.Random(4)
                for t in range(6):
                    ids = c.free() | {a for x in [*s.h, *s.pose.R.reshape(-1), *s.pose.c, *q] for a in alg.all_atoms(R(x))}
                    env = alg.sample_env(ids | (batoms(r) if not isinstance(r, bool) else set()), rnd)
                    pl.place(env, rnd, "out", k)
                    if r if isinstance(r, bool) else beval(r, env):
                        yield ("diff", f"ellipsoid flat along {flat}: a point mass outside is accepted by the direct check")
                        return
                yield ("proved", f"ellipsoid flat along {flat}: point masses outside condition {k + 1} are refused by the direct check")

            C.run("direct-flat", "Ellipsoid.can_realize", g, special=False)


# ---------------------------------------------------------------- registration
def check(C):
    todo = []
    for t in targets(C):
        for sh in ((4, 4), (10,)):
            for f in (margin, outside, ties, auxiliary):
                todo.append((f.__name__, t[0], f(C, t, sh)))
            if t[3].get("d", 0) >= 2:
                todo.append(("localizing", t[0], localizing(C, t, sh)))
            if t[0].split(".")[0] in ("Box", "ConvexPolyhedron"):
                todo.append(("weights", t[0], weights(C, t, sh)))
            if "flat along" in t[1]:
                todo.append(("flat", t[0], flat_directions(C, t, sh)))
        todo.append(("symmetric", t[0], symmetric(C, t)))

    def one(x):
        n, c, f = x
        C.run(n, c, f, limit=3, special=False)

    C.parallel(todo, one)
    consistent(C)
    can_realize(C)
