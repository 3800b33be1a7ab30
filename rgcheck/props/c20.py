"""The convex programs behind optimised ellipsoids are read back from the abstract
interpretation of the code that builds them.  The decision variables are replaced by an
abstract optimum in spectral form; the conditions the program imposes on it must be
exactly the containments (every item in the returned ellipsoid, or the returned
ellipsoid in every half-space), the objective must rank optima by volume in the right
direction, and the returned object must be the ellipsoid of the optimum in the original
coordinates, in the affine hull of degenerate input, and round when a sphere is asked."""
import itertools
import math
import random

import numpy as np

from .. import alg, csets, feas
from ..alg import ATOMS, Rat, R
from ..cond import B, band, cmp
from ..core import *
from ..catalog import params
from ..interp import Arr, Undecided
from ..build import *

LEVEL = "other"
RULE = "conditions imposed on the abstract optimum = containment of every item; objective ranks by volume; returned ellipsoid = ellipsoid of the optimum"
ASSUMPTIONS = ["the solver returns an optimum of the recorded program (N02)", "ranges and kernels are spanned by columns of one rotation", "the S-procedure is lossless (Boyd and Vandenberghe, appendix B)"]

Z, ONE_ = Rat.const(0), Rat.const(1)


def red(a):
    return emap(alg.rot_reduce, np_obj(a))


def spectral(V, w):
    return red(mm(mm(V, diag(w)), T(V)))


def spectrum(Vs, a):
    """(diagonal, V) with a = V diag V^T for one of the known bases."""
    a = np_obj(a)
    for V in Vs:
        if V.shape == a.shape:
            D = red(mm(mm(T(V), a), V))
            if all(R(D[i, j]).is_zero() for i in range(len(D)) for j in range(len(D)) if i != j):
                return [R(D[i, i]) for i in range(len(D))], V
    return None


class Case:
    """Analysis scenario: bases, abstract optimum and what the program was."""

    def __init__(self, C, n, rank=None, sphere=False, generic=True, bases=()):
        self.C, self.n, self.sphere = C, n, sphere
        self.rank = n if rank is None else rank
        self.generic = generic
        self.known = list(bases)
        self.Rb = np_obj(C.rot("B", n)) if n > 1 else np_obj([[ONE_]])
        self.mp, self.p, self.orths = {}, None, []

    def optimum(self, p):
        """Values of the decision variables: the measured matrix in spectral form."""
        C = self.C
        self.p = p
        M = feas.matrix_arg(p)
        if M is None:
            raise Undecided("the objective measures no matrix")
        k = M.shape[0]
        self.k = k
        self.V = np_obj(C.rot("V", k)) if k > 1 and self.generic and not self.sphere else eye(k)
        self.w = [C.pos("w0", ONE)] * k if self.sphere else [C.pos(f"w{i}", ONE) for i in range(k)]
        self.M = spectral(self.V, self.w)
        self.known.append(self.V)
        eqs = [R(M[i, j]) - self.M[i, j] for i in range(k) for j in range(k)] + feas.eqs_of(p.constraints)
        self.mp, self.left = feas.eliminate(eqs)

    def value(self, A):
        r = self.mp.get(A.id)
        if r is None:
            r = self.mp[A.id] = self.C.sym(f"opt_{A.name}", lo=A.lo)
        return alg.subst(r, {a: self.value(ATOMS[a]) for a in feas.dec_atoms(r)}) if feas.dec_atoms(r) else r

    def at(self, x):
        """An expression of the program at the abstract optimum."""
        if isinstance(x, B):
            if x.op == "cmp":
                return cmp(x.args[0], self.at(x.args[1]), Z)
            if x.op == "psd":
                return B("psd", emap(self.at, x.args[0]))
            return B(x.op, *[self.at(v) for v in x.args])
        if isinstance(x, bool):
            return x
        x = R(x)
        ds = feas.dec_atoms(x)
        return alg.rot_reduce(alg.subst(x, {a: self.value(ATOMS[a]) for a in ds if ATOMS[a].kind != "fn"})) if ds else x

    def orth(self, what, x):
        a = np_obj(x)
        m = a.shape[0] if what == "orth" else a.shape[1]
        comp, base = self.Rb[:, self.rank:], self.Rb[:, : self.rank]
        if m == self.n:
            if what == "orth":
                off = red(mm(T(comp), a)) if comp.shape[1] else np_obj([])
                if all(R(v).is_zero() for v in off.reshape(-1)) and a.shape[1] >= self.rank:
                    return base.copy()
            else:
                off = red(mm(a, comp)) if comp.shape[1] else np_obj([])
                if all(R(v).is_zero() for v in off.reshape(-1)) and a.shape[0] >= self.rank:
                    return comp.copy()
        t = np_obj(self.C.rot(f"X{m}", m)) if m > 1 else np_obj([[ONE_]])
        r = min(a.shape)
        return t[:, :r].copy() if what == "orth" else t[:, r:].copy()

    def scenario(self):
        def eig(x):
            s = spectrum(self.known, x.a)
            if s is None:
                return None
            return Arr(np.array(s[0], dtype=object), "f"), Arr(np_obj(s[1]).copy(), "f")

        def inv(a):
            s = spectrum(self.known, a)
            if s is None or any(d.is_zero() for d in s[0]):
                return None
            return spectral(s[1], [ONE_ / d for d in s[0]])

        def decide(t, *_):
            # spectra of the abstract optimum are away from zero, flat extents are zero
            if isinstance(t, B) and t.op == "close":
                return False
            return None

        def solve(p, rec):
            if self.p is None or self.p is p:
                self.optimum(p)
            return self.status

        return {"eig": eig, "inv": inv, "basis": self.orth, "value": self.value, "solve": solve, "decide": decide}

    status = "optimal"


def roundness(S, construct):
    """The program is about spheres exactly when one is asked for."""
    if S.k == 1:
        return ("proved", "one-dimensional", construct)
    f = feas.spherical(S.p)
    if f is None or f != S.sphere:
        return ("diff" if f is not None else "undecided", "nothing in the program makes the ellipsoid a sphere" if S.sphere else "the program admits spheres only", construct)
    if [e for e in S.left if not e.is_zero()]:
        return ("undecided", "the program restricts the matrix of the ellipsoid further", construct)
    return ("proved", "spheres are required exactly when asked for", construct)


def result(C, o):
    h, Rt, c = (np_obj(C.attr(o, k)) for k in ("half_extents", "rotation", "center"))
    return emap(R, h), emap(R, Rt), emap(R, c)


def inside(h, Rt, c, p):
    """Point condition of a (possibly flat) ellipsoid on its affine hull."""
    q = red(mm(T(Rt), sub(p, c)))
    return cmp("<=", sum((R(x) * R(x) / (k * k) for x, k in zip(q, h) if not k.is_zero()), Z) - ONE_, Z)


def shape_ok(C, S, h, Rt, c, origin, construct):
    """Rotation orthonormal, flat exactly across the affine hull, centre in it."""
    yield C.same(red(mm(T(Rt), Rt)), eye(len(h)), "columns of the rotation are orthonormal", construct)
    flat = [i for i, x in enumerate(h) if x.is_zero()]
    yield ("proved" if len(flat) == S.n - S.rank else "diff", f"{len(flat)} zero half extents for input of dimension {S.rank} in {S.n}", construct)
    base, comp = S.Rb[:, : S.rank], S.Rb[:, S.rank:]
    if comp.shape[1]:
        if flat:
            yield C.same(red(mm(T(base), Rt[:, flat])), zeros(S.rank, len(flat)), "flat axes are across the affine hull", construct)
        yield C.same(red(mm(T(comp), np_obj(sub(c, origin)).reshape(-1, 1))), zeros(S.n - S.rank, 1), "centre lies in the affine hull", construct)
    if S.sphere:
        nz = [x for x in h if not x.is_zero()]
        yield ("proved" if all(x.same(nz[0]) for x in nz) else "diff", f"half extents of a sphere are equal: {', '.join(map(short, nz))}", construct)


def unabs(b):
    """|q| + rest <= 0 with -rest >= 0 known, squared."""
    if b is True or b is False:
        return b
    if b.op in ("and", "or"):
        return (band if b.op == "and" else lambda *a: B("or", *a))(*map(unabs, b.args))
    if b.op == "cmp" and b.args[0] in ("<=", "<"):
        d = R(b.args[1])
        for a in d.atoms():
            if ATOMS[a].kind == "fn" and ATOMS[a].info["name"] == "abs":
                c = alg.coeff(d, a)
                if c and alg.is_pos(c[0]) and alg.prove_nonneg(-c[1]):
                    q = R(ATOMS[a].info["args"][0])
                    return cmp(b.args[0], c[0] * c[0] * q * q - c[1] * c[1], Z)
    return b


def conditions(S, skip_eq=True):
    """Conditions of the recorded program at the abstract optimum."""
    out = []
    for c in S.p.constraints:
        b = unabs(S.at(csets.con_cond(c))) if c.op != "psd" else csets.psd_cond(csets.sym(emap(S.at, c.expr)))
        out.append(b)
    return band(*out)


def objective(C, S, h, sense, construct):
    """The objective ranks optima by the volume of the returned ellipsoid."""
    e = R(S.p.objective.e)
    a = [a for a in alg.all_atoms(e) if ATOMS[a].kind == "fn"]
    if len(a) != 1:
        return ("undecided", "the objective is not a single log-determinant", construct)
    k = alg.coeff(e, a[0])
    if k is None or not k[0].is_const() or feas.dec_atoms(k[1]):
        return ("undecided", "the objective is not affine in the log-determinant", construct)
    # det(M) as a power of the volume, from the spectrum
    rnd = random.Random(1)
    env = {x: rnd.uniform(0.5, 2) for y in [*h, *S.w] for x in alg.all_atoms(y) if ATOMS[x].kind in ("var", "rot")}
    nz = [x for x in h if not x.is_zero()]
    def vol(en):
        return math.prod(alg.evalf(x, en) for x in nz)
    def det(en):
        return math.prod(alg.evalf(x, en) for x in S.w)
    up = {x: v * 1.5 for x, v in env.items()}
    kk = float(k[0].value()) * (1 if S.p.objective.sense == "minimize" else -1)
    better = kk * (math.log(det(up)) - math.log(det(env)))  # decrease of what is minimised is an improvement
    bigger = math.log(vol(up)) - math.log(vol(env))
    if sense == "min":
        good = better * bigger > 0
    else:
        good = better * bigger < 0
    what = f"the program {'minimises' if sense == 'min' else 'maximises'} the volume of the returned ellipsoid"
    return ("proved", what) if good else ("diff", f"the objective ({S.p.objective.sense} {short(e)}) does not make the program one that {'minimises' if sense == 'min' else 'maximises'} the volume of the returned ellipsoid", construct)


def biased(S, got, want, mult, n=300):
    """Look for a difference where a large ellipsoid contains the small ones."""
    rnd = random.Random(5)
    atoms = batoms(got) | batoms(want)
    ws = {a for x in S.w for a in alg.all_atoms(x)}
    for _ in range(n):
        env = alg.sample_env(atoms, rnd)
        for a in env:
            A = ATOMS[a]
            if A.kind != "var":
                continue
            if a in ws:
                env[a] = rnd.uniform(0.02, 0.2)
            elif a in mult:
                env[a] = rnd.uniform(0.1, 0.9)
            elif A.lo >= 0:
                env[a] = rnd.uniform(0.6, 1.4)
            else:
                env[a] = rnd.gauss(0, 0.2 if not A.name.startswith("opt_") else 0.02)
        try:
            g, w = (b if isinstance(b, bool) else beval(b, dict(env)) for b in (got, want))
        except (ArithmeticError, ValueError):
            continue
        if g != w and robust(got, want, env):
            return f"{'accepts' if g else 'rejects'} at {show(env)}"
    return None


def compare(C, S, want, what, construct):
    try:
        got = conditions(S)
    except Undecided as e:
        return ("undecided", f"{what}: {e}", construct)
    return C.same_bool(got, want, what, construct)


def check(C):
    items = []

    # ------------------------------------------------- bounding points
    def points(n, rank, k, sphere, via):
        construct = {"function": "mbe_of_points", "poly": "ConvexPolyhedron.mbe"}[via]
        def f():
            S = Case(C, n, rank, sphere, generic=rank < 3 or C.thorough)
            C.I.scenario.update(S.scenario())
            o = np_obj(C.vec("o", n))
            q = np_obj(C.mat("q", k, rank))
            P = red(add(mm(q, T(S.Rb[:, :rank])), np.array([list(o)] * k, dtype=object)))
            kw = {"sphere": True} if sphere else {}
            if via == "function":
                e = C.call("mbe_of_points", C.A(P), **kw)
            else:
                e = C.meth(C.call("ConvexPolyhedron", face_form=C.call("FaceForm", C.A(C.mat("A", 2, n, ONE)), C.A(C.vec("b", 2))), span_form=C.call("SpanForm", vertices=C.A(P))), "mbe", **kw)
            if S.p is None:
                return [("diff", "no program is solved", construct)]
            h, Rt, c = result(C, e)
            out = list(shape_ok(C, S, h, Rt, c, o, construct))
            out.append(compare(C, S, band(*[inside(h, Rt, c, p) for p in P]), f"{k} points of dimension {rank} in {n}{' with a sphere' if sphere else ''}: the program requires exactly that each point is in the returned ellipsoid", construct))
            out += [objective(C, S, h, "min", construct), roundness(S, construct)]
            return out
        items.append((construct, "bounding-points", f))

    for n, rank, k in ((3, 3, 4), (3, 3, 5), (3, 2, 4), (3, 1, 2), (2, 2, 3), (2, 1, 3), (1, 1, 2), *((2, 2, k) for k in C.sizes(5)[1:])):
        for sphere in (False, True):
            points(n, rank, k, sphere, "function")
            if k == 4:
                points(n, rank, k, sphere, "poly")

    # ------------------------------------------------- coincident points
    def point(n, k, sphere, construct):
        def f():
            S = Case(C, n, 0, sphere)
            C.I.scenario.update(S.scenario())
            o = C.vec("o", n)
            P = np.array([list(o)] * k, dtype=object)
            kw = {"sphere": True} if sphere else {}
            if construct == "mbe_of_points":
                e = C.call("mbe_of_points", C.A(P), **kw)
            else:
                q = C.call("ConvexPolyhedron", face_form=C.call("FaceForm", C.A(C.mat("A", 2, n, ONE)), C.A(C.vec("b", 2))), span_form=C.call("SpanForm", vertices=C.A(P)))
                e = C.meth(q, construct.split(".")[1], **kw)
            h, Rt, c = result(C, e)
            lab = f"{k} coincident points in {n} dimensions{' with a sphere' if sphere else ''}"
            return [C.same(np_obj(h), zeros(1, n)[0], f"{lab}: all half extents are zero", construct), C.same(np_obj(c), np_obj(o), f"{lab}: the centre is the point", construct), C.same(red(mm(T(Rt), Rt)), eye(n), f"{lab}: the axes are orthonormal", construct)]
        items.append((construct, "coincident-points", f))

    for n, k in ((3, 1), (3, 3), (2, 2), (1, 2)):
        for construct in ("mbe_of_points", "ConvexPolyhedron.mbe", "ConvexPolyhedron.mie"):
            point(n, k, n == 2, construct)

    # ------------------------------------------------- inscribed in a polyhedron
    def inscribed(n, rank, sphere, nr):
        construct = "ConvexPolyhedron.mie"
        def f():
            S = Case(C, n, rank, sphere, generic=rank < 3 or C.thorough)
            rows = [[C.sym(f"fb{i}")] + [C.sym(f"fa{i}{j}", unit=ONE) for j in range(rank)] for i in range(nr)]
            seen = []

            def cdd(kind, m):
                seen.append((kind, [list(r) for r in m.rows]))
                return [list(r) for r in rows], []

            C.I.scenario.update(S.scenario())
            C.I.scenario["cdd"] = cdd
            o = np_obj(C.vec("o", n))
            q = np_obj(C.mat("q", 4, rank))
            P = red(add(mm(q, T(S.Rb[:, :rank])), np.array([list(o)] * 4, dtype=object)))
            poly_ = C.call("ConvexPolyhedron", face_form=C.call("FaceForm", C.A(C.mat("A", 2, n, ONE)), C.A(C.vec("b", 2))), span_form=C.call("SpanForm", vertices=C.A(P)))
            e = C.meth(poly_, "mie", **({"sphere": True} if sphere else {}))
            if S.p is None:
                return [("diff", "no program is solved", construct)]
            h, Rt, c = result(C, e)
            # coordinates in which the half-spaces were asked for: q - q0'
            got = [r for k_, r in seen if k_ == "inequalities"]
            if not got or len(got[-1]) != 4 or len(got[-1][0]) != rank + 1:
                return [("undecided", "half-spaces are not asked for in the affine hull", construct)]
            y = red(np_obj([[R(v) for v in r[1:]] for r in got[-1]]))
            shift = [R(q[0, j]) - R(y[0, j]) for j in range(rank)]
            out = [C.same(red(sub(q, np.array([shift] * 4, dtype=object))), y, "vertices are expressed in the basis of the affine hull", construct)]
            org = add(o, mm(S.Rb[:, :rank], np_obj(shift)))
            out += list(shape_ok(C, S, h, Rt, c, o, construct))
            want = []
            for b, *a in rows:
                a = [-R(v) for v in a]  # b + row.y >= 0
                u = np_obj(mm(S.Rb[:, :rank], np_obj(a)))
                s2 = Z
                for i in range(n):
                    t = alg.rot_reduce(sum((R(Rt[j, i]) * R(u[j]) for j in range(n)), Z)) * h[i]
                    s2 = s2 + t * t
                rest = alg.rot_reduce(R(b) - sum((R(u[j]) * (R(c[j]) - R(org[j])) for j in range(n)), Z))
                want.append((alg.rot_reduce(s2), rest))
            try:
                got = []
                for con in S.p.constraints:
                    got.append(S.at(csets.con_cond(con)))
                got = band(*got)
            except Undecided as e_:
                return out + [("undecided", str(e_), construct)]
            out.append(C.same_bool(got, band(*[cmp("<=", alg.sqrt(s2) - rest, Z) for s2, rest in want]), f"polyhedron of dimension {rank} in {n}{' with a sphere' if sphere else ''}: the program requires exactly that the returned ellipsoid is in each half-space", construct))
            out += [objective(C, S, h, "max", construct), roundness(S, construct)]
            return out
        items.append((construct, "inscribed", f))

    for n, rank, nr in ((3, 3, 4), (3, 2, 3), (3, 1, 2), (2, 2, 3), (2, 1, 2), *((2, 2, k) for k in C.sizes(5)[1:])):
        for sphere in (False, True):
            inscribed(n, rank, sphere, nr)

    # ------------------------------------------------- bounding ellipsoids
    def hom(S_, c, k=ONE_):
        """Homogeneous matrix of (x-c)'S(x-c) - 1."""
        n = len(c)
        m = np.empty((n + 1, n + 1), dtype=object)
        v = mm(S_, np_obj(c))
        for i in range(n):
            for j in range(n):
                m[i, j] = S_[i, j]
            m[i, n] = m[n, i] = -R(v[i])
        m[n, n] = alg.rot_reduce(sum((R(c[i]) * R(v[i]) for i in range(n)), Z)) - ONE_
        return emap(alg.rot_reduce, m)

    def ellipsoids(n, kinds, sphere, via):
        construct = {"function": "mbe_of_ellipsoids", "capsule": "Capsule.mbe"}[via]
        def f():
            S = Case(C, n, n, sphere, generic=n == 2 and "generic" not in kinds)
            C.I.scenario.update(S.scenario())
            kw = {"sphere": True} if sphere else {}
            if via == "capsule":
                cap = capsule(C, kinds[0])
                r = cap.r if hasattr(cap, "r") else cap.radius
                e = C.meth(cap.obj, "mbe", **kw)
                cen = np_obj(C.meth(cap.obj.attrs["cylinder"], "endpoints"))
                quads = [(diag([ONE_ / (r * r)] * 3), cen[i]) for i in range(2)]
            else:
                specs = [ellipsoid(C, k, n=n, tag=str(i)) for i, k in enumerate(kinds)]
                S.known += [s.pose.R for s in specs]
                e = C.call("mbe_of_ellipsoids", [s.obj for s in specs], **kw)
                quads = [(spectral(s.pose.R, [ONE_ / (x * x) for x in s.h]), s.pose.c) for s in specs]
            if S.p is None:
                return [("diff", "no program is solved", construct)]
            h, Rt, c = result(C, e)
            out = list(shape_ok(C, S, h, Rt, c, c, construct))
            F = hom(spectral(Rt, [ONE_ / (x * x) for x in h]), c)
            # multipliers: values of decision variables that the returned ellipsoid does not depend on
            got, psd, mult = [], [], []
            seen = {a for x in [*h, *Rt.reshape(-1), *c, *S.M.reshape(-1)] for a in alg.all_atoms(R(x))}
            for con in S.p.constraints:
                if con.op == "psd":
                    d = csets.sym(emap(S.at, con.expr))
                    free = {a for v in con.expr.reshape(-1) for b in feas.dec_atoms(R(v)) if ATOMS[b].kind != "fn" for a in alg.all_atoms(S.value(ATOMS[b]))} - seen
                    psd.append(free)
                    got.append(csets.psd_cond(d))
                else:
                    got.append(S.at(csets.con_cond(con)))
            if len(psd) != len(quads):
                return out + [("diff", f"{len(psd)} containment conditions for {len(quads)} ellipsoids", construct)]
            if any(len(o_) != 1 for o_ in psd):
                # values that only one condition has; the others are shared and not
                # part of the returned ellipsoid
                own = [o_.difference(*(x for x in psd if x is not o_)) for o_ in psd]
                if len(psd) > 1 and all(len(o_) == 1 for o_ in own):
                    psd = own
            if any(len(o_) != 1 for o_ in psd):
                return out + [("undecided", "multipliers of the containment conditions are not recognised", construct)]
            mult = [o_.copy().pop() for o_ in psd]
            if len(set(mult)) != len(mult):
                return out + [("diff", "one multiplier serves several ellipsoids, so containment is required with equal multipliers", construct)]
            want = []
            for (q, cc), o_ in zip(quads, mult):
                t = Rat.atom(ATOMS[o_])
                want.append(csets.psd_cond(emap(lambda x: alg.rot_reduce(R(x)), np_obj(sub(mul(hom(q, cc), t), F)))))
                want.append(cmp("<=", -t, Z))
            got, want = band(*got), band(*want)
            what = f"{len(quads)} ellipsoids{' with a sphere' if sphere else ''}: the program requires exactly that each is in the returned ellipsoid"
            j = C.same_bool(got, want, what, construct)
            if j[0] == "undecided":
                w_ = biased(S, got, want, mult)
                if w_:
                    j = ("diff", f"{what}: the condition differs: {w_}", construct)
            out.append(j)
            out += [objective(C, S, h, "min", construct), roundness(S, construct)]
            return out
        items.append((construct, "bounding-ellipsoids", f))

    for sphere in (False, True):
        ellipsoids(2, ("generic", "generic"), sphere, "function")
        ellipsoids(2, ("aligned", "generic", "centred"), sphere, "function")
        ellipsoids(3, ("aligned", "aligned"), sphere, "function")
        ellipsoids(3, ("default", "aligned", "aligned"), sphere, "function")
        ellipsoids(3, ("aligned",), sphere, "capsule")
        for k in C.sizes(5, cap=12)[1:]:
            ellipsoids(2, ("aligned",) * k, sphere, "function")

    # ------------------------------------------------- one ellipsoid in another
    def inclusion(n, k1, k2, status):
        construct = "Ellipsoid.contains_ellipsoid"
        def f():
            a, b = ellipsoid(C, k1, n=n, tag="a"), ellipsoid(C, k2, n=n, tag="b")
            prog = []

            def solve(p, rec):
                prog.append(p)
                return status

            C.I.scenario.update({"solve": solve})
            r = C.meth(a.obj, "contains_ellipsoid", b.obj)
            if len(prog) != 1:
                return [("diff", f"{len(prog)} programs are solved", construct)]
            p = prog[0]
            out = [("proved" if r is (status == "optimal") else "diff", f"answer {r!r} when the program is {status}", construct)]
            out.append(("proved" if not feas.dec_atoms(R(p.objective.e)) else "undecided", "feasibility program", construct))
            ds = sorted({x for con in p.constraints for v in con.expr.reshape(-1) for x in feas.dec_atoms(R(v))})
            if len(ds) != 1:
                return out + [("undecided", "more than one multiplier", construct)]
            t = Rat.atom(ATOMS[ds[0]])
            F1 = hom(spectral(a.pose.R, [ONE_ / (x * x) for x in a.h]), a.pose.c)
            F2 = hom(spectral(b.pose.R, [ONE_ / (x * x) for x in b.h]), b.pose.c)
            want = band(csets.psd_cond(emap(alg.rot_reduce, np_obj(sub(mul(F2, t), F1)))), cmp("<=", -t, Z))
            got = band(*[csets.con_cond(con) if con.op != "psd" else csets.psd_cond(csets.sym(emap(lambda x: alg.rot_reduce(R(x)), con.expr))) for con in p.constraints])
            out.append(C.same_bool(got, want, f"the program is feasible exactly if the other ellipsoid is inside ({k1}, {k2})", construct))
            return out
        items.append((construct, "ellipsoid-in-ellipsoid", f))

    for n, k1, k2 in ((2, "generic", "generic"), (2, "centred", "aligned"), (3, "aligned", "aligned"), (3, "default", "aligned"), (3, "aligned", "generic"), (3, "generic", "aligned")):
        for st in ("optimal", "infeasible"):
            inclusion(n, k1, k2, st)

    # ------------------------------------------------- reconstruction
    def rebuild(n, form):
        construct = "Ellipsoid.from_affine" if form == "affine" else "Ellipsoid.from_shape_matrix"
        def f():
            S = Case(C, n, n)
            V = np_obj(C.rot("V", n)) if n > 1 else np_obj([[ONE_]])
            w = C.posvec("w", n, ONE)
            S.known.append(V)
            sc = S.scenario()
            C.I.scenario.update({k: sc[k] for k in ("eig", "inv", "decide")})
            x, c0 = np_obj(C.vec("x", n)), np_obj(C.vec("k", n))
            if form == "affine":
                A = spectral(V, w)
                b = red(mul(mm(A, c0), -1))
                e = C.call("Ellipsoid.from_affine", C.A(A), C.A(b))
                v = add(mm(A, x), b)
                want = cmp("<=", alg.rot_reduce(sum((R(t) * R(t) for t in v), Z)) - ONE_, Z)
            else:
                Sm = spectral(V, w)
                e = C.call("Ellipsoid.from_shape_matrix", C.A(Sm), center=C.A(c0))
                d = sub(x, c0)
                want = cmp("<=", alg.rot_reduce(sum((R(d[i]) * R(Sm[i, j]) * R(d[j]) for i in range(n) for j in range(n)), Z)) - ONE_, Z)
            h, Rt, c = result(C, e)
            return [C.same_bool(inside(h, Rt, c, x), want, f"{n}-dimensional ellipsoid from its {form}", construct), C.same(red(mm(T(Rt), Rt)), eye(n), "columns of the rotation are orthonormal", construct)]
        items.append((construct, "reconstruction", f))

    def forms(n, kind, form):
        construct = f"Ellipsoid.{form}"
        def f():
            s = ellipsoid(C, kind, n=n)
            x = np_obj(C.vec("x", n))
            want = inside(s.h, s.pose.R, s.pose.c, x)
            d = sub(x, s.pose.c)
            if form == "S":
                m = np_obj(C.attr(s.obj, "S"))
                g = sum((R(d[i]) * R(m[i, j]) * R(d[j]) for i in range(n) for j in range(n)), Z)
            elif form == "E":
                m = np_obj(C.attr(s.obj, "E"))
                return [C.same(red(mm(m, spectral(s.pose.R, [ONE_ / (t * t) for t in s.h]))), eye(n), "E is the inverse of the shape matrix", construct)]
            elif form == "Q":
                m = np_obj(C.attr(s.obj, "Q"))
                y = list(x) + [ONE_]
                g = ONE_ - sum((R(y[i]) * R(m[i, j]) * R(y[j]) for i in range(n + 1) for j in range(n + 1)), Z)
            else:
                A, b = np_obj(C.attr(s.obj, "A")), np_obj(C.attr(s.obj, "b"))
                v = add(mm(A, x), b)
                g = sum((R(t) * R(t) for t in v), Z)
            return [C.same_bool(cmp("<=", alg.rot_reduce(R(g)) - ONE_, Z), want, f"{form} of a {kind} ellipsoid in {n} dimensions describes it", construct)]
        items.append((construct, "forms", f))

    for n in (1, 2, 3):
        for form in ("affine", "shape matrix"):
            rebuild(n, form)
        for form in ("S", "E", "Q", "A"):
            for kind in ("generic", "aligned", "default") if n > 1 else ("aligned", "default"):
                forms(n, kind, form)

    def one(it):
        construct, rule, f = it
        # spectra of the rebuilt shape matrix and of the optimum are away from zero
        C.run(rule, construct, f, limit=4 if C.thorough else 2, special=rule != "reconstruction")

    C.parallel(items, one)
