"""The constraint lists returned by must_contain are read back as a condition on
the decision point (matrix inequalities by Schur elimination) and compared with
the shape's defining inequalities at zero tolerance and given scale; the closest
point program is compared with 'one point in each shape, least distance between
exactly these points'; schur() is compared with the block matrix it names."""
import itertools
import random

import numpy as np

from .. import alg
from ..core import *
from ..build import *
from ..csets import *
from ..cond import batoms, beval, bsubst
from ..interp import Undecided

LEVEL = "other"


def target(s, x, scale):
    """x/scale lies in the shape (zero tolerance)."""
    if s.kind == "ConvexPolyhedron":
        return band(*[le(mm(s.A[i], x), R(s.b[i]) * scale) for i in range(s.A.shape[0])])
    p = np_obj([R(v) / scale for v in x])
    return exact(inside(s, p, Z))


def exact(b):
    return b


def one_point(C, mk, construct, rule, n=3, label="", scaled=True, **sc):
    def thunk():
        s = mk()
        x = variable(C, n)
        cs = C.meth(s.obj, "must_contain", x)
        yield C.same_bool(set_of(C, cs, [x]), target(s, x.a, Rat.const(1)), f"{label} must_contain(p)")

    def aff():
        # an affine expression of a decision variable (a moving attachment point)
        s = mk()
        x = variable(C, n)
        K, o = np_obj(C.mat("K", n, n, ONE)), np_obj(C.vec("o", n))
        y = add(mm(K, x.a), o)
        cs = C.meth(s.obj, "must_contain", expr(C, y))
        yield C.same_bool(set_of(C, cs, [x]), target(s, y, Rat.const(1)), f"{label} must_contain(K p + o)")

    def several():
        s = mk()
        X = variable(C, (2, n))
        cs = C.meth(s.obj, "must_contain", X)
        yield C.same_bool(set_of(C, cs, [X]), band(target(s, X.a[0], Rat.const(1)), target(s, X.a[1], Rat.const(1))), f"{label} must_contain(two points)")

    def scale():
        s = mk()
        x = variable(C, n)
        k = C.pos("s", ONE)
        cs = C.meth(s.obj, "must_contain", x, scale=k)
        yield C.same_bool(set_of(C, cs, [x]), target(s, x.a, k), f"{label} must_contain(p, scale=s)")

    C.run(rule + "-single", construct, thunk, **sc)
    C.run(rule + "-several", construct, several, **sc)
    C.run(rule + "-scale", construct, scale, **sc)
    if "generic" in label and "flat" not in label and n == 3 or "polyhedron" in label:
        def sized(k):
            def f():
                s = mk()
                X = variable(C, (k, n))
                cs = C.meth(s.obj, "must_contain", X)
                yield C.same_bool(set_of(C, cs, [X]), band(*[target(s, x, Rat.const(1)) for x in X.a]), f"{label} must_contain({k} points)")

            C.run(rule + "-several", construct, f, **sc)

        for k in C.sizes(1, 3):
            sized(k)
    if C.thorough:
        C.run(rule + "-affine", construct, aff, **sc)


def set_of(C, cs, given):
    cs = flat(cs)
    extra = vars_of(C, cs, skip=[g.var["var"] for g in given])
    if extra:
        raise Undecided("auxiliary variables")
    return cons_cond(cs)


# ---------------------------------------------------------------- capsule: an existential set
def capsule_case(C, pose, scaled, several):
    def thunk():
        s = capsule(C, pose)
        X = variable(C, (2, 3) if several else 3)
        k = C.pos("s", ONE) if scaled else Rat.const(1)
        kw = {"scale": k} if scaled else {}
        cs = flat(C.meth(s.obj, "must_contain", X, **kw))
        aux = vars_of(C, cs, skip=[X.var["var"]])
        got = cons_cond(cs, aux)
        pts = [X.a[0], X.a[1]] if several else [X.a]
        lab = f"capsule {pose}{' scaled' if scaled else ''}{' several' if several else ''}"
        # the expected set: x = a + b, a in t*cap, b in (s-t)*cap', 0 <= t <= s
        vec = [v for v in aux if v.a.size == 3]
        sca = [v for v in aux if v.a.size == 1]
        if len(vec) == 2 * len(pts) and len(sca) == len(pts) and len(aux) == 3 * len(pts):
            # match the auxiliary variables of each point in order of creation
            parts = []
            for i, x in enumerate(pts):
                a, b, t = vec[2 * i].a.reshape(-1), vec[2 * i + 1].a.reshape(-1), sca[i].a.reshape(-1)[0]
                parts.append((x, a, b, t))
            for sw in (False, True):
                want = band(*[hull_cond(s, x, *((b, a) if sw else (a, b)), t, k) for x, a, b, t in parts])
                if bool_canon(got) is not None and bool_canon(got) == bool_canon(want):
                    yield ("proved", f"{lab}: convex hull of the two caps")
                    return
        yield from caps_refute(C, s, pts, aux, got, k, lab)

    C.run("set" + ("-scale" if scaled else "") + ("-several" if several else "-single"), "Capsule.must_contain", thunk)


def cap_centres(s):
    ax = np_obj([s.pose.R[i, 2] for i in range(3)])
    h = s.length / 2
    return [np_obj([s.pose.c[i] + sg * h * ax[i] for i in range(3)]) for sg in (1, -1)]


def hull_cond(s, x, a, b, t, k):
    c0, c1 = cap_centres(s)

    def cap(p, c, m):
        return sub(p, mul(c, m))

    out = [le(-R(t), Z), le(R(t), k)]
    out += [cmp("==", R(x[i]), R(a[i]) + R(b[i])) for i in range(3)]
    for p, c, m in ((a, c0, R(t)), (b, c1, k - R(t))):
        q = cap(p, c, m)
        mat = np.empty((4, 4), dtype=object)
        mat[...] = Z
        for i in range(3):
            mat[i, i] = m * s.radius**2
            mat[i, 3] = mat[3, i] = R(q[i])
        mat[3, 3] = m
        out.append(psd_cond(mat))
    return band(*out)


def caps_refute(C, s, pts, aux, got, k, lab):
    """Not the expected form: look for a point accepted outside the capsule (for
    some auxiliary values), or a point of the capsule rejected for the auxiliary
    values that describe it."""
    if isinstance(got, bool):
        yield ("diff", f"{lab}: the constraints are constantly {got}")
        return
    rnd = random.Random(23)
    atoms = batoms(got)
    for x in pts:
        for v in x:
            atoms |= alg.all_atoms(R(v))
    for v in (s.radius, s.length, k, *s.pose.R.reshape(-1), *s.pose.c):
        atoms |= alg.all_atoms(R(v))
    c0, c1 = cap_centres(s)
    vec = [v for v in aux if v.a.size == 3]
    sca = [v for v in aux if v.a.size == 1]
    known = len(vec) == 2 * len(pts) and len(sca) == len(pts) and len(aux) == 3 * len(pts)
    if not known:
        yield ("undecided", f"{lab}: formulation with other auxiliary variables")
        return
    ids = lambda a: [alg.as_atom(R(v)).id for v in np_obj(a).reshape(-1)]
    f = lambda r, e: alg.evalf(R(r), dict(e))
    rej, fits = {}, {}
    for _ in range(150):
        env = alg.sample_env(atoms, rnd)
        env = {a: v for a, v in env.items()}
        far = rnd.random() < 0.5
        kk, rad = f(k, env), f(s.radius, env)
        e0, e1 = [np.array([f(v, env) for v in c]) for c in (c0, c1)]
        trial = {}
        outside, clean = False, True
        for i, x in enumerate(pts):
            t = kk * rnd.choice([0.0, 1.0, rnd.random(), rnd.random()])
            u = [np.array([rnd.gauss(0, 1) for _ in range(3)]) for _ in range(2)]
            g = rnd.choice([1.02, 1.3, 2.5]) if far and i == rnd.randrange(len(pts)) else 0.999 * rnd.random() ** 0.3
            u = [g * rad * w / np.linalg.norm(w) for w in u]
            clean = clean and g < 1
            sh = np.zeros(3)
            if far and rnd.random() < 0.3:
                sh = np.array([rnd.gauss(0, 1) for _ in range(3)])
                clean = False
            p1 = t * (e0 + u[0])
            p2 = (kk - t) * (e1 + u[1])
            a0 = t * e0 + (kk - t) * e1
            xx = p1 + p2 + sh
            trial[i] = (x, xx, [(p1, p2, t), (p1, p2, kk - t), (p2, p1, t), (p2, p1, kk - t), (a0, xx - a0, t), (a0, xx - a0, kk - t), (xx - a0, a0, t), (xx - a0, a0, kk - t)])
            # distance of the scaled point from the segment between the caps
            w, d = xx / kk - e1, e0 - e1
            lam = min(max(float(w @ d / (d @ d)), 0), 1)
            if np.linalg.norm(w - lam * d) > rad * (1 + 1e-6) + 1e-9:
                outside = True
        for fam in range(8):
            e = dict(env)
            for i, (x, xx, fams) in trial.items():
                va, vb, vt = fams[fam]
                for ats, vals in ((x, xx), (vec[2 * i].a, va), (vec[2 * i + 1].a, vb), (sca[i].a, [vt])):
                    for q, v in zip(ids(ats), vals):
                        e[q] = float(v)
            ok = holds(got, e)
            if outside and ok:
                yield ("diff", f"{lab}: the constraints accept a point outside the capsule, at {show(e)}")
                return
            if clean:
                if ok:
                    fits[fam] = True
                else:
                    rej[fam] = rej.get(fam) or show(e)
    if fits and all(f in rej for f in fits):
        yield ("diff", f"{lab}: the constraints reject a point of the capsule, at {rej[min(fits)]}")
        return
    yield ("undecided", f"{lab}: not in the expected form, no difference found")


def holds(b, env, eps=1e-7):
    """Truth with a rounding margin on equalities."""
    if isinstance(b, bool):
        return b
    if b.op == "and":
        return all(holds(x, env, eps) for x in b.args)
    if b.op == "or":
        return any(holds(x, env, eps) for x in b.args)
    if b.op == "cmp":
        v = alg.evalf(b.args[1], dict(env))
        return abs(v) < eps if b.args[0] == "==" else v <= eps
    if b.op == "psd":
        return cond.min_eig(b, dict(env)) >= -eps
    return beval(b, dict(env))


# ---------------------------------------------------------------- closest points
def closest(C, mk1, mk2, lab):
    def thunk():
        s1, s2 = mk1(), mk2()
        r = C.call("closest.closest_points", s1.obj, s2.obj)
        solves = [x[1] for x in C.I.records if x[0] == "solve"]
        if len(solves) != 1:
            yield ("undecided", f"{lab}: {len(solves)} problems solved")
            return
        prob = solves[0]["problem"]
        obj, cs = prob.objective, prob.constraints
        P = []
        for name in ("p1", "p2"):
            v = np_obj(C.attr(r, name))
            if v.shape != (3,):
                yield ("diff", f"{lab}: {name} has shape {v.shape}")
                return
            P.append([devalue(x) for x in v])
        d = sub(P[1], P[0])
        D2 = sum((R(x) * R(x) for x in d), Rat.const(0))
        e = plain(R(obj.e))
        if obj.sense != "minimize":
            e = -e
        yield C_monotone(C, e, D2, f"{lab}: objective", "closest.closest_points")
        dist = C.attr(r, "dist")
        dist = devalue(np_obj(dist).reshape(-1)[0])
        yield C.same(plain(dist), alg.sqrt(D2), f"{lab}: reported distance")
        given = set()
        for p in P:
            for x in p:
                given |= alg.all_atoms(R(x))
        used = vars_of(C, cs)
        if any(not (set().union(*[R(x).atoms() for x in v.a.reshape(-1)]) & given) for v in used):
            yield ("undecided", f"{lab}: auxiliary variables")
            return
        yield C.same_bool(cons_cond(cs, used), band(target(s1, np_obj(P[0]), Rat.const(1)), target(s2, np_obj(P[1]), Rat.const(1))), f"{lab}: p1 in the first shape and p2 in the second")

    C.run("closest-points", "closest.closest_points", thunk)


def devalue(x):
    """Optimal values back to the decision atoms they are values of."""
    x = R(x)
    mp = {}
    for a in alg.all_atoms(x):
        A = alg.ATOMS[a]
        if A.kind == "val":
            mp[a] = Rat.atom(alg.ATOMS[A.info["of"]])
    return alg.subst(x, mp)


def C_monotone(C, e, D2, what, construct):
    """e is an increasing function of the distance."""
    for w in (D2, alg.sqrt(D2)):
        k = None
        q = e / w if not w.is_zero() else None
        if q is not None and not isinstance(q, float) and q.is_const() and q.value() > 0:
            return ("proved", f"{what} is the distance")
    atoms = alg.all_atoms(e) | alg.all_atoms(D2)
    rnd = random.Random(3)
    try:
        pts = []
        for _ in range(120):
            env = alg.sample_env(atoms, rnd)
            pts.append((alg.evalf(D2, dict(env)), alg.evalf(e, dict(env)), env))
    except (KeyError, ValueError, OverflowError, ZeroDivisionError):
        return ("undecided", f"{what}: cannot be compared")
    pts.sort(key=lambda t: t[0])
    for a, b in itertools.combinations(pts, 2):
        if b[0] > a[0] + 1e-6 and b[1] < a[1] - 1e-9 or b[0] > a[0] + 1e-3 and b[1] <= a[1]:
            return ("diff", f"{what}: is {short(e)}, which does not grow with the distance between the two reported points", construct)
    return ("undecided", f"{what}: not recognised as a function of the distance")


def check(C):
    for pose in POSES:
        one_point(C, lambda: box(C, pose), "ConvexPolyhedron.must_contain", "set", label=f"box {pose}")
        for n in (1, 2, 3, 4) if C.thorough else (1, 2, 3):
            one_point(C, lambda: ellipsoid(C, pose, n=n), "Ellipsoid.must_contain", "set", n=n, label=f"ellipsoid dim {n} {pose}")
        one_point(C, lambda: cylinder(C, pose), "Cylinder.must_contain", "set", label=f"cylinder {pose}")
        for scaled, several in ((False, False), (True, False), (False, True), (True, True)):
            capsule_case(C, pose, scaled, several)
    for pose in ("generic", "default"):
        for k in (1, 2, 3):
            for fl in itertools.combinations(range(3), k):
                one_point(C, lambda: ellipsoid(C, pose, flat=fl), "Ellipsoid.must_contain", "flat-set", label=f"ellipsoid flat {fl} {pose}")
        for ln, r in ((Z, None), (None, Z), (Z, Z)):
            one_point(C, lambda: cylinder(C, pose, ln, r), "Cylinder.must_contain", "flat-set", label=f"cylinder{' flat' if ln is not None else ''}{' thin' if r is not None else ''} {pose}")
    for nf, n in ((4, 3), (3, 2), (2, 1), *((k, 3) for k in C.sizes(6))):
        one_point(C, lambda: poly(C, nf, 4, n), "ConvexPolyhedron.must_contain", "set", n=n, label=f"polyhedron {nf} faces dim {n}")

    mk = {
        "box": lambda t: box(C, tag=t), "ellipsoid": lambda t: ellipsoid(C, tag=t), "cylinder": lambda t: cylinder(C, tag=t), "polyhedron": lambda t: poly(C, 4, 4, tag=t),
    }
    for a, b in itertools.product(mk, mk):
        closest(C, lambda: mk[a]("1"), lambda: mk[b]("2"), f"{a} and {b}")

    # block matrix
    def blocks():
        def chk(a, b, c, lab):
            def mat(v, col):
                v = np_obj(v)
                return v.reshape(1, 1) if v.ndim == 0 else (v.reshape(-1, 1) if v.ndim == 1 else v)

            A_, B_, C_ = mat(a, 0), mat(b, 1), mat(c, 0)
            n, m = A_.shape[0], C_.shape[0]
            want = np.empty((n + m, n + m), dtype=object)
            want[:n, :n], want[:n, n:], want[n:, :n], want[n:, n:] = A_, B_, B_.T, C_
            conv = lambda v: v if isinstance(v, (Rat, Arr)) else C.A(v)
            return lambda x, y, z: C.same(C.call("constraint.schur", x, y, z), want, lab)

        Am, bv, c = C.mat("SA", 3, 3, ONE), C.vec("Sb", 3, ONE), C.sym("Sc", unit=ONE)
        x, y = variable(C, 3), variable(C, ())
        z = variable(C, 1)
        Bm, Cm = C.mat("SB", 3, 2, ONE), C.mat("SC", 2, 2, ONE)
        yield chk(Am, bv, c, "matrix, vector, number")(C.A(Am), C.A(bv), c)
        yield chk(Am, x.a, y.a, "matrix, variable, scalar variable")(C.A(Am), x, y)
        yield chk(Am, x.a, z.a[0], "matrix, variable, one-element variable")(C.A(Am), x, z)
        yield chk(Am, Bm, Cm, "blocks of equal rank")(C.A(Am), C.A(Bm), C.A(Cm))
        yield chk(c, y.a, z.a[0], "numbers")(c, y, z)
        S = variable(C, (3, 3))
        yield chk(S.a, x.a, 1, "matrix variable, vector variable, 1")(S, x, 1)

    C.run("block-matrix", "constraint.schur", blocks)
