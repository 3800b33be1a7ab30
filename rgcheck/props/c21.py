"""Comparison of shapes is evaluated on abstract pairs: a shape and itself, equal copies,
pairs that differ in one extent, position or orientation, pairs of different kinds and
dimensions, flat shapes, and boxes against general polyhedra, always in both orders.  The
truth value, with comparisons up to the tolerance read as equalities, must be settled.
For flat ellipsoids every test of an extent that any operation branches on is reduced to
the extent at which it switches, and all must switch at the same one; results and
constraints of the operations that support flat shapes must be free of infinities and
not-a-numbers."""
import itertools
import math
import random

from .. import alg, cond
from ..alg import ATOMS, Rat, R
from ..cond import B, band, beval, batoms, bleaves, cmp
from ..core import *
from ..catalog import params, pim
from ..csets import variable
from ..interp import Arr, PyObj
from ..build import *

LEVEL = "other"
RULE = "is_same is settled as required on abstract pairs in both orders; one flatness threshold per extent; no infinity or not-a-number for flat shapes"
ASSUMPTIONS = ["comparisons up to a tolerance are read as equalities", "pairs that differ do so by more than any tolerance"]


def exact(b):
    """Tolerances read as equalities."""
    if not isinstance(b, B):
        return b
    if b.op == "close":
        x, y = b.args[:2]
        if isinstance(x, float) or isinstance(y, float):
            return b
        d = alg.rot_reduce(R(x) - R(y))
        return True if d.is_zero() else cmp("==", d, Z)
    if b.op == "and":
        return band(*map(exact, b.args))
    if b.op == "or":
        return bor(*map(exact, b.args))
    if b.op == "not":
        r = exact(b.args[0])
        return (not r) if isinstance(r, bool) else cond.bnot(r)
    if b.op == "cmp" and not isinstance(b.args[1], float):
        return cmp(b.args[0], alg.rot_reduce(R(b.args[1])), Z)
    return b


def truth(x):
    if isinstance(x, Arr) and x.a.size == 1:
        x = x.a.reshape(-1)[0]
    if isinstance(x, Rat) and x.is_const():
        x = bool(x.value())
    return x


def never(C, b):
    """A condition no value of the atoms satisfies."""
    if not isinstance(b, B):
        return b is False
    if b.op == "or":
        return all(never(C, x) for x in b.args)
    parts = b.args if b.op == "and" else (b,)
    sq = Z
    for x in parts:
        if not isinstance(x, B):
            if x is False:
                return True
            continue
        if x.op == "or" and never(C, x):
            return True
        if x.op == "cmp":
            d = R(x.args[1])
            if x.args[0] == "==":
                if alg.is_pos(d) or alg.is_pos(-d):
                    return True
                sq = sq + d * d
            elif alg.is_pos(d) or x.args[0] == "<" and alg.prove_nonneg(d):
                return True
    return alg.is_pos(alg.rot_reduce(sq))


def judge(C, r, want, what, construct):
    r = exact(truth(r))
    if isinstance(r, bool):
        return ("proved" if r is want else "diff", f"{what}: {r}", construct)
    if not isinstance(r, B):
        return ("diff" if r is None else "undecided", f"{what}: {r!r} is not a truth value", construct)
    if want:
        return C.is_true(r, what, construct)
    if never(C, r):
        return ("proved", what)
    w = refute_bool(cond.bnot(r), C.assume())
    if w is not None:
        return ("diff", f"{what}: True when {short(r)}{wit(w)}", construct)
    return ("undecided", f"{what}: {short(r)} not shown to be false", construct)


def check(C):
    items = []

    def case(construct, rule, f, **k):
        items.append((construct, rule, f, k))

    mk = {"Box": box, "Ellipsoid": ellipsoid, "Cylinder": cylinder, "Capsule": capsule}
    tol0 = {"tol": 0}

    def both(a, b, want, what, construct):
        return [judge(C, C.meth(a, "is_same", b, **tol0), want, what, construct), judge(C, C.meth(b, "is_same", a, **tol0), want, f"{what} (other order)", construct)]

    def tetra(pose="generic", tag="", n=3, k=None, scale=1):
        """Simplex with consistent face and vertex descriptions."""
        P = Pose(C, pose, n, tag)
        p = [scale * x for x in (C.posvec("p" + tag, n) if k is None else k)]
        V = [zeros(n)] + [np_obj([p[i] if j == i else Z for j in range(n)]) for i in range(n)]
        A = [[R(-1 if j == i else 0) for j in range(n)] for i in range(n)] + [[1 / R(x) for x in p]]
        b = [Z] * n + [Rat.const(1)]
        A = red(mm(np_obj(A), T(P.R)))
        b = [x + sum((R(A[i, j]) * R(P.c[j]) for j in range(n)), Z) for i, x in enumerate(b)]
        V = red(np_obj([list(add(mm(P.R, v), P.c)) for v in V]))
        return poly(C, n + 1, n + 1, n, tag, V=V, Ab=(A, b))

    def red(a):
        return emap(alg.rot_reduce, np_obj(a))

    def as_poly(o):
        A, b, V = (C.attr(o, k) for k in ("A", "b", "vertices"))
        return C.call("ConvexPolyhedron", face_form=C.call("FaceForm", A, b), span_form=C.call("SpanForm", vertices=V))

    # ------------------------------------------------------------- reflexive
    def pars(kind, flat=()):
        """Extents of a kind; `flat` are the zero ones."""
        n = {"Box": 3, "Ellipsoid": 3, "Cylinder": 2, "Capsule": 2}[kind]
        h = [Z if i in flat else x for i, x in enumerate(C.posvec("h", n))]
        return {"h": h} if n == 3 else {"length": h[0], "radius": h[1]}

    for kind, n in (("Box", 3), ("Ellipsoid", 3), ("Cylinder", 2), ("Capsule", 2)):
        for r in range(n + 1):
            for flat in itertools.combinations(range(n), r):
                for pose in ("generic", "default") if not flat or C.thorough else ("generic",):
                    def f(kind=kind, flat=flat, pose=pose):
                        a, b = (mk[kind](C, pose, **pars(kind, flat)).obj for _ in range(2))
                        lab = f"a {'flat ' if flat else ''}{kind}"
                        return [judge(C, C.meth(a, "is_same", a), True, f"{lab} and itself", f"{kind}.is_same")] + both(a, b, True, f"{lab} and an equal copy", f"{kind}.is_same")
                    case(f"{kind}.is_same", "reflexive", f)

    for n, pose in ((3, "generic"), (3, "default"), (2, "generic"), (3, "aligned")):
        def f(n=n, pose=pose):
            a, b = tetra(pose, n=n).obj, tetra(pose, n=n).obj
            return [judge(C, C.meth(a, "is_same", a), True, "a polyhedron and itself", "ConvexPolyhedron.is_same")] + both(a, b, True, "a polyhedron and an equal copy", "ConvexPolyhedron.is_same")
        case("ConvexPolyhedron.is_same", "reflexive", f)
    for n, pose in ((1, "aligned"), (1, "default"), (2, "generic"), (2, "aligned")):
        def f(n=n, pose=pose):
            a, b = (ellipsoid(C, pose, n=n).obj for _ in range(2))
            return both(a, b, True, f"equal {n}-dimensional ellipsoids", "Ellipsoid.is_same")
        case("Ellipsoid.is_same", "reflexive", f)
    for flat in ((), (0,), (1, 2)):
        for pose in ("generic", "aligned"):
            def f(flat=flat, pose=pose):
                a = box(C, pose, **pars("Box", flat)).obj
                return both(a, as_poly(a), True, "a box and the polyhedron of its faces and vertices", "ConvexPolyhedron.is_same")
            case("ConvexPolyhedron.is_same", "reflexive", f)

    def f():
        p = [params(C) for _ in range(2)]
        return [judge(C, C.meth(p[0], "is_same", p[0]), True, "parameters and themselves", "InertialParameters.is_same"), judge(C, C.meth(p[0], "is_same", p[1]), True, "equal parameters", "InertialParameters.is_same"), judge(C, C.meth(p[1], "is_same", p[0]), True, "equal parameters", "InertialParameters.is_same")]
    case("InertialParameters.is_same", "reflexive", f)

    # ------------------------------------------------------------- symmetric
    def generic(kind, tag, n=3):
        return tetra("generic", tag, n) if kind == "ConvexPolyhedron" else mk[kind](C, "generic", tag=tag, **({"n": n} if kind == "Ellipsoid" else {}))

    def symmetric(k1, k2, n=3, close=None):
        def f():
            a, b = generic(k1, "a", n).obj, generic(k2, "b", n).obj
            if close is not None:
                C.I.scenario["decide"] = lambda t, *_: close if isinstance(t, B) and t.op == "close" else None
            x, y = (exact(truth(C.meth(p, "is_same", q, **tol0))) for p, q in ((a, b), (b, a)))
            return [C.same_bool(x, y, f"{k1} and {k2} compared in both orders", f"{k1}.is_same")]
        case(f"{k1}.is_same", "symmetric", f)

    for kind in mk:
        for cl in (True, False):
            symmetric(kind, kind, close=cl)
    symmetric("Ellipsoid", "Ellipsoid", 2)
    for k1, k2 in (("ConvexPolyhedron", "ConvexPolyhedron"), ("Box", "ConvexPolyhedron")):
        symmetric(k1, k2)

    # ------------------------------------------------------------- distinguishes
    Q = np_obj([[R(3) / 5, R(-4) / 5, Z], [R(4) / 5, R(3) / 5, Z], [Z, Z, Rat.const(1)]])
    perm = [np_obj(eye(3)[:, list(o)]) for o in ((0, 1, 2), (1, 2, 0), (2, 0, 1))]

    def make(kind, h, Rt, c, poly_=False):
        kw = {"rotation": C.A(Rt), "center": C.A(c)}
        o = C.call(kind if kind != "Capsule" else "Cylinder", *([C.A(h)] if len(h) == 3 else h), **kw)
        if kind == "Capsule":
            o = C.call("Capsule", o)
        return as_poly(o) if poly_ else o

    for kind, n in (("Box", 3), ("Ellipsoid", 3), ("Cylinder", 2), ("Capsule", 2)):
        for flat in (None,) + (tuple(range(n)) if kind != "Capsule" else (0,)):
            lab = kind if flat is None else f"flat {kind}"
            base = lambda n=n, flat=flat: [Z if i == flat else x for i, x in enumerate(C.posvec("h", n))]
            for i in range(n):
                for how in ("grown", "shrunk"):
                    def f(kind=kind, i=i, how=how, base=base, lab=lab):
                        h = base()
                        g = list(h)
                        g[i] = (R(h[i]) * 2 if how == "grown" else R(h[i]) / 2) if not R(h[i]).is_zero() else C.pos("thick")
                        Rt, c = np_obj(C.rot("R")), np_obj(C.vec("c"))
                        return both(make(kind, h, Rt, c), make(kind, g, Rt, c), False, f"{lab}: extent {i} differs", f"{kind}.is_same")
                    case(f"{kind}.is_same", "distinguishes extents", f)
            for i in range(3):
                def f(kind=kind, i=i, base=base, lab=lab):
                    h, Rt, c = base(), np_obj(C.rot("R")), np_obj(C.vec("c"))
                    d = red(add(c, mm(Rt, np_obj([C.pos("off") if j == i else Z for j in range(3)]))))
                    return both(make(kind, h, Rt, c), make(kind, h, Rt, d), False, f"{lab}: position differs along its axis {i}", f"{kind}.is_same")
                case(f"{kind}.is_same", "distinguishes position", f)
            for i in range(3):
                if kind in ("Cylinder", "Capsule") and i == 0:
                    continue  # a turn about the axis leaves the set as it is
                def f(kind=kind, i=i, base=base, lab=lab, n=n):
                    h, Rt, c = base(), np_obj(C.rot("R")), np_obj(C.vec("c"))
                    if n == 3:
                        # axes in the plane of the turn have clearly different extents
                        u, v = [list(perm[i][:, k]).index(next(x for x in perm[i][:, k] if not R(x).is_zero())) for k in (0, 1)]
                        h[u] = R(h[v]) * 2 if not R(h[v]).is_zero() else C.pos("hh")
                    S = red(mm(Rt, mm(perm[i], mm(Q, T(perm[i])))))
                    return both(make(kind, h, Rt, c), make(kind, h, S, c), False, f"{lab}: orientation differs in plane {i}", f"{kind}.is_same")
                case(f"{kind}.is_same", "distinguishes orientation", f)
    for i in range(3):
        def f(i=i):
            h = C.posvec("h")
            g = list(h)
            g[i] = R(h[i]) * 2
            Rt, c = np_obj(C.rot("R")), np_obj(C.vec("c"))
            return both(make("Box", h, Rt, c), make("Box", g, Rt, c, True), False, f"a box and a polyhedron with extent {i} doubled", "ConvexPolyhedron.is_same")
        case("ConvexPolyhedron.is_same", "distinguishes extents", f)

        def f(i=i):
            p = C.posvec("p")
            q = list(p)
            q[i] = R(p[i]) * 2
            return both(tetra(k=p).obj, tetra(k=q).obj, False, f"polyhedra with vertex {i} moved", "ConvexPolyhedron.is_same")
        case("ConvexPolyhedron.is_same", "distinguishes extents", f)
    for what in ("mass", "h", "H"):
        def f(what=what):
            m, h, H = C.pos("m", M), np_obj(C.vec("hh")), np_obj([[C.sym(f"H{min(i, j)}{max(i, j)}") for j in range(3)] for i in range(3)])
            a = C.call("InertialParameters", m, h=C.A(h), H=C.A(H))
            d = C.pos("dd")
            if what == "mass":
                m = m + d
            elif what == "h":
                h = add(h, np_obj([Z, d, Z]))
            else:
                H = add(H, diag([Z, Z, d]))
            b = C.call("InertialParameters", m, h=C.A(h), H=C.A(H))
            r = [C.meth(a, "is_same", b), C.meth(b, "is_same", a)]
            return [judge(C, x, False, f"parameters that differ in {what}", "InertialParameters.is_same") for x in r]
        case("InertialParameters.is_same", "distinguishes parameters", f)

    # ------------------------------------------------------------- kinds and dimensions
    kinds = dict(mk)
    kinds["ConvexPolyhedron"] = lambda C, tag="": tetra("generic", tag)
    for k1, k2 in itertools.permutations(kinds, 2):
        if {k1, k2} == {"Box", "ConvexPolyhedron"}:
            continue
        def f(k1=k1, k2=k2):
            a, b = kinds[k1](C, tag="a").obj, kinds[k2](C, tag="b").obj
            return [judge(C, C.meth(a, "is_same", b), False, f"{k1} compared with {k2}", f"{k1}.is_same")]
        case(f"{k1}.is_same", "kinds", f)
    for n1, n2 in ((2, 3), (3, 2), (1, 3), (1, 2)):
        def f(n1=n1, n2=n2):
            a, b = ellipsoid(C, "aligned", n=n1, tag="a").obj, ellipsoid(C, "aligned", n=n2, tag="b").obj
            return [judge(C, C.meth(a, "is_same", b), False, f"ellipsoids of {n1} and {n2} dimensions", "Ellipsoid.is_same")]
        case("Ellipsoid.is_same", "kinds", f)
    for n1, n2 in ((2, 3), (3, 2)):
        def f(n1=n1, n2=n2):
            a, b = tetra("generic", "a", n1).obj, tetra("generic", "b", n2).obj
            return [judge(C, C.meth(a, "is_same", b), False, f"polyhedra of {n1} and {n2} dimensions", "ConvexPolyhedron.is_same")]
        case("ConvexPolyhedron.is_same", "kinds", f)

    # ------------------------------------------------------------- one flatness threshold
    tests = {}

    def ops(o):
        p, P = C.A(C.vec("p")), C.A(C.mat("q", 2, 3))
        return {
            "Ellipsoid.rank": lambda: C.attr(o, "rank"),
            "Ellipsoid.is_degenerate": lambda: C.meth(o, "is_degenerate"),
            "Ellipsoid.contains": lambda: C.meth(o, "contains", p),
            "Ellipsoid.on_surface": lambda: C.meth(o, "on_surface", P),
            "Ellipsoid.must_contain": lambda: C.meth(o, "must_contain", variable(C, (3,))),
            "Ellipsoid.moment_constraints": lambda: C.meth(o, "moment_constraints", variable(C, (4, 4))),
            "Ellipsoid.can_realize": lambda: C.meth(o, "can_realize", params(C)),
        }

    grid = [0.0] + [10.0**e for e in range(-13, 3)]

    def switches(b, a):
        """Extents at which a condition on extent atom a changes."""
        ev = lambda x: beval(b, {a: x})
        out = []
        for lo, hi in zip(grid, grid[1:]):
            p, q = ev(lo), ev(hi)
            if p != q:
                for _ in range(60):
                    m = (lo + hi) / 2
                    lo, hi = (m, hi) if ev(m) == p else (lo, m)
                out.append(hi)
        return out

    def thresholds(i, op, at):
        def f():
            h = [R(j + 1) for j in range(3)]
            x = C.nn("ext", L)
            h[i] = x
            a = next(iter(x.atoms()))
            # tests of this extent alone are settled as for extent `at`
            C.I.scenario["decide"] = lambda t, *_: beval(t, {a: at}) if isinstance(t, B) and batoms(t) == {a} else None
            o = ellipsoid(C, "generic", h=h).obj
            r = ops(o)[op]()
            C.attr(o, "rank")
            found = []
            leaves = [d[4] for d in C.I.decisions if isinstance(d[4], B)] + ([truth(r)] if isinstance(truth(r), B) else [])
            for b in leaves:
                for l in bleaves(b):
                    ats = batoms(l)
                    if ats == {a} and l.op in ("cmp", "close"):
                        found += switches(l, a)
            found = [t for t in found if t < 1e-3]  # a comparison with another extent is no test of flatness
            if found and max(found) > 1.01 * min(found) + 1e-14:
                return [("diff", f"extent {i} is taken for zero below {max(found):.3g} in one place and below {min(found):.3g} in another", op)]
            return [("proved", f"extent {i}: {len(found)} flatness tests switch at the same value", op)]
        case(op, "one flatness threshold", f, flip=None)

    for op in ("Ellipsoid.rank", "Ellipsoid.is_degenerate", "Ellipsoid.contains", "Ellipsoid.on_surface", "Ellipsoid.must_contain", "Ellipsoid.moment_constraints", "Ellipsoid.can_realize"):
        for i in range(3):
            for at in (0.5, 1e-9, 0.0):
                thresholds(i, op, at)

    # ------------------------------------------------------------- no infinities
    PUBLIC = ("half_extents", "rotation", "center", "length", "radius", "vertices", "A", "b", "mass", "h", "H", "cylinder")

    def numbers(x, seen, where="result"):
        if id(x) in seen:
            return
        if isinstance(x, Arr):
            for v in x.a.reshape(-1):
                yield from numbers(v, seen, where)
        elif isinstance(x, float):
            yield where, x
        elif isinstance(x, (list, tuple)):
            for v in x:
                yield from numbers(v, seen, where)
        elif isinstance(x, dict):
            for v in x.values():
                yield from numbers(v, seen, where)
        elif isinstance(x, PyObj):
            seen.add(id(x))
            ell = x.cls.name == "Ellipsoid"
            for k in PUBLIC:
                if k in x.attrs:
                    yield from numbers(x.attrs[k], seen, f"{x.cls.name}.{k}")
                elif k in ("vertices", "mass", "h", "H") and not ell and x.cls.name in ("Box", "ConvexPolyhedron", "InertialParameters"):
                    try:
                        yield from numbers(C.attr(x, k), seen, f"{x.cls.name}.{k}")
                    except Raised:
                        pass
        elif isinstance(x, B):
            for l in bleaves(x):
                for v in l.args:
                    if isinstance(v, float):
                        yield where, v
        elif hasattr(x, "expr"):
            yield from numbers([v for v in x.expr.reshape(-1)], seen, where)

    def finite(kind, flat, op, mkargs, kw=None):
        def f():
            o = mk[kind](C, "generic", **pars(kind, flat)).obj
            r = C.attr(o, op) if mkargs is None else C.meth(o, op, *mkargs(), **(kw() if kw else {}))
            cons = [x[1] for x in C.I.records if x[0] == "constraint"]
            bad = [(w, v) for w, v in numbers([r, cons], set()) if math.isnan(v) or math.isinf(v)]
            return [("diff", f"{op} of a {kind} with zero extents {flat}: {bad[0][0]} has {bad[0][1]}", f"{kind}.{op}") if bad else ("proved", f"{op} of a {kind} with zero extents {flat} is finite", f"{kind}.{op}")]
        case(f"{kind}.{op}", "finite for flat shapes", f)

    P = lambda: [C.A(C.mat("q", 2, 3))]
    X = lambda: [variable(C, (3,))]
    J = lambda: [variable(C, (4, 4))]
    m = lambda: [C.pos("m", M)]
    rng = lambda: {"rng": C.I.make_gen(("caller", 0))}
    tr = lambda: {"rotation": C.A(C.rot("Rt")), "translation": C.A(C.vec("tt"))}
    none = lambda: []
    common = [("contains", P, None), ("must_contain", X, None), ("transform", none, tr), ("aabb", none, None), ("mbb", none, None), ("is_same", None, None)]
    by_kind = {
        "Ellipsoid": common + [("on_surface", P, None), ("mbe", none, None), ("mib", none, None), ("E", None, None), ("volume", None, None), ("rank", None, None), ("is_degenerate", none, None), ("moment_constraints", J, None), ("uniform_density_params", m, None), ("random_points", lambda: [3], rng), ("can_realize", lambda: [params(C)], None), ("rotate_about_center", lambda: [C.A(C.rot("Rt"))], None)],
        "Box": common + [("on_surface", P, None), ("mbe", none, None), ("mie", none, None), ("volume", None, None), ("vertices", None, None), ("moment_vertex_constraints", J, None), ("moment_sdp_constraints", J, None), ("uniform_density_params", m, None), ("vertex_point_mass_params", m, None), ("random_points", lambda: [3], rng), ("grid", lambda: [3], None)],
        "Cylinder": common + [("on_surface", P, None), ("mbe", none, None), ("mib", none, None), ("mie", none, None), ("volume", None, None), ("endpoints", none, None), ("moment_sdp_constraints", J, None), ("moment_custom_vertex_constraints", J, None), ("uniform_density_params", m, None), ("random_points", lambda: [3], rng), ("capsule", none, None)],
        "Capsule": common + [("full_length", None, None)],
    }
    for kind, lst in by_kind.items():
        n = 3 if kind in ("Box", "Ellipsoid") else 2
        cls = C.get(kind)
        for flat in [c for r in range(1, n + 1) for c in itertools.combinations(range(n), r)]:
            if kind == "Capsule" and 1 in flat:
                continue
            for op, args, kw in lst:
                if op == "is_same" or not any(op in c.ns for c in cls.mro):
                    continue
                finite(kind, flat, op, args, kw)
    for flat in ((0,), (1,), (2,)):
        for kind in ("Box", "Ellipsoid"):
            finite(kind, flat, "hollow_density_params", m)
    for flat in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2)):
        finite("Box", flat, "wireframe_density_params", m)

    def one(it):
        construct, rule, f, k = it
        C.run(rule, construct, f, limit=4 if rule == "one flatness threshold" else 6 if C.thorough else 3, special=False, **{a: b for a, b in k.items() if b is not None})

    C.parallel(items, one)
