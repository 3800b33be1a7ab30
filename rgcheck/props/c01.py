"""Every membership and on-surface test is analysed with abstract extents, pose,
point and tolerance; the condition it computes is compared, as a set of
inequalities in the point's coordinates, with the defining inequalities of the
posed shape.  Covers generic, omitted and literal poses, every pattern of zero
extents, dimensions 1-4, single points and batches, and polyhedron containment."""
import itertools

from ..core import *
from ..build import *

LEVEL = "other"


def el(v, i=None):
    a = np_obj(v)
    if i is None:
        return a.reshape(-1)[0] if a.size == 1 else a
    return a.reshape(-1)[i]


def check_test(C, mk, meth, spec, rule, construct, n=3, label="", **sc):
    tol = C.nn("tol", ONE)
    p, p2 = np_obj(C.vec("p", n)), np_obj(C.vec("q", n))

    def one():
        s = mk()
        r = C.meth(s.obj, meth, C.A(p), tol=tol)
        a = np_obj(r)
        if a.size != 1:
            yield ("diff", f"{label}: one point gives an answer of shape {a.shape}")
            return
        yield C.same_bool(el(r), spec(s, p, tol), f"{label} {meth}(p)")

    def batch():
        s = mk()
        r = np_obj(C.meth(s.obj, meth, C.A([p, p2]), tol=tol))
        if r.shape != (2,):
            yield ("diff", f"{label}: two points give an answer of shape {r.shape}")
            return
        for i, x in enumerate((p, p2)):
            yield C.same_bool(r[i], spec(s, x, tol), f"{label} {meth}(batch)[{i}]")

    def default_tol():
        s = mk()
        r = C.meth(s.obj, meth, C.A(p))
        yield C.same_bool(el(r), spec(s, p, Rat.const(Fraction(1, 10**8))), f"{label} {meth}(p) with the default tolerance")

    C.run(rule + "-single", construct, one, limit=4, **sc)
    C.run(rule + "-batch", construct, batch, limit=4, **sc)
    C.run(rule + "-default-tol", construct, default_tol, **sc)
    if "generic" not in label or "flat" in label or n != 3:
        return

    def sized(k):
        # as many points as coordinates, one, or many; as an array or as a list
        def f():
            s = mk()
            q = np_obj(C.mat("b", k, n))
            for arg, how in ((C.A(q), "array"), ([list(x) for x in q], "list")):
                r = np_obj(C.meth(s.obj, meth, arg, tol=tol))
                if r.shape != (k,):
                    yield ("diff", f"{label}: {k} points give an answer of shape {r.shape}")
                    return
                for i in sorted({0, 1, k // 2, k - 1} & set(range(k))):
                    yield C.same_bool(r[i], spec(s, q[i], tol), f"{label} {meth}({how} of {k})[{i}]")

        C.run(rule + "-batch", construct, f, **sc)

    for k in C.sizes(1, 3, 4):
        sized(k)


def check(C):
    for pose in POSES:
        check_test(C, lambda: box(C, pose), "contains", inside, "membership", "Box.contains", label=f"box {pose}")
        check_test(C, lambda: box(C, pose), "on_surface", surface, "surface", "Box.on_surface", label=f"box {pose}")
        for n in (1, 2, 3, 4) if C.thorough else (1, 2, 3):
            check_test(C, lambda: ellipsoid(C, pose, n=n), "contains", inside, "membership", "Ellipsoid.contains", n=n, label=f"ellipsoid dim {n} {pose}")
            check_test(C, lambda: ellipsoid(C, pose, n=n), "on_surface", surface, "surface", "Ellipsoid.on_surface", n=n, label=f"ellipsoid dim {n} {pose}")
        check_test(C, lambda: cylinder(C, pose), "contains", inside, "membership", "Cylinder.contains", label=f"cylinder {pose}")
        check_test(C, lambda: capsule(C, pose), "contains", inside, "membership", "Capsule.contains", label=f"capsule {pose}")
    for pose in ("generic", "default"):
        for k in (1, 2, 3):
            for flat in itertools.combinations(range(3), k):
                check_test(C, lambda: ellipsoid(C, pose, flat=flat), "contains", inside, "flat-membership", "Ellipsoid.contains", label=f"ellipsoid flat {flat} {pose}")
                check_test(C, lambda: ellipsoid(C, pose, flat=flat), "on_surface", surface, "flat-surface", "Ellipsoid.on_surface", label=f"ellipsoid flat {flat} {pose}")
                h = [Z if i in flat else C.pos(f"h{i}") for i in range(3)]
                check_test(C, lambda: box(C, pose, h=h), "contains", inside, "flat-membership", "Box.contains", label=f"box flat {flat} {pose}")
                check_test(C, lambda: box(C, pose, h=h), "on_surface", surface, "flat-surface", "Box.on_surface", label=f"box flat {flat} {pose}")
        for ln, r in ((Z, None), (None, Z), (Z, Z)):
            check_test(C, lambda: cylinder(C, pose, ln, r), "contains", inside, "flat-membership", "Cylinder.contains", label=f"cylinder {'flat' if ln is not None else ''}{' thin' if r is not None else ''} {pose}")
        # a sphere whose length is zero
        check_test(C, lambda: capsule(C, pose, Z, None), "contains", inside, "flat-membership", "Capsule.contains", label=f"capsule of zero length {pose}")
    for nf, n in ((4, 3), (3, 2), (2, 1), *((k, 3) for k in C.sizes(6))):
        check_test(C, lambda: poly(C, nf, 4, n), "contains", inside, "membership", "ConvexPolyhedron.contains", n=n, label=f"polyhedron {nf} faces dim {n}")

    # sphere and cube constructors give the shape they name
    def ctor():
        tol = C.nn("tol", ONE)
        p = np_obj(C.vec("p"))
        c = C.vec("c")
        r = C.pos("r")
        o = C.call("Ellipsoid.sphere", r, center=C.A(c))
        s = Spec("Ellipsoid", o, Pose(C, "aligned"), h=np_obj([r, r, r]), flat=())
        yield C.same_bool(el(C.meth(o, "contains", C.A(p), tol=tol)), inside(s, p, tol), "sphere", "Ellipsoid.sphere")
        o = C.call("Ellipsoid.sphere", r)
        s = Spec("Ellipsoid", o, Pose(C, "default"), h=np_obj([r, r, r]), flat=())
        yield C.same_bool(el(C.meth(o, "contains", C.A(p), tol=tol)), inside(s, p, tol), "sphere at the origin", "Ellipsoid.sphere")
        P = Pose(C, "generic")
        o = C.call("Box.cube", r, **P.kw)
        s = Spec("Box", o, P, h=np_obj([r, r, r]))
        yield C.same_bool(el(C.meth(o, "contains", C.A(p), tol=tol)), inside(s, p, tol), "cube", "Box.cube")
        h = C.posvec("h")
        o = C.call("Box.from_side_lengths", C.A([2 * x for x in h]), **P.kw)
        s = Spec("Box", o, P, h=np_obj(h))
        yield C.same_bool(el(C.meth(o, "contains", C.A(p), tol=tol)), inside(s, p, tol), "box from side lengths", "Box.from_side_lengths")
        s = cylinder(C)
        k = C.meth(s.obj, "capsule")
        yield C.same_bool(el(C.meth(k, "contains", C.A(p), tol=tol)), inside(Spec("Capsule", k, s.pose, length=s.length, radius=s.radius, cylinder=s), p, tol), "capsule of a cylinder", "Cylinder.capsule")

    C.run("named-constructor", "Ellipsoid.sphere", ctor)

    # integer-valued input arrays must not truncate the posed shape
    def ints():
        tol = C.nn("tol", ONE)
        p = np_obj(C.vec("p"))
        P = Pose(C, "generic")
        for name, arg in (("Box", "h"), ("Ellipsoid", "h")):
            o = C.call(name, C.A(np_obj([2, 3, 4]), "i"), **P.kw)
            s = Spec(name, o, P, h=np_obj([Rat.const(x) for x in (2, 3, 4)]), flat=())
            yield C.same_bool(el(C.meth(o, "contains", C.A(p), tol=tol)), inside(s, p, tol), f"{name} with integer extents", f"{name}.contains")
        o = C.call("Cylinder", 3, 2, rotation=P.kw["rotation"], center=C.A(np_obj([1, 2, 3]), "i"))
        P2 = Pose(C, "generic")
        P2.c = np_obj([Rat.const(1), Rat.const(2), Rat.const(3)])
        s = Spec("Cylinder", o, P2, length=Rat.const(3), radius=Rat.const(2))
        yield C.same_bool(el(C.meth(o, "contains", C.A(p), tol=tol)), inside(s, p, tol), "Cylinder with integer extents", "Cylinder.contains")

    C.run("integer-extents", "Box.contains", ints)

    # containment of a polyhedron: all of its vertices
    mk = {
        "Box": lambda: box(C), "Ellipsoid": lambda: ellipsoid(C), "Cylinder": lambda: cylinder(C), "Capsule": lambda: capsule(C), "ConvexPolyhedron": lambda: poly(C, 3, 4, tag="1"),
    }
    for (k, f), (nf, nv) in itertools.product(mk.items(), ((4, 3), *((3, k) for k in C.sizes(6)))):
        def cp():
            tol = C.nn("tol", ONE)
            s = f()
            q = poly(C, nf, nv, tag="2")
            r = C.meth(s.obj, "contains_polyhedron", q.obj, tol=tol)
            yield C.same_bool(el(r), band(*[inside(s, v, tol) for v in q.V]), f"{k} contains a polyhedron of {nv} vertices")

        C.run("contains-polyhedron", f"{k}.contains_polyhedron", cp)
