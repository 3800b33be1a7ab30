"""Every closed-form bounding or inscribed shape is analysed with abstract sizes and
pose.  An abstract member of the inner shape (bounded coordinates) is placed in the
outer shape's inequalities, which must hold for every value of the coordinates; the
axis-aligned box is compared with the support function along each axis; centres,
extremal sizes, lengths and volumes are compared with their closed forms."""
import itertools

from ..core import *
from ..build import *

LEVEL = "other"
UN = (0, 0, 0)


def member(C, s, tag="k"):
    """An arbitrary point of the posed shape."""
    b = lambda i, lo=-1: C.sym(f"{tag}{i}", lo, 1)
    n = len(s.pose.c)
    if s.kind == "Box":
        q = [R(s.h[i]) * b(i) for i in range(3)]
    else:
        def ball(m):
            # a point of the unit ball: a radius times a column of some rotation
            Q = np_obj(C.rot(tag + "Q", m))
            return [b("s") * Q[i, 0] for i in range(m)]

        if s.kind == "Ellipsoid":
            q = [R(h) * x for h, x in zip(s.h, ball(n))]
        elif s.kind == "Cylinder":
            q = [s.radius * x for x in ball(2)] + [s.length / 2 * b("v")]
        else:
            u = ball(3)
            q = [s.radius * u[0], s.radius * u[1], s.radius * u[2] + s.length / 2 * b("v")]
    return add(mm(s.pose.R, np_obj(q)), s.pose.c)


def support(s, i):
    """(lowest, highest) i-th coordinate of the posed shape."""
    row = s.pose.R[i]
    if s.kind == "Box":
        w = sum((alg.absv(R(row[j])) * R(s.h[j]) for j in range(3)), Z)
    elif s.kind == "Ellipsoid":
        w = alg.sqrt(sum((R(row[j]) ** 2 * R(s.h[j]) ** 2 for j in range(len(row))), Z))
    elif s.kind == "Cylinder":
        w = s.length / 2 * alg.absv(R(row[2])) + s.radius * alg.sqrt(R(row[0]) ** 2 + R(row[1]) ** 2)
    else:
        w = s.length / 2 * alg.absv(R(row[2])) + s.radius
    return R(s.pose.c[i]) - w, R(s.pose.c[i]) + w


class At:
    """Pose of a result."""

    def __init__(self, R_, c):
        self.R, self.c = R_, c

    def local(self, p):
        return emap(alg.rot_reduce, mm(T(self.R), sub(p, self.c)))


def posed(C, o, kind):
    h = np_obj(C.attr(o, "half_extents"))
    return Spec(kind, o, At(np_obj(C.attr(o, "rotation")), np_obj(C.attr(o, "center"))), h=h, flat=tuple(i for i, x in enumerate(h) if R(x).is_zero()))


def extreme(C, o, i):
    """(lowest, highest) i-th coordinate of a box object."""
    s = posed(C, o, "Box")
    return support(s, i)


def prod(xs):
    v = Rat.const(1)
    for x in xs:
        v = v * R(x)
    return v


def boxed(C, f, name, label, construct):
    def thunk():
        s = f()
        o = C.meth(s.obj, name)
        for i in range(3):
            lo, hi = extreme(C, o, i)
            a, b = support(s, i)
            yield C.same(lo, a, f"{label}: lowest coordinate {i} of the axis-aligned box")
            yield C.same(hi, b, f"{label}: highest coordinate {i} of the axis-aligned box")
        Rb = np_obj(C.attr(o, "rotation"))
        yield C.same(emap(lambda x: alg.absv(R(x)), Rb), eye(3), f"{label}: the axis-aligned box is axis-aligned") if not any(R(x).same(Rat.const(1)) for x in Rb.reshape(-1)[1:]) else ("proved", "aligned up to a permutation")

    C.run("axis-aligned-box", construct, thunk)


def relation(C, f, name, kind, label, construct, outer, size=None, rule=None, **kw):
    """Result bounds the shape (outer) or is inscribed in it."""
    def thunk():
        s = f()
        o = C.meth(s.obj, name, **kw)
        r = posed(C, o, kind)
        if outer and kw.get("sphere") and s.kind == "Ellipsoid":
            # concentric sphere about an ellipsoid: at least as large as its longest semi-axis
            for x in s.h:
                yield C.nonneg(R(r.h[0]) - R(x), f"{label}: every point of the shape lies in its {name}")
        elif not outer and kw.get("sphere") and s.kind == "Box":
            for x in s.h:
                yield C.nonneg(R(x) - R(r.h[0]), f"{label}: every point of the {name} lies in the shape")
        elif outer:
            yield C.implied(inside(r, member(C, s), Z), f"{label}: every point of the shape lies in its {name}")
        else:
            yield C.implied(inside(s, member(C, r), Z), f"{label}: every point of the {name} lies in the shape")
        yield C.same(r.pose.c, s.pose.c, f"{label}: centre of the {name}")
        if size is not None:
            yield C.same(prod(r.h), size(s), f"{label}: product of the half extents of the {name}")
        if kw.get("sphere"):
            for i in (1, 2):
                yield C.same(r.h[i], r.h[0], f"{label}: the {name} is a sphere")

    C.run(rule or ("bounding" if outer else "inscribed"), construct, thunk)


def check(C):
    s3 = lambda v: alg.sqrt(R(v))
    for pose in POSES:
        mk = {"Box": lambda: box(C, pose), "Ellipsoid": lambda: ellipsoid(C, pose), "Cylinder": lambda: cylinder(C, pose), "Capsule": lambda: capsule(C, pose)}
        for kind, f in mk.items():
            boxed(C, f, "aabb", f"{kind} {pose}", f"{kind}.aabb")
        relation(C, mk["Ellipsoid"], "mbb", "Box", f"ellipsoid {pose}", "Ellipsoid.mbb", True, lambda s: prod(s.h))
        relation(C, mk["Cylinder"], "mbb", "Box", f"cylinder {pose}", "Cylinder.mbb", True, lambda s: s.radius ** 2 * s.length / 2)
        relation(C, mk["Capsule"], "mbb", "Box", f"capsule {pose}", "Capsule.mbb", True, lambda s: s.radius ** 2 * (s.length / 2 + s.radius))
        relation(C, mk["Ellipsoid"], "mib", "Box", f"ellipsoid {pose}", "Ellipsoid.mib", False, lambda s: prod(s.h) / (3 * s3(3)))
        relation(C, mk["Cylinder"], "mib", "Box", f"cylinder {pose}", "Cylinder.mib", False, lambda s: s.radius ** 2 * s.length / 4)
        relation(C, mk["Box"], "mbe", "Ellipsoid", f"box {pose}", "Box.mbe", True, lambda s: prod(s.h) * 3 * s3(3))
        relation(C, mk["Box"], "mbe", "Ellipsoid", f"box {pose} (sphere)", "Box.mbe", True, lambda s: alg.sqrt(mm(s.h, s.h)) ** 3, sphere=True)
        relation(C, mk["Box"], "mie", "Ellipsoid", f"box {pose}", "Box.mie", False, lambda s: prod(s.h))
        relation(C, mk["Box"], "mie", "Ellipsoid", f"box {pose} (sphere)", "Box.mie", False, lambda s: alg.minv([R(x) for x in s.h]) ** 3, sphere=True)
        relation(C, mk["Ellipsoid"], "mbe", "Ellipsoid", f"ellipsoid {pose}", "Ellipsoid.mbe", True, lambda s: prod(s.h))
        relation(C, mk["Ellipsoid"], "mbe", "Ellipsoid", f"ellipsoid {pose} (sphere)", "Ellipsoid.mbe", True, lambda s: alg.maxv([R(x) for x in s.h]) ** 3, sphere=True)
        relation(C, mk["Cylinder"], "mbe", "Ellipsoid", f"cylinder {pose}", "Cylinder.mbe", True, lambda s: s.radius ** 2 * s.length * s3(3) * Fraction(3, 4))
        relation(C, mk["Cylinder"], "mbe", "Ellipsoid", f"cylinder {pose} (sphere)", "Cylinder.mbe", True, lambda s: alg.sqrt(s.radius ** 2 + s.length ** 2 / 4) ** 3, sphere=True)
    # flat shapes
    for pose in ("generic", "default"):
        for k in (1, 2, 3):
            for fl in itertools.combinations(range(3), k):
                fe = lambda: ellipsoid(C, pose, flat=fl)
                fb = lambda: box(C, pose, h=[Z if i in fl else C.pos(f"h{i}") for i in range(3)])
                boxed(C, fe, "aabb", f"ellipsoid flat {fl} {pose}", "Ellipsoid.aabb")
                boxed(C, fb, "aabb", f"box flat {fl} {pose}", "Box.aabb")
                relation(C, fe, "mbb", "Box", f"ellipsoid flat {fl} {pose}", "Ellipsoid.mbb", True)
                relation(C, fe, "mib", "Box", f"ellipsoid flat {fl} {pose}", "Ellipsoid.mib", False)
                relation(C, fe, "mbe", "Ellipsoid", f"ellipsoid flat {fl} {pose} (sphere)", "Ellipsoid.mbe", True, lambda s: alg.maxv([R(x) for x in s.h]) ** 3, sphere=True)
                relation(C, fb, "mbe", "Ellipsoid", f"box flat {fl} {pose}", "Box.mbe", True)
                relation(C, fb, "mie", "Ellipsoid", f"box flat {fl} {pose}", "Box.mie", False)
        for ln, r in ((Z, None), (None, Z)):
            fc = lambda: cylinder(C, pose, ln, r)
            boxed(C, fc, "aabb", f"flat cylinder {pose}", "Cylinder.aabb")
            relation(C, fc, "mbb", "Box", f"flat cylinder {pose}", "Cylinder.mbb", True)
            relation(C, fc, "mib", "Box", f"flat cylinder {pose}", "Cylinder.mib", False)
            relation(C, fc, "mbe", "Ellipsoid", f"flat cylinder {pose}", "Cylinder.mbe", True)
    # point sets and polyhedra
    for n in C.sizes(1, 2, 3, 5):
        def pts():
            P = np_obj(C.mat("P", n, 3))
            o = C.call("Box.from_points_to_bound", C.A(P))
            for i in range(3):
                lo, hi = extreme(C, o, i)
                yield C.same(lo, alg.minv([R(x) for x in P[:, i]]), f"box of {n} points: lowest coordinate {i}")
                yield C.same(hi, alg.maxv([R(x) for x in P[:, i]]), f"box of {n} points: highest coordinate {i}")

        C.run("point-set", "Box.from_points_to_bound", pts)

        def pol():
            s = poly(C, 4, n)
            o = C.meth(s.obj, "aabb")
            for i in range(3):
                lo, hi = extreme(C, o, i)
                yield C.same(lo, alg.minv([R(x) for x in s.V[:, i]]), f"axis-aligned box of a polyhedron with {n} vertices: lowest coordinate {i}")
                yield C.same(hi, alg.maxv([R(x) for x in s.V[:, i]]), f"axis-aligned box of a polyhedron with {n} vertices: highest coordinate {i}")

        C.run("axis-aligned-box", "ConvexPolyhedron.aabb", pol)

    def corners():
        a, b = np_obj(C.vec("p")), np_obj(C.vec("q"))
        for x, y, lab in ((a, b, "p, q"), (b, a, "q, p")):
            o = C.call("Box.from_two_vertices", C.A(x), C.A(y))
            for i in range(3):
                lo, hi = extreme(C, o, i)
                yield C.same(lo, alg.minv([R(a[i]), R(b[i])]), f"box from the corners {lab}: lowest coordinate {i}")
                yield C.same(hi, alg.maxv([R(a[i]), R(b[i])]), f"box from the corners {lab}: highest coordinate {i}")

    C.run("two-corners", "Box.from_two_vertices", corners)

    # sizes
    def sizes():
        s = box(C)
        yield C.same(C.attr(s.obj, "volume"), 8 * prod(s.h), "volume of a box", "Box.volume")
        yield C.same(C.attr(s.obj, "side_lengths"), mul(s.h, 2), "side lengths of a box", "Box.side_lengths")
        yield C.same(C.attr(s.obj, "diaglen"), 2 * alg.sqrt(mm(s.h, s.h)), "diagonal of a box", "Box.diaglen")
        for n, k in ((1, R(2)), (2, alg.PI), (3, alg.PI * Fraction(4, 3)), (4, alg.PI ** 2 / 2), (5, alg.PI ** 2 * Fraction(8, 15))):
            e = ellipsoid(C, n=n)
            yield C.same(C.attr(e.obj, "volume"), k * prod(e.h), f"volume of an ellipsoid of dimension {n}", "Ellipsoid.volume")
        c = cylinder(C)
        yield C.same(C.attr(c.obj, "volume"), alg.PI * c.radius ** 2 * c.length, "volume of a cylinder", "Cylinder.volume")
        k = capsule(C)
        yield C.same(C.attr(k.obj, "full_length"), k.length + 2 * k.radius, "full length of a capsule", "Capsule.full_length")
        yield C.same(C.attr(k.obj, "inner_length"), k.length, "inner length of a capsule", "Capsule.inner_length")

    C.run("size", "Box.volume", sizes)
