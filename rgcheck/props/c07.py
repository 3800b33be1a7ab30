"""Each density generator is analysed with abstract extents, pose and mass and its
result compared with the exact integrals of the stated distribution: mass, first and
second moments, at every pose, for flat shapes as well.  The surface of an ellipsoid
has no elementary closed form; there the relations every surface distribution of that
symmetry obeys are checked, and the disk and sphere cases."""
import itertools

from ..core import *
from ..build import *
from .c06 import total

LEVEL = "other"


def pim(pose, m, D):
    """Pseudo-inertia matrix of mass m with centred second moment m diag(D), posed."""
    J = zeros(4, 4)
    H = mm(pose.R, mm(diag([R(d) * m for d in D]), T(pose.R)))
    J[:3, :3] = add(H, mul(outer(pose.c, pose.c), m))
    J[:3, 3] = J[3, :3] = mul(pose.c, m)
    J[3, 3] = m
    return J


def box_surface(h):
    x, y, z = [R(a) for a in h]
    area = {0: y * z, 1: x * z, 2: x * y}
    tot = area[0] + area[1] + area[2]
    sq = [x * x, y * y, z * z]
    return [sum((sq[i] * area[k] * (1 if k == i else Fraction(1, 3)) for k in range(3)), Z) / tot for i in range(3)]


def box_edges(h):
    h = [R(a) for a in h]
    tot = h[0] + h[1] + h[2]
    return [sum((h[i] * h[i] * h[k] * (Fraction(1, 3) if k == i else 1) for k in range(3)), Z) / tot for i in range(3)]


def moments(C, f, name, D, label, construct):
    for massless in (False, True):
        def thunk():
            s = f()
            m = Z if massless else C.pos("m", M)
            o = C.meth(s.obj, name, m)
            yield C.same(C.attr(o, "J"), pim(s.pose, m, D(s)), f"{label}: moments for {'zero' if massless else 'any'} mass")
            yield C.same(C.attr(o, "mass"), m, f"{label}: total mass")
            if not massless:
                yield C.same(C.attr(o, "com"), s.pose.c, f"{label}: centre of mass")

        C.run("moments", construct, thunk)


def check(C):
    sq = lambda k: (lambda s: [R(h) * R(h) * k for h in s.h])
    for pose in POSES:
        fb, fe, fc = (lambda: box(C, pose)), (lambda: ellipsoid(C, pose)), (lambda: cylinder(C, pose))
        moments(C, fb, "uniform_density_params", sq(Fraction(1, 3)), f"uniform box {pose}", "Box.uniform_density_params")
        moments(C, fb, "hollow_density_params", lambda s: box_surface(s.h), f"hollow box {pose}", "Box.hollow_density_params")
        moments(C, fb, "wireframe_density_params", lambda s: box_edges(s.h), f"wireframe box {pose}", "Box.wireframe_density_params")
        moments(C, fe, "uniform_density_params", sq(Fraction(1, 5)), f"uniform ellipsoid {pose}", "Ellipsoid.uniform_density_params")
        moments(C, fc, "uniform_density_params", lambda s: [s.radius ** 2 / 4, s.radius ** 2 / 4, s.length ** 2 / 12], f"uniform cylinder {pose}", "Cylinder.uniform_density_params")
    for i in range(3):
        fl = lambda: box(C, "generic", h=[Z if k == i else C.pos(f"h{k}") for k in range(3)])
        moments(C, fl, "uniform_density_params", sq(Fraction(1, 3)), f"flat box {i}", "Box.uniform_density_params")
        moments(C, fl, "hollow_density_params", sq(Fraction(1, 3)), f"flat hollow box {i}", "Box.hollow_density_params")
        moments(C, fl, "wireframe_density_params", lambda s: box_edges(s.h), f"flat wireframe box {i}", "Box.wireframe_density_params")
        rod = lambda: box(C, "generic", h=[Z if k != i else C.pos(f"h{k}") for k in range(3)])
        moments(C, rod, "uniform_density_params", sq(Fraction(1, 3)), f"rod {i}", "Box.uniform_density_params")
        moments(C, rod, "wireframe_density_params", sq(Fraction(1, 3)), f"wireframe rod {i}", "Box.wireframe_density_params")
    moments(C, lambda: cylinder(C, "generic", Z), "uniform_density_params", lambda s: [s.radius ** 2 / 4] * 2 + [Z], "disk", "Cylinder.uniform_density_params")
    moments(C, lambda: cylinder(C, "generic", None, Z), "uniform_density_params", lambda s: [Z, Z, s.length ** 2 / 12], "cylindrical rod", "Cylinder.uniform_density_params")
    moments(C, lambda: ellipsoid(C, "generic", h=[C.pos("r")] * 3), "uniform_density_params", sq(Fraction(1, 5)), "solid ball", "Ellipsoid.uniform_density_params")
    shell(C)
    vertices(C)


def shell(C):
    con = "Ellipsoid.hollow_density_params"
    for pose in POSES:
        def thunk():
            s = ellipsoid(C, pose)
            m = C.pos("m", M)
            o = C.meth(s.obj, "hollow_density_params", m)
            yield C.same(C.attr(o, "mass"), m, f"ellipsoid shell {pose}: total mass")
            yield C.same(C.attr(o, "com"), s.pose.c, f"ellipsoid shell {pose}: centre of mass")
            H = emap(alg.rot_reduce, mm(T(s.pose.R), mm(np_obj(C.attr(o, "Hc")), s.pose.R)))
            for i, j in itertools.combinations(range(3), 2):
                yield C.same(H[i, j], Z, f"ellipsoid shell {pose}: principal axes are the ellipsoid's")
            yield C.same(sum((R(H[i, i]) / R(s.h[i]) ** 2 for i in range(3)), Z), m, f"ellipsoid shell {pose}: all of the mass lies on the surface")
            for i in range(3):
                yield C.nonneg(R(H[i, i]), f"ellipsoid shell {pose}: second moment {i} is positive")
            D = [R(H[i, i]) for i in range(3)]
            at = [alg.as_atom(R(x)).id for x in s.h]
            for p in itertools.permutations(range(3)):
                mp = {at[i]: R(s.h[p[i]]) for i in range(3)}
                for i in range(3):
                    yield C.same(alg.subst(D[i], mp), D[p[i]], f"ellipsoid shell {pose}: relabelling the axes relabels the moments")

        C.run("shell", con, thunk)

    # mass 0
    moments(C, lambda: ellipsoid(C, "generic", h=[C.pos("r")] * 3), "hollow_density_params", lambda s: [R(x) ** 2 / 3 for x in s.h], "hollow sphere", con)

    def ordered():
        # stretching an axis: the longer axis carries the larger moment
        s = ellipsoid(C, "default")
        m = C.pos("m", M)
        H = np_obj(C.attr(C.meth(s.obj, "hollow_density_params", m), "H"))
        t = C.pos("t")
        at = [alg.as_atom(R(x)).id for x in s.h]
        for i, j in itertools.permutations(range(3), 2):
            d = alg.subst(R(H[i, i]) - R(H[j, j]), {at[i]: R(s.h[j]) + t})
            yield C.nonneg(d, f"ellipsoid shell: the longer of axes {i}, {j} has the larger second moment")
            # a surface distribution cannot exceed the extents
            yield C.nonneg(R(s.h[i]) ** 2 * m - R(H[i, i]), "ellipsoid shell: second moment within the extents")

    C.run("shell", con, ordered)

    for i in range(3):
        def disk():
            s = ellipsoid(C, "default", flat=(i,))
            m = C.pos("m", M)
            H = np_obj(C.attr(C.meth(s.obj, "hollow_density_params", m), "H"))
            yield C.same(H, diag([R(x) ** 2 * m / 4 for x in s.h]), f"ellipsoid flat along {i}: moments of the uniform surface distribution")

        C.run("uniform-surface", con, disk)


def vertices(C):
    con = "ConvexPolyhedron.vertex_point_mass_params"

    def acc(V, ms):
        J = zeros(4, 4)
        for v, m in zip(V, ms):
            p = np_obj([*v, Rat.const(1)])
            J = add(J, mul(outer(p, p), m))
        return J

    for nv in C.sizes(1, 2, 4, 5):
        def thunk():
            s = poly(C, 4, nv)
            m = C.pos("m", M)
            o = C.meth(s.obj, "vertex_point_mass_params", m)
            yield C.same(C.attr(o, "J"), acc(s.V, [m / nv] * nv), f"equal point masses at {nv} vertices")
            ms = [C.pos(f"m{i}", M) for i in range(nv)]
            for w, lab in ((C.A(np_obj(ms)), "array"), (ms, "list")):
                o = C.meth(s.obj, "vertex_point_mass_params", w)
                yield C.same(C.attr(o, "J"), acc(s.V, ms), f"given point masses ({lab}) at {nv} vertices")

        C.run("vertex-masses", con, thunk)

    def onbox():
        s = box(C)
        V = np_obj(C.attr(s.obj, "vertices"))
        m = C.pos("m", M)
        o = C.meth(s.obj, "vertex_point_mass_params", m)
        yield C.same(C.attr(o, "J"), pim(s.pose, m, [R(h) ** 2 for h in s.h]), "equal point masses at the vertices of a box")

    C.run("vertex-masses", con, onbox)
