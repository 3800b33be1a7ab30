"""Every transform is analysed with an abstract rotation and translation and
compared with the image it must produce: membership of R x + t in the result with
membership of x in the original, mapped vertices, rays and half-spaces, and
T J T^T for the pseudo-inertia matrix.  Omitted arguments, rotation about the
centre and the (inverse) transform matrix are covered in every supported
dimension."""
import itertools

from ..core import *
from ..build import *

LEVEL = "other"
MODES = ("both", "rotation", "translation", "none")


def motion(C, mode, n=3, tag="m"):
    """(keyword arguments, R, t)"""
    R_, t, kw = eye(n), zeros(n), {}
    if mode in ("both", "rotation"):
        R_ = np_obj(C.rot("Q" + tag, n))
        kw["rotation"] = C.A(R_)
    if mode in ("both", "translation"):
        t = np_obj(C.vec("t" + tag, n))
        kw["translation"] = C.A(t)
    return kw, R_, t


def img(R_, t, p):
    return add(mm(R_, p), t)


def el(v):
    a = np_obj(v)
    return a.reshape(-1)[0] if a.size == 1 else a


def same_set(C, o, R_, t, s, label, n=3, construct=None):
    """Membership of the image in object o equals membership in spec s."""
    tol = C.nn("tol", ONE)
    p = np_obj(C.vec("p", n))
    yield C.same_bool(el(C.meth(o, "contains", C.A(img(R_, t, p)), tol=tol)), inside(s, p, tol), label, construct)


def match(C, got, want, label):
    """Two point sets (rows), order ignored."""
    if got.shape != want.shape:
        return ("diff", f"{label}: {got.shape[0]} rows of size {got.shape[-1]}, expected {want.shape}")
    key = lambda r: tuple(R(x).fp() for x in r)
    if sorted(map(key, got)) == sorted(map(key, want)):
        return ("proved", label)
    return C.same(got, want, label)


def double_description(V, A, b):
    """The double description backend, told that conv(V) = {x : A x <= b}."""
    key = lambda r: tuple(R(x).fp() for x in r)

    def f(kind, m):
        rows = np_obj([list(r) for r in m.rows])
        if kind == "inequalities" and sorted(map(key, rows[:, 1:])) == sorted(map(key, V)) and all(R(x).same(Rat.const(1)) for x in rows[:, 0]):
            return [[R(b[i])] + [-R(x) for x in A[i]] for i in range(len(b))], ()
        if kind == "generators" and sorted(map(key, rows)) == sorted(map(key, np_obj([[R(b[i])] + [-R(x) for x in A[i]] for i in range(len(b))]))):
            return [[Rat.const(1)] + [R(x) for x in v] for v in V], ()
        n = rows.shape[1]
        return [[alg.new(f"dd{i}{j}") for j in range(n)] for i in range(n + 1)] if kind == "inequalities" else [[Rat.const(1)] + [alg.new(f"dd{i}{j}") for j in range(n - 1)] for i in range(n)], ()

    return f


def sized(C, s, o):
    """Sizes of the transformed object."""
    if s.kind in ("Cylinder",):
        yield C.same(C.attr(o, "length"), s.length, "length of the transformed cylinder")
        yield C.same(C.attr(o, "radius"), s.radius, "radius of the transformed cylinder")
    if s.kind == "Capsule":
        yield C.same(C.attr(o, "inner_length"), s.length, "inner length of the transformed capsule")
        yield C.same(C.attr(o, "radius"), s.radius, "radius of the transformed capsule")


def shapes(C):
    for mode in MODES:
        for pose in POSES if C.thorough else ("generic", "default"):
            mk = {"Box": lambda: box(C, pose), "Ellipsoid": lambda: ellipsoid(C, pose), "Cylinder": lambda: cylinder(C, pose), "Capsule": lambda: capsule(C, pose)}
            for kind, f in mk.items():
                def thunk():
                    s = f()
                    kw, R_, t = motion(C, mode)
                    o = C.meth(s.obj, "transform", **kw)
                    yield from same_set(C, o, R_, t, s, f"{kind} {pose} transformed by {mode}")
                    yield from sized(C, s, o)

                C.run("image", f"{kind}.transform", thunk)
        for n in (1, 2, 4) if C.thorough else (1, 2):
            def dims():
                s = ellipsoid(C, "generic", n=n)
                kw, R_, t = motion(C, mode, n)
                o = C.meth(s.obj, "transform", **kw)
                yield from same_set(C, o, R_, t, s, f"ellipsoid of dimension {n} transformed by {mode}", n)

            C.run("image", "Ellipsoid.transform", dims)
        for k in (1, 2, 3):
            for fl in itertools.combinations(range(3), k):
                def flat():
                    kw, R_, t = motion(C, mode)
                    s = ellipsoid(C, "generic", flat=fl)
                    yield from same_set(C, C.meth(s.obj, "transform", **kw), R_, t, s, f"ellipsoid flat {fl} transformed by {mode}")
                    s = box(C, "generic", h=[Z if i in fl else C.pos(f"h{i}") for i in range(3)])
                    yield from same_set(C, C.meth(s.obj, "transform", **kw), R_, t, s, f"box flat {fl} transformed by {mode}", construct="Box.transform")

                C.run("flat-image", "Ellipsoid.transform", flat)
        for n in (1, 2, 3):
            def pol():
                s = poly(C, 3, 4, n)
                kw, R_, t = motion(C, mode, n)
                A2 = mm(s.A, T(R_))
                C.I.scenario["cdd"] = double_description(np_obj([img(R_, t, v) for v in s.V]), A2, add(s.b, mm(A2, t)))
                o = C.meth(s.obj, "transform", **kw)
                want = np_obj([img(R_, t, v) for v in s.V])
                yield match(C, np_obj(C.attr(o, "vertices")), want, f"vertices of a polyhedron of dimension {n} transformed by {mode}")
                yield from same_set(C, o, R_, t, s, f"polyhedron of dimension {n} transformed by {mode}", n)

            C.run("polyhedron-image", "ConvexPolyhedron.transform", pol)

            def span():
                kw, R_, t = motion(C, mode, n)
                V, W = np_obj(C.mat("V", 3, n)), np_obj(C.mat("W", 2, n))
                for tag, args in (("vertices and rays", {"vertices": C.A(V), "rays": C.A(W)}), ("vertices", {"vertices": C.A(V)}), ("rays", {"rays": C.A(W)})):
                    o = C.meth(C.call("SpanForm", **args), "transform", **kw)
                    v, r = C.attr(o, "vertices"), C.attr(o, "rays")
                    if (v is None) != ("vertices" not in args) or (r is None) != ("rays" not in args):
                        yield ("diff", f"span form with {tag} of dimension {n}: the result has other generators")
                        continue
                    if v is not None:
                        yield match(C, np_obj(v), np_obj([img(R_, t, x) for x in V]), f"span form dim {n}, {mode}: vertices")
                    if r is not None:
                        yield match(C, np_obj(r), np_obj([mm(R_, x) for x in W]), f"span form dim {n}, {mode}: rays rotate only")

            C.run("span-image", "SpanForm.transform", span)

            def face():
                kw, R_, t = motion(C, mode, n)
                A, b = np_obj(C.mat("A", 3, n, ONE)), np_obj(C.vec("b", 3))
                o = C.meth(C.call("FaceForm", C.A(A), C.A(b)), "transform", **kw)
                x = np_obj(C.vec("p", n))
                y = img(R_, t, x)
                A2, b2 = np_obj(C.attr(o, "A")), np_obj(C.attr(o, "b"))
                yield C.same_bool(band(*[le(mm(A2[i], y), R(b2[i])) for i in range(A2.shape[0])]), band(*[le(mm(A[i], x), R(b[i])) for i in range(3)]), f"face form dim {n}, {mode}")

            C.run("face-image", "FaceForm.transform", face)


def about_centre(C):
    for pose in POSES:
        for kind, f in (("Box", lambda: box(C, pose)), ("Ellipsoid", lambda: ellipsoid(C, pose))):
            def thunk():
                s = f()
                Q = np_obj(C.rot("Qm"))
                o = C.meth(s.obj, "rotate_about_center", C.A(Q))
                t = sub(s.pose.c, mm(Q, s.pose.c))
                yield from same_set(C, o, Q, t, s, f"{kind} {pose} rotated about its centre")
                yield C.same(C.attr(o, "center"), s.pose.c, f"{kind} {pose}: centre after rotating about it")

            C.run("about-centre", f"{kind}.rotate_about_center", thunk)
    for n in (1, 2):
        def dims():
            s = ellipsoid(C, "generic", n=n)
            Q = np_obj(C.rot("Qm", n))
            o = C.meth(s.obj, "rotate_about_center", C.A(Q))
            yield from same_set(C, o, Q, sub(s.pose.c, mm(Q, s.pose.c)), s, f"ellipsoid of dimension {n} rotated about its centre", n)

        C.run("about-centre", "Ellipsoid.rotate_about_center", dims)


def hom(R_, t):
    n = len(t)
    M = np_obj([[Z] * (n + 1)] * (n + 1))
    for i in range(n):
        for j in range(n):
            M[i, j] = R(R_[i, j])
        M[i, n] = R(t[i])
    M[n, n] = Rat.const(1)
    return M


def sym(C, name, n=3, unit=None):
    m = np_obj([[Z] * n] * n)
    for i in range(n):
        for j in range(i, n):
            m[i, j] = m[j, i] = C.sym(f"{name}{i}{j}", unit=unit or ONE)
    return m


def params(C):
    for mode in MODES:
        for massless in (False, True):
            def thunk():
                kw, R_, t = motion(C, mode)
                if massless:
                    o = C.call("InertialParameters.zero")
                else:
                    o = C.call("InertialParameters", mass=C.pos("m", M), h=C.A(C.vec("h", unit=(1, 1, 0))), H=C.A(sym(C, "H", unit=(2, 1, 0))))
                J = np_obj(C.attr(o, "J"))
                o2 = C.meth(o, "transform", **kw)
                T_ = hom(R_, t)
                yield C.same(C.attr(o2, "J"), mm(T_, mm(J, T(T_))), f"pseudo-inertia matrix of {'massless ' if massless else ''}parameters moved by {mode}")
                yield C.same(C.attr(o2, "mass"), C.attr(o, "mass"), "mass of the moved parameters")
                if not massless:
                    yield C.same(C.attr(o2, "com"), img(R_, t, np_obj(C.attr(o, "com"))), "centre of mass of the moved parameters")

            C.run("parameter-image", "InertialParameters.transform", thunk)

        def body():
            kw, R_, t = motion(C, mode)
            ss = [box(C, "generic", tag="1"), ellipsoid(C, "generic", tag="2"), cylinder(C, "generic", tag="3")]
            p = C.call("InertialParameters", mass=C.pos("m", M), com=C.A(C.vec("com")), H=C.A(sym(C, "H", unit=(2, 1, 0))))
            b = C.call("RigidBody", [s.obj for s in ss], p)
            J = np_obj(C.attr(p, "J"))
            b2 = C.meth(b, "transform", **kw)
            new = C.I.iterate(C.attr(b2, "shapes")) if hasattr(C.I, "iterate") else list(C.attr(b2, "shapes"))
            if len(new) != len(ss):
                yield ("diff", f"a body with {len(ss)} shapes has {len(new)} after the transform")
                return
            for s, o in zip(ss, new):
                yield from same_set(C, o, R_, t, s, f"{s.kind} of a body moved by {mode}")
            T_ = hom(R_, t)
            yield C.same(C.attr(C.attr(b2, "params"), "J"), mm(T_, mm(J, T(T_))), f"parameters of a body moved by {mode}")

        C.run("body-image", "RigidBody.transform", body)


def matrices(C):
    for n in (1, 2, 3, 4) if C.thorough else (1, 2, 3):
        for mode in MODES:
            def thunk():
                kw, R_, t = motion(C, mode, n)
                dim = {} if n == 3 else {"dim": n}
                Tm = np_obj(C.call("util.transform_matrix", **kw, **dim))
                Ti = np_obj(C.call("util.transform_matrix_inv", **kw, **dim))
                if Tm.shape != (n + 1, n + 1) or Ti.shape != (n + 1, n + 1):
                    yield ("diff", f"transform matrices of dimension {n} have shapes {Tm.shape} and {Ti.shape}")
                    return
                yield C.same(Tm, hom(R_, t), f"transform matrix dim {n}, {mode}", "util.transform_matrix")
                yield C.same(mm(Ti, Tm), eye(n + 1), f"inverse times transform matrix dim {n}, {mode}")
                yield C.same(mm(Tm, Ti), eye(n + 1), f"transform times inverse matrix dim {n}, {mode}")

            C.run("matrix", "util.transform_matrix_inv", thunk)

            def clean():
                kw, R_, t = motion(C, mode, n)
                kw = {"rotation": None, "translation": None, **kw}
                r = C.I.iterate(C.call("util.clean_transform", kw["rotation"], kw["translation"], dim=n)) if hasattr(C.I, "iterate") else list(C.call("util.clean_transform", kw["rotation"], kw["translation"], dim=n))
                yield C.same(r[0], R_, f"rotation default dim {n}, {mode}")
                yield C.same(r[1], t, f"translation default dim {n}, {mode}")

            C.run("defaults", "util.clean_transform", clean)


def posed(C):
    """The posed representation a shape exposes: vertices, end points, axes."""
    for pose in POSES:
        def verts():
            s = box(C, pose)
            want = np_obj([add(mm(s.pose.R, np_obj([k * R(h) for k, h in zip(sg, s.h)])), s.pose.c) for sg in itertools.product((1, -1), repeat=3)])
            yield match(C, np_obj(C.attr(s.obj, "vertices")), want, f"vertices of a box {pose}")
            A = np_obj([[k if i == j else 0 for j in range(3)] for i in range(3) for k in (1, -1)])
            A2 = mm(A, T(s.pose.R))
            C.I.scenario["cdd"] = double_description(want, A2, add(np_obj([h for h in s.h for _ in (0, 1)]), mm(A2, s.pose.c)))
            q = C.meth(s.obj, "as_poly")
            yield match(C, np_obj(C.attr(q, "vertices")), want, f"vertices of the polyhedron of a box {pose}", )
            tol = C.nn("tol", ONE)
            p = np_obj(C.vec("p"))
            yield C.same_bool(el(C.meth(q, "contains", C.A(p), tol=tol)), inside(s, p, tol), f"polyhedron of a box {pose}", "Box.as_poly")

        C.run("posed-vertices", "Box", verts)

        def ends():
            s = cylinder(C, pose)
            k = np_obj(C.meth(s.obj, "endpoints"))
            a = s.pose.R[:, 2]
            yield match(C, k.reshape(-1, 3), np_obj([add(s.pose.c, mul(a, s.length / 2)), sub(s.pose.c, mul(a, s.length / 2))]), f"end points of a cylinder {pose}")

        C.run("posed-endpoints", "Cylinder.endpoints", ends)


def check(C):
    shapes(C)
    about_centre(C)
    params(C)
    matrices(C)
    posed(C)
