"""One abstract body (mass, centre of mass, second moment about it) is written in
every accepted form; each resulting object is read back through every representation
and compared with the body's exact moments.  Round trips, sums with the massless
parameters, point masses, half-vectorisation and the matrices that turn a parameter
vector into a pseudo-inertia matrix are compared in the same way."""
import itertools

from ..core import *
from ..build import *
from ..csets import expr

LEVEL = "other"
H_, M1 = (2, 1, 0), (1, 1, 0)


def symm(C, name, n=3, unit=None):
    m = np_obj([[Z] * n] * n)
    for i in range(n):
        for j in range(i, n):
            m[i, j] = m[j, i] = C.sym(f"{name}{i}{j}", unit=unit or ONE)
    return m


def trace(m):
    return sum((R(m[i, i]) for i in range(m.shape[0])), Z)


def inertia(H):
    return sub(mul(eye(3), trace(H)), H)


def cross(v):
    x, y, z = [R(a) for a in v]
    return np_obj([[Z, -z, y], [z, Z, -x], [-y, x, Z]])


class Body:
    """Exact moments of a mass distribution."""

    def __init__(self, C, tag="", kind="generic"):
        self.m = C.pos("m" + tag, M) if kind != "massless" else Z
        self.c = np_obj(C.vec("c" + tag)) if kind != "massless" else zeros(3)
        if kind == "generic":
            self.Hc = symm(C, "S" + tag, unit=H_)
        elif kind == "massless":
            self.Hc = zeros(3, 3)
        else:
            self.Hc = zeros(3, 3)
        self.h = mul(self.c, self.m)
        self.H = add(self.Hc, mul(outer(self.c, self.c), self.m))
        self.I, self.Ic = inertia(self.H), inertia(self.Hc)
        self.J = zeros(4, 4)
        self.J[:3, :3] = self.H
        self.J[:3, 3] = self.J[3, :3] = self.h
        self.J[3, 3] = self.m
        S = cross(self.h)
        self.M = zeros(6, 6)
        self.M[:3, :3] = self.I
        self.M[:3, 3:] = S
        self.M[3:, :3] = mul(S, -1)
        self.M[3:, 3:] = mul(eye(3), self.m)
        self.vec = np_obj([self.m, *self.h, *[self.I[i, j] for i in range(3) for j in range(i, 3)]])


ALL = ("mass", "com", "h", "H", "I", "Hc", "Ic", "J", "M", "vec")
READ = {"mass": "m", "com": "c"}
HOMES = {"com": "InertialParameters.__init__", "mass": "InertialParameters.__init__", "H": "InertialParameters.__init__"}


def read(C, o, b, label, names=ALL):
    for n in names:
        yield C.same(C.attr(o, n), getattr(b, READ.get(n, n)), f"{n} of {label}", HOMES.get(n, f"InertialParameters.{n}"))


def forms(C):
    for kind in ("generic", "massless"):
        for first in ("h", "com", None):
            for second in ("H", "I", None):
                for about in (False, True):
                    if kind == "generic" and first is None:
                        continue
                    if second is None and kind == "generic":
                        # a point mass at the centre of mass
                        b = lambda: Body(C, kind="point")
                    else:
                        b = lambda: Body(C, kind=kind)

                    def thunk():
                        s = b()
                        kw = {"mass": s.m}
                        if first:
                            kw[first] = C.A(s.h if first == "h" else s.c)
                        if second:
                            kw[second] = C.A(getattr(s, second + ("c" if about else "")))
                        if about:
                            kw["translate_from_com"] = True
                        o = C.call("InertialParameters", **kw)
                        ref = "centre of mass" if about else "origin"
                        yield from read(C, o, s, f"{'massless ' if kind == 'massless' else ''}parameters given by mass, {first or '-'}, {second or '-'} about the {ref}")

                    C.run("representation", "InertialParameters.__init__", thunk)

    def positional():
        s = Body(C)
        yield from read(C, C.call("InertialParameters", s.m, C.A(s.h), None, C.A(s.H)), s, "parameters given positionally", ("J",))
        yield from read(C, C.call("InertialParameters", s.m, None, C.A(s.c), None, C.A(s.Ic), True), s, "parameters given positionally about the centre of mass", ("J",))

    C.run("representation", "InertialParameters.__init__", positional)

    for kind in ("generic", "massless"):
        def vec():
            s = Body(C, kind=kind)
            o = C.call("InertialParameters.from_vec", C.A(s.vec))
            yield from read(C, o, s, f"{kind} parameters from a parameter vector")
            o2 = C.call("InertialParameters.from_vec", C.attr(o, "vec"))
            yield from read(C, o2, s, f"{kind} parameters after a round trip through the vector", ("J", "vec"))
            o3 = C.call("InertialParameters.from_pim", C.attr(o, "J"))
            yield from read(C, o3, s, f"{kind} parameters from vector to matrix", ("J", "vec"))

        C.run("round-trip", "InertialParameters.from_vec", vec)

        def pim():
            s = Body(C, kind=kind)
            o = C.call("InertialParameters.from_pim", C.A(s.J))
            yield from read(C, o, s, f"{kind} parameters from a pseudo-inertia matrix")
            o2 = C.call("InertialParameters.from_pim", C.attr(o, "J"))
            yield from read(C, o2, s, f"{kind} parameters after a round trip through the matrix", ("J", "vec"))

        C.run("round-trip", "InertialParameters.from_pim", pim)

    def zero():
        yield from read(C, C.call("InertialParameters.zero"), Body(C, kind="massless"), "the massless parameters")

    C.run("representation", "InertialParameters.zero", zero)


def total(bs):
    J = zeros(4, 4)
    for b in bs:
        J = add(J, b.J)
    return J


def point_masses(C):
    for n in C.sizes(1, 2, 4):
        for zero in {0, 1, n}:
            def thunk():
                ms = [Z if i >= n - zero else C.pos(f"m{i}", M) for i in range(n)]
                ps = np_obj(C.mat("p", n, 3))
                o = C.call("InertialParameters.from_point_masses", C.A(np_obj(ms)), C.A(ps))
                J = zeros(4, 4)
                for m, p in zip(ms, ps):
                    v = np_obj([*p, Rat.const(1)])
                    J = add(J, mul(outer(v, v), m))
                yield C.same(C.attr(o, "J"), J, f"pseudo-inertia matrix of {n} point masses, {zero} of them zero")
                mt = sum((R(m) for m in ms), Z)
                yield C.same(C.attr(o, "mass"), mt, "mass of point masses")
                if zero < n:
                    yield C.same(mul(np_obj(C.attr(o, "com")), mt), J[:3, 3], "centre of mass of point masses")

            C.run("point-masses", "InertialParameters.from_point_masses", thunk)

    def lists():
        ms = [C.pos("m0", M), C.pos("m1", M)]
        ps = np_obj(C.mat("p", 2, 3))
        o = C.call("InertialParameters.from_point_masses", ms, [list(p) for p in ps])
        o2 = C.call("InertialParameters.from_point_masses", C.A(np_obj(ms)), C.A(ps))
        yield C.same(C.attr(o, "J"), C.attr(o2, "J"), "point masses given as lists")

    C.run("point-masses", "InertialParameters.from_point_masses", lists)


def sums(C):
    add_ = lambda a, b: C.I.binop("+", a, b)
    kinds = ("generic", "point", "massless")
    for ka, kb in itertools.product(kinds, kinds):
        def thunk():
            a, b = Body(C, "a", ka), Body(C, "b", kb)
            mk = lambda s: C.call("InertialParameters", s.m, h=C.A(s.h), H=C.A(s.H))
            o = add_(mk(a), mk(b))
            J = add(a.J, b.J)
            yield C.same(C.attr(o, "J"), J, f"sum of {ka} and {kb} parameters")
            yield C.same(C.attr(o, "vec"), add(a.vec, b.vec), f"vector of the sum of {ka} and {kb} parameters")
            yield C.same(C.attr(o, "mass"), a.m + b.m, f"mass of the sum of {ka} and {kb} parameters")

        C.run("sum", "InertialParameters.__add__", thunk)
    for k in kinds:
        def neutral():
            a = Body(C, "a", k)
            p = C.call("InertialParameters", a.m, h=C.A(a.h), H=C.A(a.H))
            z = C.call("InertialParameters.zero")
            for o, lab in ((add_(p, z), "p + zero"), (add_(z, p), "zero + p"), (add_(0, p), "0 + p"), (C.I.call(C.I.builtins["sum"], [[p]], {}), "sum([p])"), (C.I.call(C.I.builtins["sum"], [[p, z]], {}), "sum([p, zero])")):
                yield C.same(C.attr(o, "J"), a.J, f"{lab} for {k} parameters")

        C.run("neutral", "InertialParameters.__add__", neutral)

    def many():
        bs = [Body(C, t) for t in "abcdefghijklmnopqrstuvwxy"[: C.sizes(3)[-1]]]
        ps = [C.call("InertialParameters", a.m, h=C.A(a.h), H=C.A(a.H)) for a in bs]
        yield C.same(C.attr(C.I.call(C.I.builtins["sum"], [ps], {}), "J"), total(bs), f"sum of {len(bs)} parameter sets")

    C.run("sum", "InertialParameters.__add__", many)

    def bodies():
        bs = [Body(C, t) for t in "abc"]
        ps = [C.call("InertialParameters", a.m, h=C.A(a.h), H=C.A(a.H)) for a in bs]
        ss = [box(C, tag="1").obj, ellipsoid(C, tag="2").obj, cylinder(C, tag="3").obj]
        r0 = C.call("RigidBody", [ss[0]], ps[0])
        r1 = C.call("RigidBody", ss[1], ps[1])
        r2 = C.call("RigidBody", [ss[2]])
        for o, shapes, J, lab in ((add_(r0, r1), ss[:2], total(bs[:2]), "a + b"), (C.I.call(C.I.builtins["sum"], [[r0, r1, r2]], {}), ss, total(bs[:2]), "sum([a, b, massless])"), (add_(0, r2), ss[2:], zeros(4, 4), "0 + massless"), (add_(r2, r0), [ss[2], ss[0]], bs[0].J, "massless + a")):
            got = list(C.attr(o, "shapes"))
            ok = len(got) == len(shapes) and all(x is y for x, y in zip(got, shapes))
            yield ("proved", f"shapes of {lab}") if ok else ("diff", f"shapes of the body {lab} are not the shapes of its parts")
            yield C.same(C.attr(C.attr(o, "params"), "J"), J, f"parameters of the body {lab}")

    C.run("sum", "RigidBody.__add__", bodies)


def tables(C):
    def pim():
        s = Body(C)
        As = C.call("pim_sum_vec_matrices")
        As = list(As)
        if len(As) != 10:
            yield ("diff", f"{len(As)} matrices for 10 inertial parameters")
            return
        J = zeros(4, 4)
        for A, t in zip(As, s.vec):
            J = add(J, mul(np_obj(A), t))
        yield C.same(J, s.J, "sum of A_i theta_i")

    C.run("vector-table", "pim_sum_vec_matrices", pim)

    def eq():
        s = Body(C)
        yield C.same(C.call("pim_must_equal_vec", expr(C, s.vec)), s.J, "pseudo-inertia expression of a parameter vector")
        yield C.same(C.call("pim_must_equal_vec", C.A(s.vec)), s.J, "pseudo-inertia matrix of a numeric parameter vector")

    C.run("vector-table", "pim_must_equal_vec", eq)

    def pv():
        s = Body(C)
        for x, lab in ((s.vec, "vector"), (s.J, "matrix")):
            r = C.call("pim_must_equal_param_var", expr(C, x), 0)
            yield C.same(r[0], s.J, f"pseudo-inertia expression of a parameter {lab}")

    C.run("vector-table", "pim_must_equal_param_var", pv)


def vectorise(C):
    for n in range(1, 6 if C.thorough else 5):
        for k in range(0, n):
            def thunk():
                A = np_obj(C.mat("A", n, n))
                want = np_obj([A[i, j] for i in range(n) for j in range(i + k, n)])
                yield C.same(C.call("vech", C.A(A), k=k) if k else C.call("vech", C.A(A)), want, f"half-vectorisation of a {n} x {n} matrix, offset {k}")

            C.run("vech", "vech", thunk)

        def inv():
            S = symm(C, "S", n)
            v = C.call("vech", C.A(S))
            yield C.same(C.call("unvech", v), S, f"unvech(vech(S)) for {n} x {n}")
            a = C.vec("a", n * (n + 1) // 2)
            U = C.call("unvech", C.A(a))
            yield C.same(C.call("vech", U), np_obj(a), f"vech(unvech(a)) for {n} x {n}")
            yield C.same(U, T(np_obj(U)), f"unvech(a) is symmetric for {n} x {n}")
            yield C.same(C.call("unvech", list(a)), np_obj(U), f"unvech of a list for {n} x {n}")

        C.run("vech", "unvech", inv)

    def h2i():
        H = np_obj(C.mat("H", 3, 3))
        yield C.same(C.call("H2I", C.A(H)), inertia(H), "inertia matrix of a second moment", "H2I")
        yield C.same(C.call("I2H", C.call("H2I", C.A(H))), H, "I2H(H2I(H))", "I2H")
        yield C.same(C.call("H2I", C.call("I2H", C.A(H))), H, "H2I(I2H(I))", "I2H")

    C.run("inertia-second-moment", "H2I", h2i)

    def tri():
        nums = {n * (n + 1) // 2: n for n in range(1, 40)}
        for s in range(-2, 200 if not C.thorough else 800):
            r = C.call("is_triangular_number", s)
            want = s in nums
            got = C.I.truthy(r[0])
            ok = bool(got) == want and (not want or R(r[1]).same(Rat.const(nums[s])))
            yield ("proved", f"is_triangular_number({s})") if ok else ("fail", f"is_triangular_number({s}) is {r}")

    C.run("vech", "is_triangular_number", tri)


def random(C):
    def thunk():
        o = C.call("InertialParameters.random", rng=0)
        m = R(C.attr(o, "mass"))
        yield C.nonneg(m - Fraction(1, 100), "random parameters have positive mass")
        z = np_obj(C.vec("z", unit=ONE))
        Hc = np_obj(C.attr(o, "Hc"))
        yield C.same(Hc, T(Hc), "random second moment about the centre of mass is symmetric")
        yield C.nonneg(mm(z, mm(Hc, z)), "random second moment about the centre of mass is positive semidefinite")

    C.run("random-consistent", "InertialParameters.random", thunk)


def check(C):
    forms(C)
    point_masses(C)
    sums(C)
    tables(C)
    vectorise(C)
    random(C)
