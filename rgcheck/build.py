"""Abstract inputs: poses, shapes and their specifications."""
from fractions import Fraction

import numpy as np

from . import alg
from .alg import Rat, R
from .cond import cmp, close, band, bor
from .core import emap, np_obj, mm, sub, add, mul, T, L, M, ONE, eye, zeros, diag

Z = Rat.const(0)


class Pose:
    def __init__(self, C, kind="generic", n=3, tag=""):
        self.kind = kind
        self.kw = {}
        self.R, self.c = eye(n), zeros(n)
        if kind in ("generic", "centred"):
            self.R = np_obj(C.rot("R" + tag, n))
            self.kw["rotation"] = C.A(self.R)
        if kind in ("generic", "aligned"):
            self.c = np_obj(C.vec("c" + tag, n))
            self.kw["center"] = C.A(self.c)
        if kind == "zero":
            self.kw = {"rotation": C.A(self.R), "center": C.A(self.c)}

    def local(self, p):
        """Point in the body frame."""
        return emap(alg.rot_reduce, mm(T(self.R), sub(p, self.c)))


POSES = ("generic", "centred", "aligned", "default", "zero")


class Spec:
    """A shape object of the analysed package, its parameters and pose."""

    def __init__(self, kind, obj, pose, **par):
        self.kind, self.obj, self.pose = kind, obj, pose
        self.__dict__.update(par)


def box(C, pose="generic", h=None, tag=""):
    P = Pose(C, pose, 3, tag)
    h = C.posvec("h" + tag) if h is None else h
    o = C.call("Box", C.A(h), **P.kw)
    return Spec("Box", o, P, h=np_obj(h))


def ellipsoid(C, pose="generic", h=None, n=3, tag="", flat=()):
    P = Pose(C, pose, n, tag)
    h = C.posvec("h" + tag, n) if h is None else h
    h = [Z if i in flat else x for i, x in enumerate(h)]
    o = C.call("Ellipsoid", C.A(h), **P.kw)
    return Spec("Ellipsoid", o, P, h=np_obj(h), flat=tuple(i for i, x in enumerate(h) if R(x).is_zero()), n=n)


def cylinder(C, pose="generic", length=None, radius=None, tag=""):
    P = Pose(C, pose, 3, tag)
    ln = C.pos("len" + tag) if length is None else length
    r = C.pos("rad" + tag) if radius is None else radius
    o = C.call("Cylinder", ln, r, **P.kw)
    return Spec("Cylinder", o, P, length=R(ln), radius=R(r))


def capsule(C, pose="generic", length=None, radius=None, tag=""):
    s = cylinder(C, pose, length, radius, tag)
    o = C.call("Capsule", s.obj)
    return Spec("Capsule", o, s.pose, length=s.length, radius=s.radius, cylinder=s)


def poly(C, nf=4, nv=4, n=3, tag="", V=None, Ab=None):
    """General polyhedron with given (abstract) face and span forms."""
    A = np_obj(C.mat("A" + tag, nf, n, ONE)) if Ab is None else np_obj(Ab[0])
    b = np_obj([C.sym(f"b{tag}{i}", unit=L) for i in range(nf)]) if Ab is None else np_obj(Ab[1])
    V = np_obj(C.mat("V" + tag, nv, n)) if V is None else np_obj(V)
    ff = C.call("FaceForm", C.A(A), C.A(b))
    sf = C.call("SpanForm", vertices=C.A(V))
    o = C.call("ConvexPolyhedron", face_form=ff, span_form=sf)
    return Spec("ConvexPolyhedron", o, None, A=A, b=b, V=V, n=n, nf=nf, nv=nv)


def le(a, b):
    return cmp("<=", a, b)


def near(a, b, tol):
    return close(a, b, 0, tol)


def quad(q, h):
    s = Z
    for x, k in zip(q, h):
        s = s + (R(x) / R(k)) ** 2
    return alg.rot_reduce(s)


def inside(s, p, tol):
    """Specified membership condition for point p (world coordinates)."""
    if s.kind == "ConvexPolyhedron":
        return band(*[le(mm(s.A[i], p), R(s.b[i]) + tol) for i in range(s.A.shape[0])])
    q = s.pose.local(p)
    if s.kind == "Box":
        return band(*[le(x * k, R(s.h[i]) + tol) for i, x in enumerate(q) for k in (1, -1)])
    if s.kind == "Ellipsoid":
        return in_ell(q, s.h, tol)
    if s.kind == "Cylinder":
        return band(in_ell(q[2:], [s.length / 2], tol), in_ell(q[:2], [s.radius, s.radius], tol))
    if s.kind == "Capsule":
        cs = []
        for k in (1, -1):
            e = np_obj([q[0], q[1], q[2] - k * s.length / 2])
            cs.append(in_ell(e, [s.radius] * 3, tol))
        return bor(*cs, inside(s.cylinder, p, tol))
    raise KeyError(s.kind)


def in_ell(q, h, tol):
    fl = [x for x, k in zip(q, h) if R(k).is_zero()]
    nf = [(x, k) for x, k in zip(q, h) if not R(k).is_zero()]
    cs = [near(x, Z, tol) for x in fl]
    if nf:
        cs.append(le(quad([a for a, _ in nf], [b for _, b in nf]), 1 + tol))
    else:
        cs.append(le(Z, 1 + tol))
    return band(*cs)


def surface(s, p, tol):
    q = s.pose.local(p)
    if s.kind == "Box":
        return band(inside(s, p, tol), bor(*[near(alg.absv(R(q[i])), R(s.h[i]), tol) for i in range(3)]))
    if s.kind == "Ellipsoid":
        if s.flat:
            return inside(s, p, tol)
        return near(quad(q, s.h), Rat.const(1), tol)
    raise KeyError(s.kind)
