"""Every sampler and grid is analysed with abstract extents and pose; its random
draws are atoms bounded by the range of the distribution they come from.  Each
returned point, an expression in those atoms, is placed in the shape's defining
inequalities, which must hold for every value of the atoms (or because the trace
on which the point is returned established them).  Output shapes are compared
with the requested ones."""
import itertools

import numpy as np

from ..core import *
from ..build import *
from ..interp import Undecided

LEVEL = "other"
SHAPES = [None, 1, (1,), 2, (2,), (2, 2), (1, 2), (3, 1)]
TOL = Rat.const(Fraction(1, 10**8))


def expected(shape, dim):
    """Acceptable output shapes."""
    if shape is None or shape == 1:
        return {(dim,)}
    if shape == (1,):
        return {(dim,), (1, dim)}
    return {((shape,) if isinstance(shape, int) else tuple(shape)) + (dim,)}


def gen(C):
    return C.I.make_gen(("arg", "rng"))


def points(v, n):
    a = np_obj(v)
    return a.reshape(-1, n)


def sampler(C, mk, meth, pred, construct, label, n=3, shapes=SHAPES, rule="member", **sc):
    """pred(spec, point) -> condition every returned point must satisfy."""
    for shp in shapes:
        def thunk():
            s = mk()
            kw = {} if shp is None else {"shape": shp}
            r = np_obj(C.meth(s.obj, meth, rng=gen(C), **kw))
            lab = f"{label}.{meth}({'' if shp is None else shp})"
            if r.shape not in expected(shp, n):
                yield ("diff", f"{lab}: returns an array of shape {r.shape}, expected {sorted(expected(shp, n))[0]}")
                return
            yield ("proved", f"{lab}: shape {r.shape}")
            for k, p in enumerate(r.reshape(-1, n)):
                yield C.implied(pred(s, p), f"{lab}: point {k}")

        C.run(rule, construct, thunk, **sc)


def edge(s, p):
    q = s.pose.local(p)
    tight = [close(alg.absv(R(q[i])), R(s.h[i]), 0, Z) for i in range(3)]
    return band(inside(s, p, Z), bor(*[band(*c) for c in itertools.combinations(tight, 2)]))


def weights_of(C, p, V):
    """p as a combination of the rows of V: the weights, or None."""
    nv, n = V.shape
    out = []
    for i in range(nv):
        ws = []
        for j in range(n):
            c = alg.coeff(R(p[j]), alg.as_atom(R(V[i, j])).id)
            if c is None:
                return None
            ws.append(c[0])
        if any(not w.same(ws[0]) for w in ws):
            return None
        out.append(ws[0])
    rest = sub(p, mm(np_obj(out), V))
    if any(not R(x).is_zero() for x in rest):
        return None
    return out


def poly_samples(C, n, nv, shapes):
    for shp in shapes:
        def thunk():
            s = poly(C, 4, nv, n)
            kw = {} if shp is None else {"shape": shp}
            r = np_obj(C.meth(s.obj, "random_points", rng=gen(C), **kw))
            lab = f"polyhedron dim {n} with {nv} vertices random_points({'' if shp is None else shp})"
            if r.shape not in expected(shp, n):
                yield ("diff", f"{lab}: returns an array of shape {r.shape}, expected {sorted(expected(shp, n))[0]}")
                return
            yield ("proved", f"{lab}: shape")
            for k, p in enumerate(r.reshape(-1, n)):
                w = weights_of(C, p, s.V)
                if w is None:
                    yield ("undecided", f"{lab}: point {k} is not a recognised combination of the vertices")
                    continue
                for i, x in enumerate(w):
                    yield C.nonneg(x, f"{lab}: weight {i} of point {k} is non-negative")
                yield C.same(sum(w, Z), Rat.const(1), f"{lab}: weights of point {k} sum to one")

        C.run("member", "ConvexPolyhedron.random_points", thunk)


def grids(C):
    for n in (1, 2, 3, [1, 2, 3], [2, 1, 1], [3, 2, 2]):
        for pose in ("generic", "default", "aligned"):
            def thunk():
                s = box(C, pose)
                r = np_obj(C.meth(s.obj, "grid", n if isinstance(n, int) else list(n)))
                k = [n] * 3 if isinstance(n, int) else n
                lab = f"box {pose} grid({n})"
                if r.shape != (int(np.prod(k)), 3):
                    yield ("diff", f"{lab}: returns an array of shape {r.shape}, expected {(int(np.prod(k)), 3)}")
                    return
                for i, p in enumerate(r):
                    yield C.implied(inside(s, p, Z), f"{lab}: point {i}")
                if min(k) >= 2:
                    ax = [[R(s.h[d]) * Fraction(2 * i - (k[d] - 1), k[d] - 1) for i in range(k[d])] for d in range(3)]
                    want = {tuple(R(x).fp() for x in add(mm(s.pose.R, np_obj(list(q))), s.pose.c)) for q in itertools.product(*ax)}
                    got = {tuple(R(x).fp() for x in p) for p in r}
                    yield ("proved", f"{lab}: the evenly spaced points, each once") if got == want else ("undecided", f"{lab}: other points than the evenly spaced ones")
                    if len(got) != len(r):
                        yield ("diff", f"{lab}: a point occurs twice")

            C.run("grid", "Box.grid", thunk)
    makers = {
        "Ellipsoid": (lambda: ellipsoid(C, "generic"), lambda: ellipsoid(C, "aligned")),
        "Cylinder": (lambda: cylinder(C, "aligned"), lambda: cylinder(C, "default")),
        "Capsule": (lambda: capsule(C, "aligned"), lambda: capsule(C, "default")),
        "ConvexPolyhedron": (lambda: poly(C, 4, 3), lambda: poly(C, 3, 2)),
    }
    for kind, fs in makers.items():
        for f in fs:
            for n in (1, 2):
                def thunk():
                    s = f()
                    r = np_obj(C.meth(s.obj, "grid", n))
                    lab = f"{kind} grid({n})"
                    if r.ndim != 2 or r.shape[1] != 3:
                        yield ("diff", f"{lab}: returns an array of shape {r.shape}")
                        return
                    if not len(r):
                        yield ("proved", f"{lab}: empty on this trace")
                    for i, p in enumerate(r):
                        yield C.implied(inside(s, p, TOL), f"{lab}: point {i}")

                C.run("grid", f"{kind}.grid", thunk, limit=12 if C.thorough else 4)


def base_generators(C):
    for shp in SHAPES:
        for dim in (1, 2, 3, 4):
            def ball():
                kw = {} if shp is None else {"shape": shp}
                r = np_obj(C.call("random.random_points_in_ball", dim=dim, rng=gen(C), **kw))
                lab = f"random_points_in_ball({shp}, dim={dim})"
                if r.shape not in expected(shp, dim):
                    yield ("diff", f"{lab}: returns an array of shape {r.shape}")
                    return
                for k, p in enumerate(r.reshape(-1, dim)):
                    yield C.implied(le(mm(p, p), Rat.const(1)), f"{lab}: norm of point {k}")

            def sphere():
                kw = {} if shp is None else {"shape": shp}
                r = np_obj(C.call("random.random_points_on_hypersphere", dim=dim - 1, rng=gen(C), **kw))
                lab = f"random_points_on_hypersphere({shp}, dim={dim - 1})"
                if r.shape not in expected(shp, dim):
                    yield ("diff", f"{lab}: returns an array of shape {r.shape}")
                    return
                for k, p in enumerate(r.reshape(-1, dim)):
                    yield C.same(mm(p, p), Rat.const(1), f"{lab}: norm of point {k}")

            C.run("unit-ball", "random.random_points_in_ball", ball)
            C.run("unit-sphere", "random.random_points_on_hypersphere", sphere)
    for shp in (1, 3, (2,), (2, 3), (2, 2, 2)):
        def w():
            r = np_obj(C.call("random.random_weight_vectors", shp, rng=gen(C)))
            full = (shp,) if isinstance(shp, int) else shp
            lab = f"random_weight_vectors({shp})"
            if r.shape != full:
                yield ("diff", f"{lab}: returns an array of shape {r.shape}")
                return
            for i in np.ndindex(*full):
                yield C.nonneg(r[i], f"{lab}: entry {i}")
            for row in r.reshape(-1, full[-1]):
                yield C.same(sum((R(x) for x in row), Z), Rat.const(1), f"{lab}: sum")

        C.run("weights", "random.random_weight_vectors", w)
    for n in (1, 2, 3):
        def psd():
            r = np_obj(C.call("random.random_psd_matrix", n, rng=gen(C)))
            if r.shape != (n, n):
                yield ("diff", f"random_psd_matrix({n}) has shape {r.shape}")
                return
            yield C.same(r, T(r), f"random_psd_matrix({n}) is symmetric")
            # principal minors of orders one and two (order n for n <= 2)
            for i in range(n):
                yield C.nonneg(r[i, i], f"random_psd_matrix({n}): diagonal entry {i}")
            x = np_obj(C.vec("x", n, ONE))
            yield C.nonneg(mm(x, mm(r, x)), f"random_psd_matrix({n}): quadratic form")

        C.run("psd", "random.random_psd_matrix", psd)


def check(C):
    base_generators(C)
    for pose in POSES:
        SH = SHAPES if pose == "default" or C.thorough else [None, (2,)]
        sampler(C, lambda: box(C, pose), "random_points", lambda s, p: inside(s, p, Z), "Box.random_points", f"box {pose}", shapes=SH)
        sampler(C, lambda: cylinder(C, pose), "random_points", lambda s, p: inside(s, p, Z), "Cylinder.random_points", f"cylinder {pose}", shapes=SH)
        for n in (1, 2, 3, 4) if C.thorough else (1, 2, 3):
            sampler(C, lambda: ellipsoid(C, pose, n=n), "random_points", lambda s, p: inside(s, p, Z), "Ellipsoid.random_points", f"ellipsoid dim {n} {pose}", n=n, shapes=SH)
            sampler(C, lambda: ellipsoid(C, pose, n=n), "random_points_on_surface", lambda s, p: surface(s, p, Z), "Ellipsoid.random_points_on_surface", f"ellipsoid dim {n} {pose}", n=n, rule="on-surface", shapes=SH, limit=1)
        sampler(C, lambda: capsule(C, pose), "random_points", lambda s, p: inside(s, p, TOL), "Capsule.random_points", f"capsule {pose}", shapes=(None, 1, 2, (2, 2)) if pose == "default" else (1, 2))
        # several face and edge allocations
        for name, pred, k, meth in (("on-surface", lambda s, p: surface(s, p, Z), 6, "random_points_on_surface"), ("on-edge", edge, 12, "random_points_on_edges")):
            sampler(C, lambda: box(C, pose), meth, pred, f"Box.{meth}", f"box {pose}", rule=name, shapes=SH)
            for alloc in ("even", "first", "last", "skip"):
                def counts(n, kk, alloc=alloc):
                    if alloc == "even":
                        return [n // kk + (1 if i < n % kk else 0) for i in range(kk)]
                    if alloc == "first":
                        return [n] + [0] * (kk - 1)
                    if alloc == "last":
                        return [0] * (kk - 1) + [n]
                    c = [0] * kk
                    for i in range(n):
                        c[(2 * i + 1) % kk] += 1
                    return c

                sampler(C, lambda: box(C, pose), meth, pred, f"Box.{meth}", f"box {pose} ({alloc} allocation)", shapes=(2 * k, (2, k)) if alloc == "even" else (3, 1), rule=name, counts=counts)
    # flat shapes that samplers support
    for pose in ("generic", "default"):
        for k in (1, 2, 3):
            for fl in itertools.combinations(range(3), k):
                sampler(C, lambda: ellipsoid(C, pose, flat=fl), "random_points", lambda s, p: inside(s, p, Z), "Ellipsoid.random_points", f"ellipsoid flat {fl} {pose}", shapes=(1, 2))
                h = [Z if i in fl else C.pos(f"h{i}") for i in range(3)]
                sampler(C, lambda: box(C, pose, h=h), "random_points", lambda s, p: inside(s, p, Z), "Box.random_points", f"box flat {fl} {pose}", shapes=(1, 2))
        for ln, r in ((Z, None), (None, Z)):
            sampler(C, lambda: cylinder(C, pose, ln, r), "random_points", lambda s, p: inside(s, p, Z), "Cylinder.random_points", f"flat cylinder {pose}", shapes=(1, 2))
    for n in (1, 2, 3):
        poly_samples(C, n, 3, SHAPES)
    grids(C)
    # rejection sampling from a union of shapes
    def rej():
        a, b = ellipsoid(C, "aligned", tag="1"), box(C, "aligned", tag="2")
        bb = box(C, "aligned", tag="3")
        for shp in (1, 2):
            r = np_obj(C.call("random.rejection_sample", [a.obj, b.obj], bb.obj, shp, rng=gen(C)))
            if r.shape not in expected(shp, 3):
                yield ("diff", f"rejection_sample of {shp}: returns an array of shape {r.shape}")
                return
            for k, p in enumerate(r.reshape(-1, 3)):
                yield C.implied(inside(bb, p, Z), f"rejection_sample of {shp}: point {k} lies in the bounding shape")
    C.run("rejection", "random.rejection_sample", rej)
