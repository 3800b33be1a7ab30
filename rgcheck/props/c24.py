"""Every sampler is evaluated with abstract extents and pose and ideal draws.  Each
returned point is an expression in independent draw atoms of known law; a small calculus
of laws derives its distribution (a constant affine image of independent uniform draws,
an isometric image of a normalised vector of independent normals with the radius u^(1/n),
mixtures weighted by the probabilities handed to the generator, rejection of uniform
candidates), which must be the uniform one on the set the sampler names.  Where no rule
applies, a moment of the derived distribution that differs from that of the uniform one
refutes it."""
import itertools
import math
import random
from fractions import Fraction

import numpy as np

from .. import alg
from ..alg import ATOMS, R
from ..cond import B, batoms
from ..core import *
from ..interp import Arr, Raised, Undecided
from ..build import *

LEVEL = "other"
RULE = "each returned point is uniformly distributed on its set and no two returned points share a draw"
ASSUMPTIONS = ["the draws of a generator are independent and follow exactly the law they are asked for", "a rejection test is the membership test of the shape (C01, C22)"]
N = 1 << 13


# ---------------------------------------------------------------- laws of atoms
def is_draw(a):
    return isinstance(ATOMS[a].info, dict) and "draw" in ATOMS[a].info


def draws(x):
    return frozenset(a for a in alg.all_atoms(R(x)) if is_draw(a))


def draws_of(v):
    return frozenset().union(*map(draws, v)) if len(v) else frozenset()


def law(a):
    return ATOMS[a].info.get("law")


def red(x):
    return alg.rot_reduce(R(x))


def free(x):
    return not draws(x)


def interval_law(x):
    """(low, high) of an affine image of one uniform draw."""
    ds = [*draws(x)]
    if len(ds) != 1 or law(ds[0]) != "u":
        return None
    c = alg.coeff(R(x), ds[0])
    if c is None or not free(c[0]) or not free(c[1]):
        return None
    A = ATOMS[ds[0]]
    return red(c[0] * R(A.lo) + c[1]), red(c[0] * R(A.hi) + c[1])


def linear(w, zs):
    """Coefficient matrix of w in the atoms zs, or None."""
    Q = np.empty((len(w), len(zs)), dtype=object)
    for i, x in enumerate(w):
        rest = R(x)
        for j, z in enumerate(zs):
            c = alg.coeff(rest, z)
            if c is None or not free(c[0]):
                return None
            Q[i, j], rest = c
        if not red(rest).is_zero():
            return None
    return Q


def direction_law(y, ball):
    """Radius squared of an isometric image of a uniform point of the unit sphere or ball."""
    n = len(y)
    ds = draws_of(y)
    zs = sorted(a for a in ds if law(a) == "z")
    us = sorted(a for a in ds if law(a) == "u")
    if len(zs) != n or len(zs) + len(us) != len(ds) or len(us) != (1 if ball else 0):
        return None
    norm = alg.sqrt(sum((Rat.atom(ATOMS[z]) ** 2 for z in zs), Z))
    scales = [Rat.const(1)]
    if ball:
        A = ATOMS[us[0]]
        t = (Rat.atom(A) - R(A.lo)) / R(A.hi - A.lo)
        scales = [alg.power(t, Fraction(1, n)), alg.power(1 - t, Fraction(1, n))]
    for s in scales:
        if n == 1:
            Q = None
            for k in (norm, Rat.const(1)):
                c = alg.coeff(red(R(y[0]) * norm / s), zs[0])
                if c is not None and free(c[0]) and c[1].is_zero():
                    Q = np_obj([[c[0]]])
        else:
            Q = linear([red(R(x) * norm / s) for x in y], zs)
        if Q is None:
            continue
        G = emap(red, mm(Q, T(Q)))
        r2 = G[0, 0]
        if all((G[i, j] - (r2 if i == j else Z)).is_zero() for i, j in np.ndindex(n, n)):
            return r2
    return None


def blocks(q):
    """Independent groups of coordinates with their laws, or None."""
    groups = []
    for i, x in enumerate(q):
        ds = draws(x)
        hit = [g for g in groups if g[1] & ds]
        groups = [g for g in groups if g not in hit]
        groups.append((sorted([i] + [k for g in hit for k in g[0]]), ds.union(*[g[1] for g in hit])))
    out = []
    for ix, ds in sorted(groups, key=lambda g: g[0]):
        if not ds:
            out.append((tuple(ix), "point", R(q[ix[0]])))
            continue
        v = [q[i] for i in ix]
        if len(ix) == 1:
            iv = interval_law(v[0])
            if iv is not None:
                out.append((tuple(ix), "interval", iv))
                continue
        for kind in ("ball", "sphere"):
            r2 = direction_law(v, kind == "ball")
            if r2 is not None:
                if len(ix) == 1 and kind == "ball":
                    r = alg.sqrt(r2)
                    out.append((tuple(ix), "interval", (-r, r)))
                else:
                    out.append((tuple(ix), kind, r2))
                break
        else:
            return None
    return out


def ends(iv):
    return {R(x).fp() for x in iv}


def is_unit(b):
    """Law on the unit interval [-1, 1], ball or sphere."""
    if b[1] == "interval":
        return ends(b[2]) == {R(1).fp(), R(-1).fp()}
    return b[1] in ("ball", "sphere") and (R(b[2]) - 1).is_zero()


# ---------------------------------------------------------------- moments
def halton(k, n):
    ps = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37][:k]
    out = np.empty((n, k))
    for j, p in enumerate(ps):
        i, f, r = np.arange(409, n + 409), 1.0, np.zeros(n)
        while i.any():
            f /= p
            r += f * (i % p)
            i //= p
        out[:, j] = r
    return out


def veval(r, env):
    """Value of a normal form with arrays for the draws."""
    r = R(r)

    def at(a):
        if a in env:
            return env[a]
        A = ATOMS[a]
        if A.kind == "sqrt":
            v = np.sqrt(np.maximum(pv(A.info), 0.0))
        elif A.name == "pi":
            v = math.pi
        elif A.kind == "fn":
            nm = A.info["name"]
            xs = [veval(x, env) for x in A.info["args"]]
            f = {"abs": np.abs, "root": lambda x: np.maximum(x, 0.0) ** (1.0 / A.info["q"]), "sin": np.sin, "cos": np.cos, "tan": np.tan, "exp": np.exp, "log": np.log, "arctan": np.arctan, "sign": np.sign, "pow": np.power}.get(nm)
            if nm in ("max", "min"):
                v = xs[0]
                for x in xs[1:]:
                    v = (np.maximum if nm == "max" else np.minimum)(v, x)
            elif f is None:
                raise Undecided(f"moments of {nm}")
            else:
                v = f(*xs)
        else:
            raise Undecided(f"moments of {A.name}")
        env[a] = v
        return v

    def pv(p):
        s = 0.0
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:
                v = v * at(a) ** e
            s = s + v
        return s

    n = pv(r.num)
    for f, e in r.den:
        n = n / pv(f) ** e
    return n


def base_env(vals, seed):
    rnd = random.Random(seed)
    ids = set()
    for x in vals:
        ids |= alg.all_atoms(R(x))
    return alg.sample_env([a for a in ids if not is_draw(a)], rnd)


def draw_env(env, ds):
    from scipy.special import ndtri

    H = halton(len(ds), N)
    for j, a in enumerate(sorted(ds)):
        A = ATOMS[a]
        if law(a) == "u":
            env[a] = float(A.lo) + (float(A.hi) - float(A.lo)) * H[:, j]
        elif law(a) == "z":
            env[a] = ndtri(H[:, j])
        else:
            raise Undecided(f"law of the draw {A.name}")
    return env


def alphas(n, top=4):
    return [a for a in itertools.product(range(top + 1), repeat=n) if 0 < sum(a) <= top]


def dfact(k):
    return math.prod(range(k, 0, -2)) if k > 0 else 1


def ref_unit(kind, a):
    """Moment of the uniform law on [-1, 1], the unit ball or the unit sphere."""
    if any(x % 2 for x in a):
        return 0.0
    if kind == "interval":
        return 1.0 / (a[0] + 1)
    n, d = len(a), sum(a)
    s = math.prod(dfact(x - 1) for x in a) / math.prod(n + 2 * i for i in range(d // 2))
    return s * n / (n + d) if kind == "ball" else s


def refute(y, ref, what, construct):
    """A moment of y that differs from the uniform one, or undecided."""
    n, ds = len(y), draws_of(y)
    if len(ds) > 12:
        return ("undecided", f"{what}: too many draws", construct)
    for seed in (1, 2):
        env = draw_env(base_env(y, seed), ds)
        v = [np.broadcast_to(veval(x, env), (N,)) for x in y]
        for a in alphas(n):
            x = np.prod([v[i] ** a[i] for i in range(n)], axis=0)
            x = x[np.isfinite(x)]
            if len(x) < 0.99 * N:
                return ("undecided", f"{what}: the derived point is not defined for all draws", construct)
            m = float(np.mean(x))
            w = ref(a, env) if callable(ref) else ref[a]
            if not abs(m - w) <= 0.006:
                return ("diff", f"{what}: the moment of order {a} of the point in unit coordinates is {m:.4f}, that of the uniform distribution {w:.4f}", construct)
    return ("undecided", f"{what}: the law of the point is not recognised", construct)


def product_ref(groups):
    def f(a, env=None):
        return math.prod(ref_unit(k, tuple(a[i] for i in ix)) for ix, k in groups)
    return f


def uniform_on(y, groups, what, construct):
    """y is uniform on the product of the unit sets in `groups`."""
    b = blocks(y)
    if b is not None and {(ix, k) for ix, k, _ in b} == set(groups) and all(map(is_unit, b)):
        return ("proved", what, construct)
    if not draws_of(y):
        return ("diff", f"{what}: the point does not depend on any draw", construct)
    return refute(y, product_ref(groups), what, construct)


def distinct(rows, what, construct):
    seen = {}
    for k, row in enumerate(rows):
        for a in draws_of(row):
            if a in seen and seen[a] != k:
                return ("diff", f"{what}: points {seen[a]} and {k} share the draw {ATOMS[a].name}", construct)
            seen[a] = k
    return ("proved", f"{what}: no two points share a draw", construct)


def conditioned(C, ds):
    """A branch of the trace depends on the given draws."""
    return any(batoms(c) & ds for c in C.assume() if isinstance(c, B))


def check(C):
    items = []
    deep = C.thorough
    SHP = [None, 1, 2, (2,), (2, 2)] + ([3, (3, 1), (1, 2, 2)] if deep else [])

    def gen():
        return C.I.make_gen(("arg", "rng"))

    def args(shp):
        return {} if shp is None else {"shape": shp}

    def add_(rule, construct, f, **sc):
        items.append((rule, construct, f, sc))

    # ------------------------------------------------------------- direct samplers
    def direct(construct, label, mk, norm, groups, n=3, shapes=SHP, meth="random_points"):
        """norm(spec, p): coordinates in which the set is the product of `groups`."""
        for shp in shapes:
            def f(shp=shp):
                s = mk() if mk else None
                if s is None:
                    name, kw = construct, {"dim": meth}
                    r = np_obj(C.call(name, rng=gen(), **kw, **args(shp)))
                else:
                    r = np_obj(C.meth(s.obj, meth, rng=gen(), **args(shp)))
                rows = r.reshape(-1, n)
                what = f"{label}({'' if shp is None else shp})"
                if len(rows) == 0:
                    yield ("diff", f"{what}: no points", construct)
                    return
                for k, p in enumerate(rows):
                    y = norm(s, p)
                    if conditioned(C, draws_of(y)):
                        yield ("undecided", f"{what}: the trace depends on the draws of point {k}", construct)
                    else:
                        yield uniform_on(y, groups, f"{what}: point {k}", construct)
                yield distinct(rows, what, construct)
            add_("uniform", construct, f)

    def scaled(h):
        return lambda s, p: [red(x) if R(k).is_zero() else red(R(x) / R(k)) for x, k in zip(s.pose.local(p), h(s))]

    IV = tuple(((i,), "interval") for i in range(3))
    for pose in POSES if deep else ("generic", "default", "aligned"):
        direct("Box.random_points", f"box {pose}", lambda pose=pose: box(C, pose), scaled(lambda s: s.h), IV)
        direct("Cylinder.random_points", f"cylinder {pose}", lambda pose=pose: cylinder(C, pose), scaled(lambda s: [s.radius, s.radius, s.length / 2]), (((0, 1), "ball"), ((2,), "interval")))
        for n in (1, 2, 3, 4) if deep else (1, 2, 3):
            direct("Ellipsoid.random_points", f"ellipsoid of dimension {n} {pose}", lambda pose=pose, n=n: ellipsoid(C, pose, n=n), scaled(lambda s: s.h), ((tuple(range(n)), "ball"),) if n > 1 else IV[:1], n=n)
    for d in (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4):
        plain = lambda s, p: [red(x) for x in p]
        direct("random.random_points_in_ball", f"ball of dimension {d}", None, plain, ((tuple(range(d)), "ball"),) if d > 1 else IV[:1], n=d, meth=d)
        direct("random.random_points_on_hypersphere", f"sphere in dimension {d}", None, plain, ((tuple(range(d)), "sphere"),), n=d, meth=d - 1)

    # flat boxes: uniform in the remaining coordinates
    for k in (0, 1, 2):
        def f(k=k):
            s = box(C, "generic", h=[Z if i == k else C.pos(f"h{i}") for i in range(3)])
            p = np_obj(C.meth(s.obj, "random_points", rng=gen()))
            q = s.pose.local(p)
            yield C.same(red(q[k]), Z, f"flat box: coordinate {k}", "Box.random_points")
            ix = [i for i in range(3) if i != k]
            yield uniform_on([red(R(q[i]) / R(s.h[i])) for i in ix], (((0,), "interval"), ((1,), "interval")), f"box flat along {k}", "Box.random_points")
        add_("uniform", "Box.random_points", f)

    # ------------------------------------------------------------- mixtures: faces and edges
    def pattern(s, p):
        """Fixed coordinates of a sample of a box (in units of the extents) and whether
        the others are uniform; None if the law is not recognised."""
        y = [red(R(x) / R(h)) for x, h in zip(s.pose.local(p), s.h)]
        b = blocks(y)
        if b is None:
            return None
        fixed = [None] * 3
        for ix, k, v in b:
            if k == "point" and v.is_const() and abs(v.value()) == 1 and len(ix) == 1:
                fixed[ix[0]] = int(v.value())
            elif k == "interval" and is_unit((ix, k, v)):
                pass
            else:
                return ("bad", ix, k, v)
        return tuple(fixed)

    def probs():
        recs = [r for r in C.I.records if isinstance(r, tuple) and r and r[0] in ("multinomial", "choice")]
        return recs

    def mixture(meth, nfixed, ncat, weight, pose):
        construct = f"Box.{meth}"

        def one(n, counts, order, ints=None):
            C.start(counts=counts, order=order, integers=ints) if False else None
            sc = C.I.scenario
            sc["counts"], sc["order"], sc["integers"] = counts, order, ints
            s = box(C, pose)
            C.I.records[:] = [r for r in C.I.records if not (isinstance(r, tuple) and r and r[0] in ("multinomial", "choice"))]
            r = np_obj(C.meth(s.obj, meth, rng=gen(), shape=n))
            return s, r.reshape(-1, 3), probs()

        def weights():
            s, rows, rec = one(1, lambda n, k: [n] + [0] * (k - 1), "keep", lambda lo, hi, pos: lo)
            if len(rec) != 1:
                yield ("undecided", f"{meth}: {len(rec)} discrete draws with given probabilities", construct)
                return
            K = len(rec[0][1].a)
            if conditioned(C, draws_of(rows[0])):
                yield ("undecided", f"{meth}: the trace depends on the draws of the point", construct)
                return
            tot, bad = {}, None
            for k in range(K):
                s, rows, rec = one(2, lambda n, m, k=k: [n if i == k else 0 for i in range(m)], "keep", lambda lo, hi, pos, k=k: min(lo + k, hi))
                pv = R(rec[0][1].a[k])
                yield distinct(rows, f"box {pose} {meth}, part {k}", construct)
                for j, p in enumerate(rows):
                    f = pattern(s, p)
                    if f is None:
                        bad = ("undecided", f"{meth}: the law of a point in part {k} is not recognised", construct)
                    elif f[0] == "bad":
                        bad = ("diff", f"box {pose} {meth}: in part {k} the coordinates {f[1]} are not uniform between the ends ({f[2]}: {str(f[3])[:80]})", construct)
                    elif 3 - f.count(None) != nfixed:
                        bad = ("diff", f"box {pose} {meth}: part {k} fixes {3 - f.count(None)} coordinates, expected {nfixed}", construct)
                    elif j == 0:
                        tot[f] = tot.get(f, Z) + pv
                    elif f not in tot:
                        bad = ("diff", f"box {pose} {meth}: points of part {k} lie on different parts", construct)
                    if bad:
                        yield bad
                        return
                    yield ("proved", f"box {pose} {meth}: point {j} of part {k} is uniform on it", construct)
            total = sum((weight(s, f) for f in itertools.product((None, 1, -1), repeat=3) if 3 - f.count(None) == nfixed), Z)
            for f in itertools.product((None, 1, -1), repeat=3):
                if 3 - f.count(None) == nfixed:
                    yield C.same(tot.get(f, Z), weight(s, f) / total, f"box {pose} {meth}: probability of the part where the coordinates are {f}", construct)

        def exchange():
            n = 4
            cnt = lambda m, k: [1 if i < m else 0 for i in range(k)]
            got = []
            for order in ("keep", "reverse"):
                s, rows, rec = one(n, cnt, order)
                if not any(r[0] == "multinomial" for r in rec):
                    yield ("undecided", f"{meth}: parts are not allocated by counts", construct)
                    return
                ds = draws_of([x for row in rows for x in row])
                if conditioned(C, ds):
                    yield ("undecided", f"{meth}: the trace depends on draws", construct)
                    return
                got.append([pattern(s, p) for p in rows])
            for k in range(n):
                if got[0][k] is None or got[1][k] is None:
                    yield ("undecided", f"{meth}: part of point {k}", construct)
                elif got[0][k] == got[1][k]:
                    yield ("diff", f"box {pose} {meth}: point {k} always lies on the part its position in the allocation dictates; the points are not permuted", construct)
                else:
                    yield ("proved", f"box {pose} {meth}: the part of point {k} is permuted", construct)

        add_("mixture", construct, weights)
        add_("permuted", construct, exchange)

    def size(s, f):
        r = Rat.const(1)
        for i, x in enumerate(f):
            if x is None:
                r = r * 2 * R(s.h[i])
        return r

    for pose in ("generic", "default"):
        mixture("random_points_on_surface", 1, 6, size, pose)
        mixture("random_points_on_edges", 2, 12, size, pose)

    # ------------------------------------------------------------- surface of an ellipsoid
    def surf(n, pose, shp):
        construct = "Ellipsoid.random_points_on_surface"

        def f():
            tests = []

            def decide(t, *_):
                if not isinstance(t, B):
                    return None
                def settle(t):
                    if isinstance(t, bool):
                        return t
                    if t.op in ("and", "or"):
                        v = [settle(x) for x in t.args]
                        bad = t.op == "or"
                        return bad if bad in v else None if None in v else not bad
                    if t.op == "not":
                        v = settle(t.args[0])
                        return None if v is None else not v
                    if t.op != "cmp" or isinstance(t.args[1], float):
                        return None
                    d = R(t.args[1])
                    ds = draws(d)
                    u = [a for a in d.atoms() if a in ds and law(a) == "u"]
                    if not ds or len(u) != 1:
                        return None
                    c = alg.coeff(d, u[0])
                    if c is None or u[0] in draws(c[0]) | draws(c[1]):
                        c = None
                    tests.append((ds - {u[0]}, u[0], c, d))
                    if c is None:
                        # accepted: the side of the small values of the draw
                        env = base_env([d], 5)
                        env.update({a: 0.7 for a in ds})
                        env[u[0]] = float(ATOMS[u[0]].lo) + 1e-6
                        return bool(np.all(veval(d, env) <= 0))
                    # accepted: the side on which small values of the draw are
                    return True if alg.is_pos(c[0]) else False if alg.is_pos(-c[0]) else None
                return settle(t)

            C.I.scenario["decide"] = decide
            s = ellipsoid(C, pose, n=n)
            rows = np_obj(C.meth(s.obj, "random_points_on_surface", rng=gen(), **args(shp))).reshape(-1, n)
            what = f"ellipsoid of dimension {n} {pose} surface({'' if shp is None else shp})"
            yield distinct(rows, what, construct)
            for k, p in enumerate(rows):
                y = [red(R(x) / R(h)) for x, h in zip(s.pose.local(p), s.h)]
                yield uniform_on(y, ((tuple(range(n)), "sphere"),), f"{what}: direction of candidate {k}", construct)
                ds = draws_of(y)
                mine = [t for t in tests if t[0] & ds]
                if not mine:
                    if conditioned(C, ds):
                        yield ("undecided", f"{what}: acceptance test of point {k} is not recognised", construct)
                    else:
                        yield ("diff", f"{what}: point {k} is returned without an acceptance test; directions drawn uniformly are not uniform on the surface", construct)
                    continue
                ids = {(t[1], R(t[3]).fp()) for t in mine}
                if len(ids) != 1:
                    yield ("undecided", f"{what}: several acceptance tests of point {k}", construct)
                    continue
                t = mine[0]
                A = ATOMS[t[1]]
                if t[2] is None:
                    # probability of acceptance for several directions, by quadrature over the draw
                    vals = []
                    for sd in range(12):
                        env = base_env([t[3], *y, *s.h], 3)
                        rnd = random.Random(sd)
                        env.update({a: rnd.gauss(0, 1) for a in ds | t[0]})
                        e2 = dict(env)
                        e2[t[1]] = float(A.lo) + (float(A.hi) - float(A.lo)) * (np.arange(N) + 0.5) / N
                        d = np.broadcast_to(veval(t[3], e2), (N,))
                        small = d[0] <= 0
                        pr = float(np.mean((d <= 0) == small))
                        yv = [float(veval(x, dict(env))) for x in y]
                        hv = [float(veval(x, dict(env))) for x in s.h]
                        if pr < 0.999:
                            vals.append(pr / math.sqrt(sum((a / b) ** 2 for a, b in zip(yv, hv))))
                    if len(vals) >= 3 and np.std(vals) > 0.01 * np.mean(vals):
                        yield ("diff", f"{what}: the acceptance probability of point {k} is not proportional to the area element", construct)
                    else:
                        yield ("undecided", f"{what}: acceptance probability of point {k}", construct)
                    continue
                g = red((-t[2][1] / t[2][0] - R(A.lo)) / R(A.hi - A.lo))
                want = red(sum((R(x) / R(h)) ** 2 for x, h in zip(y, s.h)))
                K = red(g * g / want)
                if not free(K):
                    # is the ratio really different for different directions?
                    vals = []
                    env = draw_env(base_env([K], 3), draws(K))
                    v = np.broadcast_to(veval(K, env), (N,))
                    if np.isfinite(v).all() and v.std() > 1e-6 * abs(v).mean():
                        yield ("diff", f"{what}: the acceptance probability of point {k} is not proportional to the area element", construct)
                    else:
                        yield ("undecided", f"{what}: acceptance probability of point {k}", construct)
                    continue
                yield ("proved", f"{what}: acceptance probability of point {k} is proportional to the area element", construct)
                for i in range(n):
                    lab = f"{what}: acceptance probability of point {k} is at most one in direction {i}"
                    v = C.nonneg(R(s.h[i]) ** 2 - K, lab, construct)
                    yield v if v[0] == "proved" else C.nonneg(R(s.h[i]) - alg.sqrt(K), lab, construct)
        add_("accepted", construct, f)

    for n, pose, shp in ((2, "generic", 1), (3, "generic", None), (3, "default", 2), (3, "aligned", (2, 2)), (2, "default", 3)):
        surf(n, pose, shp)

    # ------------------------------------------------------------- rejection
    def rejected(construct, label, call, shapes, norm, need, ref, shp):
        """Candidates are uniform on a set that covers the shape; accepted by membership."""
        def f():
            s = shapes()
            tested = set()

            def hook(I, f_, vals):
                if f_.qual.rsplit(".", 1)[-1] == "contains" and any(vals.get("self") is x for x in s["objs"]):
                    a = np_obj(vals.get("points", vals.get("point")))
                    rs = a.reshape(-1, a.shape[-1])
                    tested.update(draws_of(x) for x in rs)
                    return (True if a.ndim == 1 else Arr(np.array([True] * len(rs), dtype=object), "b"),)
                return None
            C.I.scenario["call"] = hook
            rows = np_obj(call(s, shp)).reshape(-1, 3)
            what = f"{label}({'' if shp is None else shp})"
            yield distinct(rows, what, construct)
            for k, p in enumerate(rows):
                q = [red(x) for x in norm(s, p)]
                ds = draws_of(q)
                if ds not in tested:
                    if conditioned(C, ds):
                        yield ("undecided", f"{what}: acceptance test of point {k} is not recognised", construct)
                    elif ref is None:
                        yield ("diff", f"{what}: point {k} is returned without a membership test", construct)
                    else:
                        yield refute([R(x) / R(e) for x, e in zip(q, need(s))], ref(s), f"{what}: point {k}, returned without a membership test", construct)
                    continue
                b = blocks(q)
                if b is None:
                    yield refute_region(s, q, need(s), ref, f"{what}: candidate {k}", construct)
                    continue
                e = need(s)
                for ix, kind, v in b:
                    if kind == "interval":
                        lo, hi = v if not alg.is_pos(R(v[0]) - R(v[1])) else v[::-1]
                        for side, x in ((1, R(hi)), (-1, -R(lo))):
                            yield C.nonneg(x - R(e[ix[0]]), f"{what}: candidates for point {k} reach the end of the shape along axis {side * (ix[0] + 1)}", construct)
                    elif kind == "ball" and ix == (0, 1):
                        yield C.nonneg(R(v) - R(e[0]) ** 2, f"{what}: candidates for point {k} reach the boundary across the axis", construct)
                    else:
                        yield ("diff" if kind in ("point", "sphere") else "undecided", f"{what}: candidates for point {k} are confined to a {kind}", construct)
        add_("candidates", construct, f)

    def refute_region(s, q, e, ref, what, construct):
        """The candidates that lie in the shape must be uniform on it."""
        y = [R(x) / R(k) for x, k in zip(q, e)]
        if ref is None:
            return refute(y, product_ref(IV), what, construct)
        ds = draws_of(y)
        if len(ds) > 12:
            return ("undecided", f"{what}: too many draws", construct)
        ref = ref(s)
        for seed in (1, 2):
            env = draw_env(base_env([*y, *e, s["spec"].length], seed), ds)
            v = [np.broadcast_to(veval(x, env), (N,)) for x in y]
            Ln, rad = (float(veval(x, env)) for x in (s["spec"].length, s["spec"].radius))
            w = [v[i] * float(veval(e[i], env)) for i in range(3)]
            ins = w[0] ** 2 + w[1] ** 2 + np.maximum(np.abs(w[2]) - Ln / 2, 0) ** 2 <= rad**2
            if ins.sum() < N / 8:
                continue
            for a in alphas(3):
                m = float(np.mean(np.prod([v[i][ins] ** a[i] for i in range(3)], axis=0)))
                t = ref(a, env)
                if abs(m - t) > 0.02:
                    return ("diff", f"{what}: the moment of order {a} of the accepted points in unit coordinates is {m:.4f}, that of the uniform distribution {t:.4f}", construct)
        return ("undecided", f"{what}: the law is not recognised", construct)

    def caps_shapes(pose):
        def mk():
            s = capsule(C, pose)
            return {"objs": [s.obj], "spec": s}
        return mk

    def caps_ref(st):
        s = st["spec"]

        def f(a, env):
            if any(x % 2 for x in a):
                return 0.0
            Ln, r = alg.evalf(s.length, dict(env)), alg.evalf(s.radius, dict(env))
            zs = np.linspace(-1, 1, 4001)[:-1] + 1 / 4000
            z = zs * (Ln / 2 + r)
            over = np.maximum(np.abs(z) - Ln / 2, 0)
            rho2 = (r * r - over**2) / r**2
            w = rho2
            k = a[0] + a[1]
            disk = ref_unit("ball", (a[0], a[1])) if k else 1.0
            return float(np.sum(w * disk * rho2 ** (k / 2) * zs ** a[2]) / np.sum(w))
        return f

    for pose in ("generic", "default"):
        for shp in (None, 2, (2, 2)):
            rejected("Capsule.random_points", f"capsule {pose}", lambda s, shp: C.meth(s["spec"].obj, "random_points", rng=gen(), **args(shp)), caps_shapes(pose),
                     lambda s, p: s["spec"].pose.local(p), lambda s: [s["spec"].radius, s["spec"].radius, s["spec"].length / 2 + s["spec"].radius], caps_ref, shp)

    def two():
        bb = box(C, "generic", tag="3")
        return {"objs": [ellipsoid(C, "aligned", tag="1").obj, cylinder(C, "aligned", tag="2").obj], "spec": bb}

    for shp in (1, 2, (2, 2)):
        rejected("random.rejection_sample", "rejection sampling in a box", lambda s, shp: C.call("random.rejection_sample", s["objs"], s["spec"].obj, shp, rng=gen()), two,
                 lambda s, p: s["spec"].pose.local(p), lambda s: [R(x) for x in s["spec"].h], None, shp)

    def one(it):
        rule, construct, f, sc = it
        C.run(rule, construct, f, limit=4, special=False, **sc)

    C.parallel(items, one)
