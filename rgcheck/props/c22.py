"""The rejection samplers are evaluated under every acceptance pattern of bounded length:
the outcome of each membership or acceptance test is fixed by the pattern and the
candidate it is made for, recognised by the random draws it consists of.  On return every
slot must hold an accepted candidate and no candidate twice; a sampler whose tries are
limited must fail with a value error once they are used up and never before."""
import itertools

from .. import alg
from ..alg import ATOMS, R
from ..cond import B
from ..core import *
from ..interp import Arr, PyObj, Raised, Undecided
from ..build import *

LEVEL = "other"
RULE = "under every bounded acceptance pattern the output holds accepted candidates only, each once; ValueError exactly when the tries are used up"
ASSUMPTIONS = ["a candidate is identified by the random draws it consists of", "patterns longer than the bound behave like those within it"]


class TooMany(Exception):
    pass


def draws(x):
    return frozenset(a for a in alg.all_atoms(R(x)) if isinstance(ATOMS[a].info, dict) and "draw" in ATOMS[a].info)


def row_key(p):
    return frozenset().union(*map(draws, p)) if len(p) else frozenset()


class Candidates:
    """Candidates of one evaluation in the order in which they are tested."""

    def __init__(self, pattern, default):
        self.pattern, self.default = pattern, default
        self.order, self.rows = {}, {}
        self.tries = 0

    def index(self, key):
        return self.order.setdefault(key, len(self.order))

    def outcome(self, key):
        i = self.index(key)
        return self.pattern[i] if i < len(self.pattern) else self.default


def dropped(C, cand, used):
    """An accepted candidate that was left out although more were drawn afterwards."""
    starts = sorted(e[5] for e in C.I.rng_events if e[0] == "draw")
    pos = lambda k: min(ATOMS[a].info["draw"][1] for a in k)
    batch = lambda k: sum(s <= pos(k) for s in starts)
    last = max(map(batch, used), default=0)
    for k, i in cand.order.items():
        if k not in used and cand.outcome(k) and batch(k) < last:
            return i
    return None


def fp(row):
    return tuple(R(x).fp() for x in row)


def verdict(C, r, n, cand, shape, label, construct):
    """Judge the returned array of n points."""
    a = np_obj(r)
    if a.shape not in shape:
        return [("diff", f"{label}: returns an array of shape {a.shape}", construct)]
    seen = {}
    for k, row in enumerate(a.reshape(-1, a.shape[-1])):
        key = row_key(row)
        if not key:
            return [("diff", f"{label}: slot {k} is never filled", construct)]
        if key not in cand.order:
            return [("diff", f"{label}: slot {k} holds no tested candidate", construct)]
        if not cand.outcome(key):
            return [("diff", f"{label}: slot {k} holds rejected candidate {cand.order[key]}", construct)]
        if key in cand.rows and fp(row) not in cand.rows[key]:
            return [("diff", f"{label}: slot {k} is not the candidate that was tested", construct)]
        if key in seen:
            return [("diff", f"{label}: slots {seen[key]} and {k} hold the same candidate", construct)]
        seen[key] = k
    i = dropped(C, cand, seen)
    if i is not None:
        return [("diff", f"{label}: accepted candidate {i} is dropped although slots were left", construct)]
    return [("proved", f"{label}: {n} slots hold distinct accepted candidates", construct)]


def check(C):
    items = []
    deep = C.thorough

    def gen():
        return C.I.make_gen(("arg", "rng"))

    def shape_of(shp):
        full = (shp,) if isinstance(shp, int) else tuple(shp)
        n = int(np.prod(full))
        return n, {(3,)} if shp == 1 else {(3,), (1, 3)} if shp == (1,) else {full + (3,)}

    # ------------------------------------------------------------- general sampler
    def membership(cand, shapes, bounding, limit):
        """Settle `contains` of the sampled shapes and count calls for candidates."""
        def hook(I, f, vals):
            me = vals.get("self")
            name = f.qual.rsplit(".", 1)[-1]
            if name == "random_points" and me is bounding:
                cand.tries += 1
                if cand.tries > limit:
                    raise TooMany()
                return None
            if name == "contains" and any(me is s for s in shapes):
                p = vals.get("points", vals.get("point"))
                a = np_obj(p)
                s = next(i for i, x in enumerate(shapes) if me is x)
                out = []
                for row in a.reshape(-1, a.shape[-1]):
                    k = row_key(row)
                    cand.rows.setdefault(k, set()).add(fp(row))
                    o = cand.outcome(k)
                    out.append(bool(o >> s & 1))
                return (out[0] if a.ndim == 1 else Arr(np.array(out, dtype=object), "b"),)
            return None
        return hook

    def rejection(shp, pattern, nshapes, label, default=None, max_tries=None, fails=None, bound="aligned"):
        construct = "random.rejection_sample"
        def f():
            n, shapes_ok = shape_of(shp)
            bb = box(C, bound, tag="3").obj
            ss = [ellipsoid(C, "aligned", tag="1").obj, box(C, "aligned", tag="2").obj][:nshapes]
            cand = Candidates(pattern, (1 << nshapes) - 1 if default is None else default)
            C.I.scenario["call"] = membership(cand, ss, bb, (max_tries or 40) + 3)
            kw = {} if max_tries is None else {"max_tries": max_tries}
            what = f"rejection_sample of {shp} from {nshapes} shapes, {label}"
            try:
                r = C.call("random.rejection_sample", ss, bb, shp, rng=gen(), **kw)
            except TooMany:
                return [("diff", f"{what}: asks for candidates more than {max_tries} times" if max_tries else f"{what}: does not end", construct)]
            except Raised as e:
                if fails and e.kind == "ValueError":
                    if cand.tries != max_tries:
                        return [("diff", f"{what}: gives up after {cand.tries} tries", construct)]
                    return [("proved", f"{what}: fails after {cand.tries} tries", construct)]
                return [("diff", f"{what}: raises {e.kind}: {e.msg}" + (", expected a ValueError" if fails else ""), construct)]
            if fails:
                return [("diff", f"{what}: returns although {n} candidates were not accepted", construct)]
            return verdict(C, r, n, cand, shapes_ok, what, construct)
        items.append((construct, "acceptance patterns" if not max_tries else "limited tries", f))

    for shp, ln in ((1, 4), (2, 6 if deep else 5), (3, 7 if deep else 6), ((2, 2), 6 if deep else 5), ((1,), 3)):
        for pat in itertools.product((0, 1), repeat=ln):
            rejection(shp, pat, 1, "pattern " + "".join(map(str, pat)))
    for shp, ln in ((1, 2), (2, 4 if deep else 3), (3, 4 if deep else 3)):
        for pat in itertools.product(range(4), repeat=ln):
            rejection(shp, pat, 2, "pattern " + "".join(map(str, pat)))
    for bound in ("generic", "default"):
        rejection(3, (0, 1, 0, 1, 1), 1, "pattern 01011", bound=bound)
    # tries are limited: candidates come in batches of what is still needed
    for mt in (1, 2, 3, 5):
        for shp in (1, 2):
            n = shp
            rejection(shp, (), 1, f"no candidate accepted in {mt} tries", default=0, max_tries=mt, fails=True)
            rejection(shp, (0,) * (n * (mt - 1)), 1, f"accepted in the last of {mt} tries", max_tries=mt)
            rejection(shp, (0,) * (n * mt), 1, f"accepted one try after {mt}", max_tries=mt, fails=True)
        rejection(2, (1,) + (0,) * 20, 1, f"one of two accepted in {mt} tries", max_tries=mt, fails=True, default=0)
        if mt > 1:
            rejection(2, (1, 0) + (0,) * (mt - 2), 1, f"second accepted in the last of {mt} tries", max_tries=mt)

    # the default limit is a positive whole number
    def f():
        fn = C.get("random.rejection_sample")
        d = C.I.bind(fn, [None, None, None], {}).get("max_tries")
        ok = isinstance(d, int) and not isinstance(d, bool) and d > 0 or isinstance(d, Rat) and d.is_const() and d.value() > 0
        return [("proved" if ok else "diff", f"the default number of tries is {d!r}", "random.rejection_sample")]
    items.append(("random.rejection_sample", "limited tries", f))

    # ------------------------------------------------------------- capsule
    def caps(shp, pattern):
        construct = "Capsule.random_points"
        def f():
            n, shapes_ok = shape_of(shp)
            o = capsule(C, "aligned").obj
            cand = Candidates(pattern, 1)
            C.I.scenario["call"] = membership(cand, [o], None, 50)
            what = f"capsule random_points({shp}), pattern " + "".join(map(str, pattern))
            return verdict(C, C.meth(o, "random_points", shp, rng=gen()), n, cand, shapes_ok, what, construct)
        items.append((construct, "acceptance patterns", f))

    for shp, ln in ((1, 3), (2, 4), ((2, 2), 4)):
        for pat in itertools.product((0, 1), repeat=ln):
            caps(shp, pat)

    # ------------------------------------------------------------- ellipsoid surface
    def normal(x):
        return frozenset(a for a in draws(x) if ATOMS[a].lo == -alg.INF)

    def surface_(shp, pattern, n, pose):
        construct = "Ellipsoid.random_points_on_surface"
        def f():
            s = ellipsoid(C, pose, n=n)
            cand = Candidates(pattern, 1)

            def leaf(t):
                """Outcome of one acceptance test: the uniform draw is at most the bound."""
                d = R(t.args[1]) if t.op == "cmp" else None
                if d is None or isinstance(t.args[1], float):
                    return None
                key, u = normal(d), [a for a in d.atoms() if a in draws(d) and ATOMS[a].lo == 0]
                if not key or len(u) != 1:
                    return None
                c = alg.coeff(d, u[0])
                if c is None:
                    return None
                ok = bool(cand.outcome(key))
                if alg.is_pos(c[0]):
                    return ok
                return not ok if alg.is_pos(-c[0]) else None

            def settle(t):
                if isinstance(t, bool):
                    return t
                if t.op in ("and", "or"):
                    v = [settle(x) for x in t.args]
                    bad = t.op == "or"
                    return bad if bad in v else None if None in v else not bad
                if t.op == "not":
                    v = settle(t.args[0])
                    return None if v is None else not v
                return leaf(t)

            C.I.scenario["decide"] = lambda t, *_: settle(t) if isinstance(t, B) else None
            r = np_obj(C.meth(s.obj, "random_points_on_surface", shp, rng=gen()))
            full = (shp,) if isinstance(shp, int) else tuple(shp)
            k = int(np.prod(full))
            ok = {(n,)} if shp == 1 else {(n,), (1, n)} if shp == (1,) else {full + (n,)}
            what = f"{n}-dimensional ellipsoid random_points_on_surface({shp}), pattern " + "".join(map(str, pattern))
            if r.shape not in ok:
                return [("diff", f"{what}: returns an array of shape {r.shape}", construct)]
            if not cand.order:
                return [("undecided", f"{what}: no acceptance test was recognised", construct)]
            seen = {}
            for i, row in enumerate(r.reshape(-1, n)):
                key = frozenset().union(*map(normal, row))
                if not key:
                    return [("diff", f"{what}: slot {i} is never filled", construct)]
                if key not in cand.order:
                    return [("diff", f"{what}: slot {i} holds no tested candidate", construct)]
                if not cand.outcome(key):
                    return [("diff", f"{what}: slot {i} holds rejected candidate {cand.order[key]}", construct)]
                if key in seen:
                    return [("diff", f"{what}: slots {seen[key]} and {i} hold the same candidate", construct)]
                seen[key] = i
            i = dropped(C, cand, seen)
            if i is not None:
                return [("diff", f"{what}: accepted candidate {i} is dropped although slots were left", construct)]
            return [("proved", f"{what}: {k} slots hold distinct accepted candidates", construct)]
        items.append((construct, "acceptance patterns", f))

    for shp, ln, n, pose in ((1, 4, 3, "default"), (2, 5 if deep else 4, 3, "default"), (3, 6 if deep else 5, 3, "default"), ((2, 2), 5, 3, "default"), (2, 3, 2, "generic"), (3, 4, 2, "default"), (2, 2, 3, "generic")):
        for pat in itertools.product((0, 1), repeat=ln):
            surface_(shp, pat, n, pose)

    def one(it):
        construct, rule, f = it
        C.run(rule, construct, f, limit=1, special=False)

    C.parallel(items, one)
