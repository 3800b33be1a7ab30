"""Provenance analysis: every draw recorded along the analysed traces of an operation is
traced to the generator it was made from.  With a generator passed in, every draw must
come from that generator; with a seed, every draw from one generator made from that
seed; an operation without a random argument must not draw, read a clock or touch global
random state.  Hidden state (attributes, module variables, class attributes and mutable
defaults written by a call) is tracked; where a call leaves some, results with and
without earlier calls are compared."""
from ..core import *
from ..catalog import INST, ops, scenario, snapshot, leaf
from ..interp import Func, PyClass, PyObj, Prop, ClassM, StaticM, Arr, Native
from .. import alg, catalog

LEVEL = "other"
RULE = "for each call with rng=g every draw event has provenance g and no generator is created; with rng=seed all draws have the provenance of the single generator created from that seed; without a random argument there is no random, clock or global event"
ASSUMPTIONS = ["solver results are deterministic functions of the problem"]


def bad_events(evs, allow_seed=None):
    out = []
    nseed = 0
    for e in evs:
        if e[0] == "fresh":
            out.append(f"creates an unseeded generator at {e[2]} in {e[3]}")
        elif e[0] == "global":
            out.append(f"uses global random state ({e[1]}) at {e[2]} in {e[3]}")
        elif e[0] == "clock":
            out.append(f"reads the clock at {e[2]} in {e[3]}")
        elif e[0] == "foreign":
            out.append(f"seeds a generator from {e[1]} at {e[2]} in {e[3]}")
        elif e[0] == "seeded":
            nseed += 1
            if allow_seed is None:
                out.append(f"creates another generator from {e[4]} at {e[2]} in {e[3]}")
            elif e[1] != allow_seed:
                out.append(f"seeds a generator with {e[4]}, not with the seed passed, at {e[2]} in {e[3]}")
    return out, nseed


def gens(evs):
    """(generator identity, position) of the draws."""
    return [(e[1], e[5]) for e in evs if e[0] == "draw"]


def check(C):
    todo, skipped = ops(C)
    limit = 24 if C.thorough else 6

    def one(op):
        rnd = "rng" in op.args
        forms = ["generator", "seed", "zero"] if rnd else ["none"]
        if op.kind in ("op", "radd", "prop", "init"):
            forms = ["none"]
        for form in forms:
            def f():
                C.I.scenario.update(scenario(C))
                over = {}
                seed = None
                g = None
                if form == "generator":
                    g = C.I.make_gen(("caller", 0))
                    over["rng"] = lambda: g
                elif form == "seed":
                    seed = C.sym("seed", 0, unit=ONE, integer=True)
                    over["rng"] = lambda: seed
                elif form == "zero":
                    over["rng"] = lambda: 0
                thunk, ext = op.prepare(C, **over)
                n0 = len(C.I.rng_events)
                end = "returns"
                try:
                    thunk()
                except Raised as e:
                    end = f"raises {e.kind}"
                except Undecided as e:
                    # what was drawn up to there has happened
                    if "does not settle" not in str(e):
                        raise
                    end = "is cut at the loop bound"
                evs = C.I.rng_events[n0:]
                if form == "none":
                    bad, _ = bad_events(evs)
                    bad += [f"draws at {e[3]} in {e[4]}" for e in evs if e[0] == "draw"]
                    if "rng" in allparams(op):
                        bad = [b for b in bad if "unseeded" not in b and "draws" not in b]
                    yield ("diff", f"{op.label}: {bad[0]}") if bad else ("proved", f"{op.label}: no random or clock event on a trace that {end}")
                    return
                dr = gens(evs)
                if form == "generator":
                    bad, _ = bad_events(evs)
                    bad += [f"draws from {p} at {e[3]} in {e[4]}" for e in evs if e[0] == "draw" for p in [e[1]] if p != g.prov and p[0] != "spawn"]
                    if not bad and dr and not getattr(g, "pos", 1):
                        bad.append("does not advance the generator")
                    if not dr and end == "returns":
                        bad.append("draws nothing from the generator passed")
                    yield ("diff", f"{op.label}: with a generator, {bad[0]}") if bad else ("proved", f"{op.label}: {len(dr)} draws, all from the generator passed")
                    return
                want = ("seed", seed.fp()) if form == "seed" else ("seed", "0")
                bad, ns = bad_events(evs, want)
                if not bad and ns > 1:
                    # separate copies of one seed that are both drawn from
                    twice = [x for x in dr if dr.count(x) > 1]
                    if twice:
                        e = [e for e in evs if e[0] == "seeded"][1]
                        bad.append(f"draws from separately re-seeded copies of the seed, the second made at {e[2]} in {e[3]}")
                if not dr and end == "returns":
                    bad.append("draws nothing from the seed passed")
                yield ("diff", f"{op.label}: with a seed, {bad[0]}") if bad else ("proved", f"{op.label}: {len(dr)} draws from one generator of the seed passed")

            C.run("randomness-provenance", op.construct, f, limit=limit, flip=lambda d: True)

    def allparams(op):
        a = op.func.node.args
        return [x.arg for x in a.args + a.kwonlyargs + a.posonlyargs]

    C.parallel(todo, one)
    hidden(C, todo)
    C.extra = {"operations_analysed": len(todo), "operations_skipped": skipped}


# ---------------------------------------------------------------- hidden state
def module_state(C):
    """Content of module variables, class attributes and mutable defaults."""
    out = {}
    for mn, mod in C.I.modules.items():
        for k, v in mod.scope.vars.items():
            visit_state(C, f"{mn}.{k}", v, out, mn)
    return out


def visit_state(C, path, v, out, mn):
    if isinstance(v, Func):
        if getattr(v, "mod", None) is not None and v.mod.name != mn:
            return
        for i, d in enumerate(list(v.defaults or []) + list((v.kwdefaults or {}).values())):
            if isinstance(d, (list, dict, set, Arr, PyObj)):
                snapshot(C, d if not isinstance(d, set) else sorted(map(repr, d)), f"{path} default {i}", out)
        snapshot(C, v.attrs, f"{path} attributes", out)
    elif getattr(v, "_cache", None) is not None:
        out[path + " cache"] = len(v._cache)
    elif isinstance(v, PyClass):
        if v.mod is None or v.mod.name != mn:
            return
        for k, x in v.ns.items():
            x = x.fget if isinstance(x, Prop) else x.f if isinstance(x, (ClassM, StaticM)) else x
            visit_state(C, f"{path}.{k}", x, out, mn)
    elif isinstance(v, (list, dict, Arr, PyObj, int, Rat, str, bool, float, type(None))):
        snapshot(C, v, path, out)
    elif isinstance(v, set):
        out[path] = tuple(sorted(map(repr, v)))


def hidden(C, todo):
    """Does any operation leave state behind that a later call could read?  Where one
    does, results of the operations concerned are compared with and without it."""
    def one(op):
        def f():
            with newpackage(C):
                thunk, ext = op.prepare(C)
                m0 = module_state(C)
                s0 = {p: snapshot(C, v, p) for p, v in ext.items()}
                try:
                    thunk()
                except Raised:
                    pass
                m1 = module_state(C)
                s1 = {p: snapshot(C, v, p) for p, v in ext.items()}
            d = [k for k in set(m0) | set(m1) if m0.get(k) != m1.get(k)]
            d += [k for p in ext for k in set(s1[p]) - set(s0[p]) if isinstance(ext[p], PyObj)]
            if d:
                yield ("proved", f"{op.label}: writes {'; '.join(sorted(d)[:3])}, compared below")
            else:
                yield ("proved", f"{op.label}: leaves no state behind that a later call could read")

        C.run("hidden-state", op.construct, f, limit=2)

    n0 = len(C.results)
    C.parallel(todo, one)
    writers = {}
    for r in C.results[n0:]:
        if ": writes " in r["detail"]:
            lab, w = r["detail"].split(": writes ", 1)
            writers.setdefault(r["construct"], {})[lab] = w.split(", compared")[0]
    name = lambda op: C.where(op.construct)
    cls = {}
    for op in todo:
        for w in writers.get(name(op), {}).values():
            if w.startswith("self."):
                cls[op.cls] = w
    seen, second = set(), []
    for op in todo:
        w = writers.get(name(op), {}).get(op.label)
        key = (op.construct, op.inst, w)
        if w is None and op.kind != "prop":
            w = cls.get(op.cls)
        if w and key not in seen:
            seen.add(key)
            second.append((op, w))

    def two(x):
        op, w = x
        C.run("hidden-state", op.construct, lambda: compare(C, op, todo, [w]), limit=1)

    C.parallel(second, two)


def warm(C, op, todo, ext):
    """Earlier calls: the operation itself on other operands, and every operation
    without further arguments on the same object."""
    o = ext.get("self")
    if o is not None:
        for k in todo:
            if k.cls == op.cls and k.inst == op.inst and k.kind == "prop":
                try:
                    C.attr(o, k.name)
                except (Raised, Undecided):
                    pass
            elif k.cls == op.cls and k.inst == op.inst and k.kind == "method" and not k.args and "random" not in k.name:
                try:
                    C.meth(o, k.name)
                except (Raised, Undecided):
                    pass


def observe(C, r, todo):
    """Result with everything its properties and argument-less operations tell;
    what comes out of a solver is not compared."""
    def solved():
        return sum(1 for x in C.I.records if x[0] in ("solve", "eigh", "svd"))

    def keep(d):
        return {k: v for k, v in d.items() if "._" not in k and not (isinstance(v, tuple) and v and v[0] == "id")}

    out = {}
    if not isinstance(r, Native) and not solved():
        out = keep(snapshot(C, r, "result"))
    if isinstance(r, PyObj) and not solved():
        for k in todo:
            if k.cls == r.cls.name and not k.args and k.kind in ("prop", "method") and "random" not in k.name:
                n = solved()
                try:
                    v = C.attr(r, k.name) if k.kind == "prop" else C.meth(r, k.name)
                except (Raised, Undecided):
                    continue
                if solved() == n:
                    out.update(keep(snapshot(C, v, f"result.{k.name}")))
    return out


def compare(C, op, todo, keys):
    """Results of the operation with and without earlier calls."""
    others = [k for k in todo if k.construct == op.construct and k is not op][:3]
    op.prepare(C)
    mark = len(alg.ATOMS) - 1
    a = fresh(C, op, todo, False, others, mark)
    b = fresh(C, op, todo, True, others, mark)
    if a is None or b is None:
        yield ("undecided", f"{op.label}: {keys[0]} is written, effect on later calls not determined")
        return
    d = [k for k in a if k in b and a[k] != b[k]]
    if d:
        yield ("diff", f"{op.label}: the call depends on earlier calls through {keys[0]}: {d[0]} differs after other operations were used first")
    else:
        yield ("proved", f"{op.label}: {keys[0]} is written, results with and without earlier calls agree")


class newpackage:
    """A newly loaded package, as in a new process."""

    def __init__(self, C):
        self.C = C

    def __enter__(self):
        C = self.C
        self.old, self.m = C.I, C.m
        new = Interp(os.path.join(C.repo, "src"))
        new.prefix, new.decisions, new.decided = self.old.prefix, self.old.decisions, self.old.decided
        C.I = new
        C.m = new.load("rigeo")
        C.I.scenario.update(scenario(C))

    def __exit__(self, *a):
        C = self.C
        C.I, C.m = self.old, self.m
        PyObj._interp = self.old


def fresh(C, op, todo, warmed, others, mark):
    """Observation on a newly loaded package."""
    older = set()
    try:
        with newpackage(C):
            if warmed:
                # the same operation on differently posed and sized operands
                swap = {k: v for k, v in C.memo.items()}
                C.memo.clear()
                for k in [op] + others:
                    try:
                        n0 = len(alg.ATOMS)
                        t, e = k.prepare(C)
                        older |= set(range(n0, len(alg.ATOMS)))
                        warm(C, k, todo, e)
                        r0 = t()
                        if isinstance(r0, PyObj):
                            observe(C, r0, todo)
                    except (Raised, Undecided):
                        pass
                C.memo.clear()
                C.memo.update(swap)
            t, e = op.prepare(C)
            if warmed:
                warm(C, op, todo, e)
            del C.I.records[:]
            r = t()
            catalog.KNOWN[0] = (mark, older)
            return observe(C, r, todo)
    except (Raised, Undecided):
        return None
    finally:
        catalog.KNOWN[0] = None


import os  # noqa: E402

from ..interp import Interp  # noqa: E402
