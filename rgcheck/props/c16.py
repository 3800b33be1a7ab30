"""Option flow, judged where an option takes effect and not where it is passed on.  Every
public operation is evaluated with an abstract token for each option it accepts.  The
solver handed to every solve, the conditioning of every rank decision, the tolerance of
every comparison between the object and an operand, the margin and scale in the generated
constraints, the size of the relaxation, the shape of the optimised ellipsoid and the
pruning of every polyhedron must be the caller's, also for values that are false in
Python, and the documented default when the caller passes none."""
from ..core import *
from ..core import batoms, bleaves
from ..catalog import Op, ops, scenario, params, SHAPES
from ..csets import flat, variable
from ..build import *
from .. import feas
from ..interp import PyObj, Arr
from ..cond import B
from math import comb

LEVEL = "other"
RULE = "the value observed at each sink (solver of a solve, rcond of a rank decision, tolerance of a comparison with an operand, margin/scale/order of generated constraints, symmetry of the optimised ellipsoid, removal of redundant rows) is the caller's option or, if none was passed, the documented default"
ASSUMPTIONS = ["operands are those of the catalogue in rgcheck/catalog.py", "a solver, tolerance or conditioning option has no effect other than at the listed sinks"]
TINY = Fraction(1, 10**5)


def leaves(v, seen=None):
    """Abstract numbers and conditions in a value."""
    seen = set() if seen is None else seen
    if isinstance(v, (B, Rat)):
        yield v
    elif isinstance(v, Arr):
        for x in v.a.reshape(-1):
            yield from leaves(x, seen)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from leaves(x, seen)
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, seen)
    elif isinstance(v, PyObj) and id(v) not in seen:
        seen.add(id(v))
        for x in v.attrs.values():
            yield from leaves(x, seen)


def atoms_of(v):
    out = set()
    for x in leaves(v):
        out |= batoms(x) if isinstance(x, B) else alg.all_atoms(x)
    return out


def comparisons(C, result, with_result=True):
    """Elementary comparisons of the trace and of the result."""
    conds = [x for x in leaves(result) if isinstance(x, B)] if with_result else []
    conds += [d[4] for d in C.I.decisions if d[3] != "hook" and isinstance(d[4], B)]
    for c in conds:
        yield from bleaves(c)


def tiny(cs):
    """Some coefficient is a small multiple of 1e-8 away from a whole multiple of another."""
    cs = sorted({abs(Fraction(c)) for c in cs if c})
    for i, a in enumerate(cs):
        for b in cs[: i + 1] + [Fraction(1)]:
            for k in (1, 2):
                q = k * a / b
                if 0 < abs(q - round(q)) < TINY:
                    return True
    return False


def hidden_tol(b):
    """A tolerance written as a constant in a comparison."""
    if b.op == "close":
        return R(b.args[3]).is_const() and tiny([R(b.args[3]).value()]) or not R(b.args[3]).is_const() and tiny(R(b.args[3]).num.t.values())
    if b.op == "cmp":
        return tiny(R(b.args[1]).num.t.values())
    return False


def solves(C):
    return [r[1] for r in C.I.records if r[0] == "solve" and isinstance(r[1], dict)]


def rconds(C):
    return [e for e in C.I.events if e[0] == "rcond"]


def constraints_of(v):
    if isinstance(v, (list, tuple)):
        return flat(v)
    if hasattr(v, "attrs") and "constraints" in getattr(v, "attrs", {}):
        return list(v.attrs["constraints"])
    return []


def con_atoms(cs):
    out = set()
    for c in cs:
        for x in c.expr.reshape(-1):
            if isinstance(x, Rat):
                out |= alg.all_atoms(x)
    return out


def check(C):
    todo, skipped = ops(C)
    # a named constructor of a class builds that class, not a subclass with other arguments
    todo = [o for o in todo if "defaults" not in o.label and not (o.kind == "class" and o.cls == "Box" and o.name in ("from_vertices", "from_halfspaces"))]
    jobs = []
    for op in todo:
        for p in op.args:
            if p in ("solver", "rcond", "tol", "eps", "scale", "sphere", "prune", "d", "W"):
                jobs.append((p, op))
    lim = 24 if C.thorough else 8

    def prep(op, **over):
        C.I.scenario.update(scenario(C))
        return op.prepare(C, **over)

    # ------------------------------------------------------------------ solver, rcond
    def at_sinks(op, get, opt, tok, same):
        def f():
            thunk, ext = prep(op, **{opt: tok})
            t = ext[opt]
            try:
                thunk()
            except Raised:
                yield ("proved", f"{op.label}: trace ends in an exception")
                return
            for where, got in get():
                if same(got, t):
                    yield ("proved", f"{op.label}: the {opt} passed by the caller reaches {where}")
                else:
                    yield ("diff", f"{op.label}: {where} uses {opt} {show_(got)}, not the caller's {show_(t)}")
            if not get():
                yield ("proved", f"{op.label}: no use of {opt} on this trace")

        return f

    def show_(v):
        return getattr(v, "name", None) or repr(v)

    def get_solver():
        return [(f"the solve at {r['where']}", r["solver"]) for r in solves(C)]

    def get_rcond():
        return [(f"{e[1]}", e[2]) for e in rconds(C)]

    def same_val(a, b):
        if a is b:
            return True
        if isinstance(a, (Rat, int, Fraction)) and isinstance(b, (Rat, int, Fraction)) and not isinstance(a, bool):
            return R(a).same(R(b))
        return False

    def solver_job(op):
        C.run("solver-reaches-solve", op.construct, at_sinks(op, get_solver, "solver", lambda: C.token("solver"), same_val), limit=lim)
        C.run("solver-default", op.construct, at_sinks(op, get_solver, "solver", lambda: None, same_val), limit=lim)

    def rcond_job(op):
        C.run("rcond-reaches-rank-decision", op.construct, at_sinks(op, get_rcond, "rcond", lambda: C.pos("rcond", ONE), dep), limit=lim)
        C.run("rcond-zero", op.construct, at_sinks(op, get_rcond, "rcond", lambda: Rat.const(0), zero), limit=lim)
        C.run("rcond-default", op.construct, at_sinks(op, get_rcond, "rcond", lambda: None, lambda a, b: a is None or small_or_none(a)), limit=lim)

    def small_or_none(a):
        return isinstance(a, Rat) and a.is_const()

    def dep(a, b):
        return isinstance(a, Rat) and bool(set(alg.all_atoms(b)) & set(alg.all_atoms(a)))

    def zero(a, b):
        return isinstance(a, (Rat, int, Fraction)) and R(a).is_zero()

    # ------------------------------------------------------------------ tolerance
    def operand_atoms(ext):
        out = set()
        for k, v in ext.items():
            if k not in ("self", "tol"):
                out |= atoms_of(v)
        return out

    def tol_job(op):
        ctor = op.cls in ("Polynomial",) or "self" not in ext_names(op)

        def f(val):
            def g():
                thunk, ext = prep(op, tol=lambda: val)
                mine, theirs = (atoms_of(ext["self"]) if "self" in ext else set()), operand_atoms(ext)
                try:
                    r = thunk()
                except Raised:
                    yield ("proved", f"{op.label}: trace ends in an exception")
                    return
                t = set(alg.all_atoms(val))
                uses, bad, n = False, [], 0
                for b in comparisons(C, r):
                    at = batoms(b)
                    n += 1
                    if at & t:
                        uses = True
                    elif at & theirs and (ctor or at & mine or not mine) and hidden_tol(b):
                        bad.append(b)
                if bad:
                    yield ("diff", f"{op.label}: with tol={'0' if not t else 'the caller value'} a comparison with the operand keeps its own tolerance: {repr(bad[0])[:110]}")
                elif t and not uses and not isinstance(r, bool) and n:
                    yield ("diff", f"{op.label}: the tolerance passed by the caller is in none of the {n} comparisons of the trace")
                elif t and not uses:
                    yield ("proved", f"{op.label}: the answer involves no comparison on this trace")
                else:
                    yield ("proved", f"{op.label}: {n} comparisons, tolerance the caller's")

            return g

        C.run("tol-reaches-comparisons", op.construct, f(C.pos("tol", ONE)), limit=lim, special=False)
        C.run("tol-zero", op.construct, f(Rat.const(0)), limit=lim, special=False)

    def ext_names(op):
        return ["self"] if op.kind not in ("function", "init", "class", "static") else []

    # ------------------------------------------------------------------ eps, scale, d, W
    def psd_margin(cs, J, e):
        """A constraint J - e*I psd, up to symmetrisation."""
        for c in cs:
            if c.op != "psd" or c.expr.shape != J.shape:
                continue
            d = sub(sub(c.expr, J), mul(eye(4), -R(e)))
            if all(R(x).is_zero() for x in emap(lambda v: v, (d + d.T)).reshape(-1)):
                return True
        return False

    def eps_job(op):
        def f():
            thunk, ext = prep(op, eps=lambda: C.pos("eps", ONE))
            e = ext["eps"]
            try:
                r = thunk()
            except Raised as ex:
                yield ("proved", f"{op.label}: trace ends in an exception")
                return
            cs = constraints_of(r)
            if isinstance(r, tuple) and len(r) == 2:
                cs = constraints_of(r[1])
            if cs:
                pv = ext.get("param_var", ext.get("J"))
                J = None
                if pv is not None:
                    a = np_obj(pv)
                    if a.shape == (4, 4):
                        J = a
                    else:
                        J = np_obj(C.call("pim_must_equal_vec", pv))
                if J is not None and psd_margin(cs, J, e):
                    yield ("proved", f"{op.label}: the pseudo-inertia matrix is kept eps above singular")
                elif not (con_atoms(cs) & set(alg.all_atoms(e))):
                    yield ("diff", f"{op.label}: none of the {len(cs)} generated constraints involves the margin eps")
                else:
                    yield ("undecided", f"{op.label}: eps enters the constraints in an unrecognised form")
                return
            at = set()
            for b in comparisons(C, r):
                at |= batoms(b)
            at |= atoms_of(r)
            if at & set(alg.all_atoms(e)):
                yield ("proved", f"{op.label}: eps decides the answer")
            elif isinstance(r, (bool, B)):
                yield ("diff", f"{op.label}: eps is in no comparison of the trace")
            else:
                yield ("undecided", f"{op.label}: no constraint list and no comparison returned")

        C.run("eps-reaches-constraints", op.construct, f, limit=lim, special=False)

    def scale_job(op):
        def f():
            thunk, ext = prep(op)
            try:
                r = thunk()
            except Raised:
                yield ("proved", f"{op.label}: trace ends in an exception")
                return
            cs = constraints_of(r)
            if con_atoms(cs) & set(alg.all_atoms(ext["scale"])):
                yield ("proved", f"{op.label}: the scale is part of the constraints")
            else:
                yield ("diff", f"{op.label}: none of the {len(cs)} generated constraints involves the scale")

        C.run("scale-reaches-constraints", op.construct, f, limit=lim, special=False)

    def d_job(op):
        if op.cls not in (*SHAPES, "RigidBody"):
            return

        def f():
            for d in (1, 2):
                n0 = len(C.I.variables)
                thunk, ext = prep(op, d=lambda: d)
                n0 = len(C.I.variables)
                try:
                    thunk()
                except Raised as e:
                    if e.kind == "NotImplementedError":
                        yield ("proved", f"{op.label}: announces that it is not implemented")
                        continue
                    raise
                got = sorted(v.shape[0] for v in C.I.variables[n0:] if len(v.shape) == 2)
                want = comb(3 + d, 3)
                if op.cls == "RigidBody":
                    n = sum(1 for s in ext["self"].attrs.get("shapes", []) if s.cls.name != "Ellipsoid")
                else:
                    n = 1
                if sum(x == want for x in got) >= n and (not n or max(got) == want):
                    yield ("proved", f"{op.label}: order {d} gives {n} moment matrices of size {want}")
                else:
                    yield ("diff", f"{op.label}: order {d} should give {n} moment matrices of size {want}, the matrix variables have sizes {got}")

        C.run("order-reaches-relaxation", op.construct, f, limit=2, special=False)

    def W_job(op):
        def f():
            thunk, ext = prep(op)
            r = thunk()
            yield ("proved" if atoms_of(r) & atoms_of(ext["W"]) == atoms_of(ext["W"]) else "diff", f"{op.label}: every weight is part of the result")
            thunk, _ = prep(op, W=lambda: C.eye(6))
            a = thunk()
            thunk, _ = prep(op, W=lambda: None)
            yield C.same(a, thunk(), f"{op.label}: no weight is the same as the identity")

        C.run("weight", op.construct, f, limit=2)

    # ------------------------------------------------------------------ sphere
    def round_(o):
        h = np_obj(C.attr(o, "half_extents"))
        return [C.same([x], [h[0]], f"half extents equal") for x in h[1:]] or [("proved", "one half extent")]

    def sphere_verdicts(label, r, on):
        out = []
        ps = [x["problem"] for x in solves(C)]
        for p in ps:
            st = feas.spherical(p)
            if st is None:
                out.append(("undecided", f"{label}: shape of the optimised matrix not recognised"))
            elif st == on:
                out.append(("proved", f"{label}: the program at {p.where} {'is restricted to' if on else 'is not restricted to'} spheres"))
            else:
                out.append(("diff", f"{label}: sphere={on} but the program solved {'is not restricted to' if on else 'is restricted to'} spheres"))
        if on and not ps:
            for o in r if isinstance(r, list) else [r]:
                for v in round_(o):
                    out.append((v[0], f"{label}: sphere=True, {v[1]}"))
        return out

    def sphere_job(op):
        def f(on):
            def g():
                thunk, ext = prep(op, sphere=lambda: on)
                try:
                    r = thunk()
                except Raised as e:
                    if e.kind == "NotImplementedError":
                        return
                    raise
                os_ = list(C.attr(r, "shapes")) if r.cls.name == "RigidBody" else r
                yield from sphere_verdicts(op.label, os_, on)

            return g

        C.run("sphere", op.construct, f(True), limit=lim, special=False)
        C.run("not-sphere", op.construct, f(False), limit=lim, special=False)

    # ------------------------------------------------------------------ prune
    def prune_job(op):
        def f(on):
            def g():
                o2 = op
                if on is None:
                    o2 = Op(op.cls, op.inst, op.name, op.kind, op.func, {p: v for p, v in op.args.items() if p != "prune"}, op.label + " without prune")
                thunk, ext = prep(o2, prune=lambda: on)
                r = thunk()
                k = [x for x in C.I.records if x[0] == "canonicalize"]
                if on and not k:
                    yield ("diff", f"{op.label}: prune=True but redundant rows are never removed")
                elif on:
                    yield ("proved", f"{op.label}: prune=True removes redundant rows")
                elif k:
                    yield ("diff", f"{o2.label}: redundant rows are removed although pruning was not requested")
                else:
                    src = ext.get("vertices")
                    if src is not None:
                        yield C.same(C.attr(r, "vertices"), src, f"{op.label}: prune=False keeps the vertices as given")
                    else:
                        yield C.same(C.attr(r, "A"), ext["A"], f"{op.label}: prune=False keeps the half spaces as given")

            return g

        C.run("prune", op.construct, f(True), limit=lim, special=False)
        C.run("no-prune", op.construct, f(False), limit=lim, special=False)
        C.run("no-prune", op.construct, f(None), limit=lim, special=False)

    fns = {"solver": solver_job, "rcond": rcond_job, "tol": tol_job, "eps": eps_job, "scale": scale_job, "d": d_job, "W": W_job, "sphere": sphere_job, "prune": prune_job}

    # bodies made of each kind of shape hand their options to every shape
    def body(kinds):
        mk = {"box": lambda: box(C, "generic").obj, "ellipsoid": lambda: ellipsoid(C, "generic", tag="e").obj, "cylinder": lambda: cylinder(C, "generic", tag="c").obj, "capsule": lambda: capsule(C, "generic", tag="k").obj, "poly": lambda: poly(C, 4, 4, 3).obj}
        return C.call("RigidBody", [mk[k]() for k in kinds], params(C))

    def body_job(kinds):
        def opts(on):
            def f():
                C.I.scenario.update(scenario(C))
                b = body(kinds)
                tok = C.token("solver")
                r = C.meth(b, "mbes", sphere=on, solver=tok)
                for rec in solves(C):
                    yield ("proved" if rec["solver"] is tok else "diff", f"body of {kinds}: solve at {rec['where']} uses the caller's solver")
                for i, s in enumerate(C.attr(r, "shapes")):
                    if on and not solves(C):
                        for v in round_(s):
                            yield (v[0], f"body of {kinds}: shape {i} sphere=True, {v[1]}")
                for rec in solves(C):
                    st = feas.spherical(rec["problem"])
                    yield ("undecided" if st is None else "proved" if st == on else "diff", f"body of {kinds}: sphere={on} reaches the program at {rec['problem'].where}")

            return f

        C.run("body-options", "RigidBody.mbes", opts(True), limit=4, special=False)
        C.run("body-options", "RigidBody.mbes", opts(False), limit=4, special=False)

        def d():
            for dd in (1, 2):
                C.I.scenario.update(scenario(C))
                b = body(kinds)
                pv = variable(C, (4, 4), symmetric=True)
                n0 = len(C.I.variables)
                e = C.pos("eps", ONE)
                cs = flat(C.meth(b, "moment_sdp_constraints", pv, eps=e, d=dd))
                got = sorted(v.shape[0] for v in C.I.variables[n0:] if len(v.shape) == 2)
                want, n = comb(3 + dd, 3), sum(k != "ellipsoid" for k in kinds)
                ok = sum(x == want for x in got) >= n and (not n or max(got) == want)
                yield ("proved" if ok else "diff", f"body of {kinds}: order {dd} gives {n} moment matrices of size {want} (sizes of the matrix variables {got})")
                if psd_margin(cs, np_obj(pv), e):
                    yield ("proved", f"body of {kinds}: margin eps on the pseudo-inertia matrix of the body")
                elif not con_atoms(cs) & set(alg.all_atoms(e)):
                    yield ("diff", f"body of {kinds}: eps is in none of the constraints")
                else:
                    yield ("undecided", f"body of {kinds}: eps enters in an unrecognised form")

        if "capsule" not in kinds:
            C.run("body-order-and-margin", "RigidBody.moment_sdp_constraints", d, limit=2, special=False)

    items = [(fns[p], op) for p, op in jobs] + [(body_job, k) for k in ([["box"], ["ellipsoid"], ["cylinder"], ["capsule"], ["poly"], ["box", "cylinder"], ["ellipsoid", "poly"], ["cylinder", "ellipsoid"], ["poly", "capsule"]])]
    C.parallel(items, lambda it: it[0](it[1]))
    C.extra = {"option_uses": {p: sum(1 for q, _ in jobs if q == p) for p in fns}, "operations_skipped": skipped}
