"""Curvature analysis: every public operation is evaluated on abstract operands with
decision variables and affine expressions of them where it takes decision operands.
Every constraint it builds and every objective it hands to a problem is an expression
in decision atoms; its curvature is derived by the composition rules of disciplined
convex programming.  Equalities and matrix inequalities must be affine, inequalities
concave on the greater side, minimised objectives convex and maximised ones concave;
no step multiplies or divides by decision expressions."""
import numpy as np

from .. import alg
from ..alg import ATOMS, Rat, R
from ..core import *
from ..catalog import ops, scenario, INST, SHAPES
from ..csets import variable, expr, flat
from ..build import *
from ..models_cp import Con, has_dec
from ..interp import Undecided

LEVEL = "other"
RULE = "curvature by composition: affine (==, >>), concave (>=), convex (minimise), concave (maximise); no product or quotient of decision expressions"
ASSUMPTIONS = ["decision operands are variables of the documented shapes and affine expressions of them", "the curvature and monotonicity table of the modelling library's atoms in rgcheck/models_cp.py and c11.py"]
AFF, CVX, CCV, CST, BAD, UNK = "affine", "convex", "concave", "constant", "neither convex nor concave", "unknown"
# atoms nondecreasing in each argument / nonincreasing / only for nonnegative arguments
UP = {"max", "min", "exp", "log", "sqrt", "pos", "lambda_max", "lambda_min", "geo_mean", "log_det", "sum_largest"}
DOWN = {"inv_pos"}
UPPOS = {"square", "abs", "norm2", "norm1", "norm_inf", "sum_squares", "pnorm", "huber"}


def add_curv(a, b):
    if UNK in (a, b):
        return UNK if BAD not in (a, b) else BAD
    if BAD in (a, b):
        return BAD
    if a == CST:
        return b
    if b == CST:
        return a
    if a == AFF:
        return b
    if b == AFF:
        return a
    return a if a == b else BAD


def neg(c):
    return {CVX: CCV, CCV: CVX}.get(c, c)


def sign(k):
    if k.is_zero():
        return 0
    if alg.is_pos(k) or alg.prove_nonneg(k):
        return 1
    if alg.is_pos(-k) or alg.prove_nonneg(-k):
        return -1
    return None


def curv(r):
    """Curvature of an abstract number in its decision atoms."""
    r = R(r)
    dec = [a for a in alg.all_atoms(r) if ATOMS[a].dec]
    if not dec:
        return CST
    top = [a for a in r.atoms() if ATOMS[a].dec or any(ATOMS[b].dec for b in alg.all_atoms(Rat.atom(ATOMS[a])))]
    out = CST
    rest = r
    for a in top:
        c = alg.coeff(rest, a)
        if c is None:
            return BAD
        k, rest = c
        if any(ATOMS[b].dec for b in alg.all_atoms(k)):
            return BAD
        A = ATOMS[a]
        g = AFF if A.kind == "var" and A.dec else atom_curv(A)
        if g in (CVX, CCV):
            s = sign(k)
            g = UNK if s is None else g if s > 0 else neg(g)
        out = add_curv(out, g)
    if any(ATOMS[b].dec for b in alg.all_atoms(rest)):
        return UNK
    return out


def atom_curv(A):
    if A.kind != "fn" or not str((A.info or {}).get("name", "")).startswith("cp."):
        return UNK
    name = A.info["name"][3:]
    g = A.info.get("curv", "unknown")
    g = {"convex": CVX, "concave": CCV}.get(g, UNK)
    args = [R(x) for x in A.info["args"] if isinstance(x, Rat)]
    if name == "quad_form":
        k = int(A.args[0][len("cp.quad_form"):])
        P = np.array(args[k:], dtype=object).reshape(k, k)
        g = CVX if is_psd(P) else CCV if is_psd(np.vectorize(lambda x: -x, otypes=[object])(P)) else UNK
        args = args[:k]
        return g if all(curv(x) in (AFF, CST) for x in args) else BAD
    if g == UNK:
        return UNK
    for x in args:
        c = curv(x)
        if c in (AFF, CST):
            continue
        if c in (UNK, BAD):
            return c
        up = name in UP or name in UPPOS and alg.prove_nonneg(x)
        if up and c == g or name in DOWN and c == neg(g):
            continue
        return BAD
    return g


def is_psd(P):
    """Diagonal nonnegative or Gram matrices."""
    n = P.shape[0]
    if all(R(P[i, j]).is_zero() for i in range(n) for j in range(n) if i != j):
        return all(alg.prove_nonneg(R(P[i, i])) for i in range(n))
    return False


def affine_pim(C, tag=""):
    """A symmetric (4, 4) affine expression of a decision vector."""
    t = variable(C, 2)
    K = [[[C.sym(f"q{tag}{k}{min(i, j)}{max(i, j)}", unit=ONE) for j in range(4)] for i in range(4)] for k in range(3)]
    x = [R(v) for v in t.a.reshape(-1)]
    return expr(C, [[K[0][i][j] + K[1][i][j] * x[0] + K[2][i][j] * x[1] for j in range(4)] for i in range(4)])


def affine_vec(C, n, tag="w"):
    t = variable(C, 2)
    x = [R(v) for v in t.a.reshape(-1)]
    return expr(C, [C.sym(f"{tag}o{i}") + C.sym(f"{tag}a{i}", unit=ONE) * x[0] + C.sym(f"{tag}b{i}", unit=ONE) * x[1] for i in range(n)])


def affine_pts(C, k, n, tag="w"):
    t = variable(C, 2)
    x = [R(v) for v in t.a.reshape(-1)]
    return expr(C, [[C.sym(f"{tag}o{r}{i}") + C.sym(f"{tag}a{r}{i}", unit=ONE) * x[0] + C.sym(f"{tag}b{r}{i}", unit=ONE) * x[1] for i in range(n)] for r in range(k)])


def check(C):
    # ---- the engine's own bookkeeping of one trace
    def judge_trace(label, thunk):
        """Verdicts for everything recorded while thunk ran."""
        ended = "returns"
        try:
            thunk()
        except Raised as e:
            if e.kind in ("DCPError",):
                yield ("diff", f"{label}: raises {e.kind}: {e.msg}")
                return
            ended = e.kind
        n = 0
        for e in C.I.events:
            if e[0] == "cp.product":
                yield ("diff", f"{label}: {e[1]} of decision expressions at {e[2]}", e[3])
                n += 1
        seen = set()
        cons = [r[1] for r in C.I.records if r[0] == "constraint"]
        for p in C.I.problems:
            cons += [c for c in p.constraints if c.op != "bool"]
        for c in cons:
            if id(c) in seen or c.op == "bool":
                continue
            seen.add(id(c))
            want = (AFF, CST) if c.op in ("eq", "psd") else (AFF, CST, CCV)
            for x in c.expr.reshape(-1):
                g = curv(x) if isinstance(x, Rat) else CST
                n += 1
                if g in want:
                    continue
                if g == UNK:
                    yield ("undecided", f"{label}: curvature of the constraint at {c.where} is not known", c.fname)
                else:
                    yield ("diff", f"{label}: {'equality' if c.op == 'eq' else 'matrix inequality' if c.op == 'psd' else 'inequality'} at {c.where} has a side that is {g}: {str(x)[:160]}", c.fname)
                break
            else:
                yield ("proved", f"{label}: {c.op} at {c.where} {want[-1]}", c.fname)
        for p in C.I.problems:
            o = p.objective
            g = curv(o.e) if isinstance(o.e, Rat) else CST
            want = (AFF, CST, CVX if o.sense == "minimize" else CCV)
            if g in want:
                yield ("proved", f"{label}: objective at {p.where} is {g}, to {o.sense}", p.fname)
            elif g == UNK:
                yield ("undecided", f"{label}: curvature of the objective at {p.where}", p.fname)
            else:
                yield ("diff", f"{label}: the objective at {p.where} is {g}, to {o.sense}", p.fname)

    todo, skipped = ops(C)
    todo = [("op", o) for o in todo if o.cls not in ("SpatialVector", "MomentIndex")]

    def pairs():
        mk = {"Box": lambda t: box(C, "generic", tag="b" + t), "Ellipsoid": lambda t: ellipsoid(C, "generic", tag="e" + t), "flat Ellipsoid": lambda t: ellipsoid(C, "generic", flat=(0, 2), tag="f" + t),
              "Cylinder": lambda t: cylinder(C, "generic", tag="c" + t), "Capsule": lambda t: capsule(C, "generic", tag="k" + t), "ConvexPolyhedron": lambda t: poly(C, 4, 4, 3, "v" + t)}
        return mk

    mk = pairs()
    for k in mk:
        todo.append(("contain", k))
        todo.append(("closest", k))
        todo.append(("realize", k))
    for k in ("shapes", "one"):
        todo.append(("body", k))
    for sh in ((4, 4), (10,)):
        todo.append(("pim", sh))
    for n, d in ((1, 1), (1, 2), (2, 1), (3, 1), (3, 2)) + (((2, 2), (2, 3), (3, 3)) if C.thorough else ()):
        todo.append(("moment", (n, d)))
    todo.append(("schur", None))
    todo.append(("ellipsoids", None))

    def one(item):
        what, x = item
        run = lambda construct, label, body, rule="curvature", limit=6: C.run(rule, construct, lambda: (C.I.scenario.update(scenario(C)), list(judge_trace(label, body)))[1], limit=limit)
        if what == "op":
            def body():
                th, _ = x.prepare(C)
                th()
            C.run("curvature", x.construct, lambda: (C.I.scenario.update(scenario(C)), list(judge_trace(x.label, body)))[1], limit=16 if C.thorough else 5, flip=lambda d: True, special=False)
            return
        if what == "contain":
            for lab, pt in (("variable", lambda: variable(C, 3)), ("variables", lambda: variable(C, (2, 3))), ("affine point", lambda: affine_vec(C, 3)), ("affine points", lambda: affine_pts(C, 2, 3)), ("nonnegative variable", lambda: variable(C, 3, nonneg=True))):
                for sc in (False, True):
                    run(mk[x]("").kind + ".must_contain" if False else x.split()[-1] + ".must_contain", f"{x} {lab}{' scaled' if sc else ''}", lambda: C.meth(mk[x]("").obj, "must_contain", pt(), **({"scale": C.pos("scl", ONE)} if sc else {})))
        if what == "closest":
            for y in mk:
                run("closest_points", f"{x} and {y}", lambda: C.call("closest_points", mk[x]("1").obj, mk[y]("2").obj))
        if what == "realize":
            o = mk[x]("")
            for name in methods(C, o.obj):
                orders = (1, 2, 3) if C.thorough else (1, 2)
                f = C.attr(o.obj, name)
                for d in orders if "sdp" in name else (None,):
                    for lab, pv in (("matrix", lambda: variable(C, (4, 4))), ("PSD matrix", lambda: variable(C, (4, 4), PSD=True)), ("vector", lambda: variable(C, 10)), ("affine matrix", lambda: affine_pim(C)), ("affine vector", lambda: affine_vec(C, 10))):
                        if d == 3 and lab != "matrix":
                            continue
                        for ep in (False, True):
                            if ep and lab != "matrix":
                                continue
                            kw = {**({"d": d} if d else {}), **({"eps": C.nn("eps", ONE)} if ep else {})}
                            run(f"{x.split()[-1]}.{name}", f"{x} {lab}{f' order {d}' if d else ''}{' with margin' if ep else ''}", lambda: C.meth(mk[x]("").obj, name, pv(), **kw), limit=3)
        if what == "body":
            def mkb():
                if x == "one":
                    return C.call("RigidBody", [mk["Cylinder"]("").obj])
                return C.call("RigidBody", [mk[k]("").obj for k in ("Box", "Ellipsoid", "flat Ellipsoid", "Cylinder", "ConvexPolyhedron")])
            for lab, pv in (("matrix", lambda: variable(C, (4, 4))), ("vector", lambda: variable(C, 10)), ("affine matrix", lambda: affine_pim(C)), ("affine vector", lambda: affine_vec(C, 10))):
                run("RigidBody.moment_sdp_constraints", f"{x} {lab}", lambda: C.meth(mkb(), "moment_sdp_constraints", pv(), d=1), limit=2)
        if what == "pim":
            for lab, pv in (("variable", lambda: variable(C, x)), ("affine", lambda: affine_pim(C) if x == (4, 4) else affine_vec(C, 10))):
                run("pim_must_equal_param_var", f"{x} {lab}", lambda: C.call("pim_must_equal_param_var", pv(), C.nn("eps", ONE)))
                run("pim_psd" if x == (4, 4) else "pim_must_equal_vec", f"{x} {lab}", lambda: C.call("pim_psd", pv(), eps=C.nn("eps", ONE)) if x == (4, 4) else C.call("pim_must_equal_vec", pv()))
        if what == "moment":
            n, d = x
            def M():
                return C.call("MomentMatrix", n, d)
            def mv():
                m = M()
                return m, variable(C, tuple(C.attr(m, "shape")))
            def mc():
                m, v = mv()
                C.meth(m, "moment_constraints", v)
            def lc():
                m, v = mv()
                ps = [C.call("Polynomial.affine", C.A(C.vec("pa", n, unit=ONE)), C.sym("pb", unit=L))]
                q = {tuple(2 if j == i else 0 for j in range(n)): C.sym(f"q{i}") for i in range(n)}
                q[(0,) * n] = C.sym("qc")
                ps.append(C.call("Polynomial", q))
                C.meth(m, "localizing_constraints", v, ps)
            run("MomentMatrix.moment_constraints", f"n={n} d={d}", mc)
            run("MomentMatrix.localizing_constraints", f"n={n} d={d}", lc)
        if what == "schur":
            for la, a in (("numbers", lambda: C.A([[C.pos("sA", ONE)]])), ("variable", lambda: variable(C, (1, 1))), ("scalar variable", lambda: variable(C, ()))):
                for lb, b in (("numbers", lambda: C.A([[C.sym("sB", unit=ONE)]])), ("variable", lambda: variable(C, (1, 1))), ("vector", lambda: variable(C, 1))):
                    for lc_, c in (("number", lambda: C.pos("sC", ONE)), ("variable", lambda: variable(C, (1, 1)))):
                        def body():
                            s = C.call("schur", a(), b(), c())
                            C.I.binop(">>", s, 0)
                        run("schur", f"A {la}, B {lb}, C {lc_}", body)
        if what == "ellipsoids":
            for sphere in (False, True):
                run("mbe_of_points", f"four points sphere={sphere}", lambda: C.call("mbe_of_points", C.A(C.mat("p", 5, 3)), sphere=sphere))
                run("mbe_of_ellipsoids", f"two, sphere={sphere}", lambda: C.call("mbe_of_ellipsoids", [ellipsoid(C, "generic", tag="a").obj, ellipsoid(C, "generic", tag="b").obj], sphere=sphere))

    C.parallel(todo, one)
    C.extra = {"operations_analysed": len([1 for t in todo if t[0] == "op"]), "operations_skipped": skipped, "families": sorted({t[0] for t in todo})}


def methods(C, o):
    """Realizability constraint generators of a shape."""
    out = []
    for k in o.cls.mro:
        for n, v in k.ns.items():
            if n.startswith("moment_") and n not in out and not n.startswith("__"):
                out.append(n)
    return sorted(out)
