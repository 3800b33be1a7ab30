"""Realizability conditions admit every realizable distribution.  The constraint list
of every shape, relaxation and parameterisation is read back; the parameter is replaced
by the moments of a point mass at an abstract point of the shape and the auxiliary
unknowns are eliminated by what the conditions imply.  A determined condition that fails
inside the shape excludes a realizable distribution; a completion under which every
condition is shown to hold proves admission.  The conditions are homogeneous in all
unknowns, so with convexity (C11) they admit every sum of point masses, hence every
distribution.  The direct check of an ellipsoid is evaluated on the same masses."""
import random

from .. import alg
from ..alg import Rat, R
from ..core import *
from ..build import *
from ..cond import batoms, beval, conj_ineqs
from ..csets import variable
from ..interp import Undecided
from ..realize import *

LEVEL = "other"
RULE = "constraints with the moments of an abstract member point substituted hold for some value of the auxiliary unknowns; constraints have no constant part"
ASSUMPTIONS = ["sums of point masses are dense in the non-negative distributions on a compact set and the admitted set is closed and convex (C11)", "polyhedra are given by abstract faces for face-based conditions and by the vertices of an abstract tetrahedron for vertex-based ones"]


def targets(C):
    """(construct, label, method, kwargs, builder of (Case, Placer))."""
    out = []
    orders = (1, 2, 3) if C.thorough else (1, 2)
    poses = ("generic", "default") if not C.thorough else ("generic", "centred", "aligned", "default", "zero")

    def add_(kind, mk, lab, body_=False):
        try:
            o = mk()[0].obj
        except (Raised, Undecided) as e:
            C.unk("admits", kind, f"{lab}: {e}")
            return
        from .c11 import methods

        for n in methods(C, o):
            if "constraints" not in n or "lp" in n:
                continue
            for d in orders if "sdp" in n else (None,):
                if body_ and d != 1 and not (C.thorough and d == 2):
                    continue
                if d == 3 and kind != "Box":
                    continue
                out.append((f"{kind}.{n}", f"{lab}{f', order {d}' if d else ''}", n, {"d": d} if d else {}, mk))

    for pose in poses:
        add_("Box", lambda pose=pose: one_shape(C, "Box", pose), f"box {pose}")
        add_("Cylinder", lambda pose=pose: one_shape(C, "Cylinder", pose), f"cylinder {pose}")
        add_("Ellipsoid", lambda pose=pose: one_shape(C, "Ellipsoid", pose), f"ellipsoid {pose}")
    for fl in ((0,), (2,), (0, 1), (1, 2)) if not C.thorough else ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)):
        add_("Ellipsoid", lambda fl=fl: one_shape(C, "Ellipsoid", "generic", flat=fl), f"ellipsoid flat along {fl}")
    add_("ConvexPolyhedron", lambda n=4: one_shape(C, "ConvexPolyhedron", nf=n), "polyhedron")
    for k in C.sizes(6, cap=14):
        add_("ConvexPolyhedron", lambda n=k: one_shape(C, "ConvexPolyhedron", nf=n), f"polyhedron of {k} faces or vertices")
    for ks in (("Ellipsoid",), ("Cylinder",), ("Box", "Ellipsoid"), ("Cylinder", "flat Ellipsoid", "ConvexPolyhedron")):
        for i in range(len(ks)):
            add_("RigidBody", lambda ks=ks, i=i: body(C, ks, i), f"{' + '.join(ks)}, shape {i + 1}", True)
    return out


def style(case, placer, prog, mk, C, name, n=None):
    """Polyhedra: choose the description (faces or vertices) the conditions use;
    matrices of higher order: world coordinates keep the monomials small."""
    return case, placer


def size(mk):
    """Number of faces (or vertices) of the polyhedron of a work item."""
    return (getattr(mk, "__defaults__", None) or (4,))[0]


def build_case(C, construct, name, kw, mk):
    kind = construct.split(".")[0]
    if kind == "ConvexPolyhedron" and "vertex" in name:
        return vertex_case(C, size(mk))
    if kind == "Box" and "sdp" in name:
        pose = getattr(mk, "__defaults__", ("generic",))[0]
        return one_shape(C, "Box", pose, world_style=True)
    return mk()


def instantiate(C, construct, name, kw, mk, shape):
    case, placer = build_case(C, construct, name, kw, mk)
    X = variable(C, shape)
    cs = C.meth(case.obj, name, X, **kw)
    prog = Prog(C, cs, X)
    # a polyhedron whose conditions use the other description
    if case.kind == "ConvexPolyhedron":
        ids = set()
        for op, e, w in prog.items:
            for x in ([e] if op != "psd" else e.reshape(-1)):
                ids |= alg.all_atoms(R(x))
        va = {alg.as_atom(R(x)).id for x in case.spec.V.reshape(-1)}
        fa = {alg.as_atom(R(x)).id for x in case.spec.A.reshape(-1)}
        if case.label == "faces" and ids & va and not ids & fa or case.label == "vertices" and ids & fa and not ids & va:
            case, placer = vertex_case(C, size(mk)) if case.label == "faces" else one_shape(C, "ConvexPolyhedron", nf=size(mk))
            X = variable(C, shape)
            prog = Prog(C, C.meth(case.obj, name, X, **kw), X)
        elif ids & va and ids & fa:
            raise Undecided("conditions use both descriptions of the polyhedron")
    return case, placer, prog


def admits(C, item, shape):
    construct, label, name, kw, mk = item

    def f():
        case, placer, prog = instantiate(C, construct, name, kw, mk, shape)
        lab = f"{label}, parameter {'matrix' if shape == (4, 4) else 'vector'}"
        n = len(prog.items)
        rnd = random.Random(9)
        const = prog.constants()
        sol = Sol(prog, case.J, case.poses()).close()
        for t in range(10):
            env = environment(prog, case, placer, rnd, "in" if t < 7 else "ext")
            w = refuted(sol, case, env)
            if w:
                yield ("diff", f"{lab}: a point mass inside the shape is excluded by the {w}")
                return
        if const:
            yield ("undecided", f"{lab}: the condition at {const[0]} has a constant part")
            return
        why = ""
        for s in proposals(sol, case):
            ok, why = admissible(s, case)
            if ok:
                yield ("proved", f"{lab}: {n} conditions hold for every point mass inside; all are homogeneous")
                return
        yield ("undecided", f"{lab}: {why}")

    return f


def eig_hook(C, J, lam):
    """Eigenvalues of matrices a*J + b*I for symmetric J with eigenvalues lam."""
    n = J.shape[0]

    def hook(x):
        a = np_obj(x)
        if a.shape != J.shape:
            return None
        k = None
        for i, j in np.ndindex(n, n):
            if i != j and not R(J[i, j]).is_zero():
                k = red(R(a[i, j]) / R(J[i, j]))
                break
        if k is None or not k.is_const() or k.value() == 0:
            return None
        b = None
        for i, j in np.ndindex(n, n):
            d = red(R(a[i, j]) - k * R(J[i, j]))
            if i != j and not d.is_zero():
                return None
            if i == j:
                b = d if b is None else b
                if not red(d - b).is_zero():
                    return None
        return C.A(np_obj([k * R(l) + b for l in lam])), None

    return hook


def member_params(C, case):
    """Inertial parameters of the point mass, with the eigenvalues of its rank-one
    pseudo-inertia matrix known."""
    J = case.J
    C.I.scenario["eig"] = eig_hook(C, J, [Z, Z, Z, C.pos("top", M)])
    return C.call("InertialParameters", J[3, 3], h=C.A(np_obj(J[:3, 3])), H=C.A(np_obj(J[:3, :3])))


def direct(C, pose, flat):
    def f():
        case, placer = one_shape(C, "Ellipsoid", pose, flat=flat)
        p = member_params(C, case)
        r = C.meth(case.obj, "can_realize", p)
        r = C.I.truthy(r)
        lab = f"ellipsoid {pose} {f'flat along {flat}' if flat else ''}: direct check"
        if r is True:
            yield ("proved", f"{lab} accepts every point mass inside")
            return
        if r is False:
            yield ("diff", f"{lab} refuses a point mass inside")
            return
        q = conj_ineqs(r)
        if q is not None and all(prove(red(-d), case.slacks) for d in q):
            yield ("proved", f"{lab} accepts every point mass inside")
            return
        rnd = random.Random(3)
        s = case.spec
        for t in range(40):
            ids = case.free() | batoms(r) | {a for x in [*s.h, *s.pose.R.reshape(-1), *s.pose.c] for a in alg.all_atoms(R(x))}
            env = alg.sample_env(ids, rnd)
            placer.place(env, rnd, "in")
            if not beval(r, env):
                yield ("diff", f"{lab} refuses a point mass inside")
                return
        yield ("undecided", f"{lab}: {r!r}"[:200])

    return f


def check(C):
    for pose in ("generic", "centred", "aligned", "default"):
        C.run("direct", "Ellipsoid.can_realize", direct(C, pose, ()), special=False)
    for flat in ((0,), (1,), (2,), (0, 1), (1, 2)):
        C.run("direct", "Ellipsoid.can_realize", direct(C, "generic", flat), special=False)
    todo = [(t, sh) for t in targets(C) for sh in ((4, 4), (10,))]

    def one(x):
        t, sh = x
        C.run("admits", t[0], admits(C, t, sh), limit=3, special=False)

    C.parallel(todo, one)
