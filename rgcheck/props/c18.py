"""Rejection of invalid and acceptance of valid input.  Each constructor and generator is
evaluated with abstract invalid data (any negative number, infinity, not-a-number, every
listed wrong shape, contradictory specifications) in each argument and each position; on
every analysed trace the call must end in an exception.  The same constructors are
evaluated with the boundary data that is valid (every pattern of zero extents, zero mass,
lists, tuples and integers); no analysed trace may end in an exception."""
import itertools

from ..core import *
from ..catalog import params, psym
from ..csets import variable
from ..build import *

LEVEL = "other"
RULE = "with invalid abstract data every trace of the call ends in an exception; with valid boundary data no trace does"
ASSUMPTIONS = ["the wrong shapes are the listed ones", "assertions are enabled"]

ML, ML2 = (1, 1, 0), (2, 1, 0)
INF, NAN = float("inf"), float("nan")


def check(C):
    items = []

    def bad(construct, label, f):
        items.append(("invalid", construct, label, f))

    def good(construct, label, f):
        items.append(("valid", construct, label, f))

    neg = lambda tag="neg", unit=L: -C.pos(tag, unit)
    pos = lambda tag="pp", unit=L: C.pos(tag, unit)
    vec = lambda tag, n=3, unit=L: C.A(C.vec(tag, n, unit))
    mat = lambda tag, n, m, unit=L: C.A(C.mat(tag, n, m, unit))
    call = C.call

    def at(n, i, x, tag="h"):
        return C.A([x() if callable(x) else x] if n == 1 else [(x() if callable(x) else x) if k == i else C.pos(f"{tag}{k}") for k in range(n)])

    wrongs = [("negative", neg), ("infinite", INF), ("not a number", NAN)]

    # ---------------------------------------------------------------- shapes
    for what, x in wrongs:
        for i in range(3):
            bad("Box", f"{what} half extent {i}", lambda x=x, i=i: call("Box", at(3, i, x)))
            bad("Box.from_side_lengths", f"{what} side length {i}", lambda x=x, i=i: call("Box.from_side_lengths", at(3, i, x)))
        for n in (1, 2, 3):
            for i in range(n):
                bad("Ellipsoid", f"{what} half extent {i} of {n}", lambda x=x, i=i, n=n: call("Ellipsoid", at(n, i, x)))
        one = (lambda x: lambda: x() if callable(x) else x)(x)
        bad("Box.cube", f"{what} half extent", lambda one=one: call("Box.cube", one()))
        bad("Ellipsoid.sphere", f"{what} radius", lambda one=one: call("Ellipsoid.sphere", one()))
        bad("Ellipsoid.sphere", f"{what} radius with a centre", lambda one=one: call("Ellipsoid.sphere", one(), center=vec("c")))
        bad("Cylinder", f"{what} length", lambda one=one: call("Cylinder", one(), pos()))
        bad("Cylinder", f"{what} radius", lambda one=one: call("Cylinder", pos(), one()))
    for lab, mk in (("a number", lambda: pos()), ("2 entries", lambda: C.A(C.posvec("h", 2))), ("4 entries", lambda: C.A(C.posvec("h", 4))), ("a column", lambda: C.A([[v] for v in C.posvec("h")])), ("1 entry", lambda: C.A(C.posvec("h", 1))), ("no entry", lambda: C.A([]))):
        bad("Box", f"half extents: {lab}", lambda mk=mk: call("Box", mk()))
    bad("Ellipsoid", "half extents: a matrix", lambda: call("Ellipsoid", C.A([C.posvec("h"), C.posvec("g")])))
    bad("Ellipsoid", "half extents: a column", lambda: call("Ellipsoid", C.A([[v] for v in C.posvec("h")])))
    mk = {"Box": lambda **k: call("Box", C.A(C.posvec("h")), **k), "Ellipsoid": lambda **k: call("Ellipsoid", C.A(C.posvec("h")), **k), "Cylinder": lambda **k: call("Cylinder", pos("ln"), pos("ra"), **k)}
    vwrong = [("2 entries", lambda: vec("c", 2)), ("4 entries", lambda: vec("c", 4)), ("a column", lambda: mat("c", 3, 1)), ("a row", lambda: mat("c", 1, 3)), ("1 entry", lambda: vec("c", 1)), ("a number", lambda: C.sym("c", unit=L))]
    mwrong = [("2x2", lambda: C.A(C.rot("R2", 2))), ("4x4", lambda: C.A(C.rot("R4", 4))), ("3x2", lambda: mat("r", 3, 2, ONE)), ("2x3", lambda: mat("r", 2, 3, ONE)), ("a vector", lambda: vec("r", 3, ONE)), ("9 entries", lambda: vec("r", 9, ONE)), ("1x1", lambda: mat("r", 1, 1, ONE)), ("1x3", lambda: mat("r", 1, 3, ONE)), ("3x1", lambda: mat("r", 3, 1, ONE)), ("3x4", lambda: mat("r", 3, 4, ONE)), ("4x3", lambda: mat("r", 4, 3, ONE)), ("a stack", lambda: C.A([C.rot("R")]))]
    for k, f in mk.items():
        for lab, g in vwrong:
            bad(k, f"centre: {lab}", lambda f=f, g=g: f(center=g()))
            bad(f"{k}.transform", f"translation: {lab}", lambda f=f, g=g: C.meth(f(), "transform", translation=g()))
        for lab, g in mwrong:
            bad(k, f"rotation: {lab}", lambda f=f, g=g: f(rotation=g()))
            bad(f"{k}.transform", f"rotation: {lab}", lambda f=f, g=g: C.meth(f(), "transform", rotation=g()))
    for lab, g in vwrong:
        bad("Capsule.transform", f"translation: {lab}", lambda g=g: C.meth(call("Capsule", mk["Cylinder"]()), "transform", translation=g()))
        bad("ConvexPolyhedron.transform", f"translation: {lab}", lambda g=g: C.meth(poly(C, 4, 4, 3).obj, "transform", translation=g()))
        bad("RigidBody.transform", f"translation: {lab}", lambda g=g: C.meth(call("RigidBody", [mk["Box"]()], params(C)), "transform", translation=g()))
    for lab, g in mwrong:
        bad("Capsule.transform", f"rotation: {lab}", lambda g=g: C.meth(call("Capsule", mk["Cylinder"]()), "transform", rotation=g()))
        bad("ConvexPolyhedron.transform", f"rotation: {lab}", lambda g=g: C.meth(poly(C, 4, 4, 3).obj, "transform", rotation=g()))
        bad("RigidBody.transform", f"rotation: {lab}", lambda g=g: C.meth(call("RigidBody", [mk["Box"]()], params(C)), "transform", rotation=g()))
    for n, m in ((2, 3), (3, 2), (1, 2)):
        bad("Ellipsoid", f"{n} half extents, centre of {m}", lambda n=n, m=m: call("Ellipsoid", C.A(C.posvec("h", n)), center=vec("c", m)))
        if m > 1:
            bad("Ellipsoid", f"{n} half extents, rotation {m}x{m}", lambda n=n, m=m: call("Ellipsoid", C.A(C.posvec("h", n)), rotation=C.A(C.rot("R", m))))
    for n in (1, 2, 3):
        for i in range(n):
            for what, x in [("negative", neg), ("zero", Rat.const(0)), ("not a number", NAN)]:
                bad("ConvexPolyhedron.simplex", f"{what} extent {i} of {n}", lambda n=n, i=i, x=x: call("ConvexPolyhedron.simplex", at(n, i, x)))
    bad("ConvexPolyhedron", "unbounded", lambda: call("ConvexPolyhedron", span_form=call("SpanForm", vertices=mat("V", 3, 3), rays=mat("Q", 1, 3, ONE))))
    bad("ConvexPolyhedron", "a line", lambda: call("ConvexPolyhedron", span_form=call("SpanForm", vertices=mat("V", 3, 3), span=mat("Q", 1, 3, ONE))))
    bad("ConvexPolyhedron.from_halfspaces", "3 offsets for 4 normals", lambda: call("ConvexPolyhedron.from_halfspaces", mat("A", 4, 3, ONE), vec("b", 3)))
    bad("FaceForm", "2 equality offsets for 1 normal", lambda: call("FaceForm", mat("A", 4, 3, ONE), vec("b", 4), A_eq=mat("E", 1, 3, ONE), b_eq=vec("e", 2)))

    # ---------------------------------------------------------------- grids
    shapes = {"Box": lambda: mk["Box"](), "Ellipsoid": lambda: mk["Ellipsoid"](), "Cylinder": lambda: mk["Cylinder"](), "Capsule": lambda: call("Capsule", mk["Cylinder"]()), "ConvexPolyhedron": lambda: poly(C, 4, 4, 3).obj}
    for k, f in shapes.items():
        for n in (0, -1, -3):
            bad(f"{k}.grid", f"{n} points per side", lambda f=f, n=n: C.meth(f(), "grid", n))
    for ns in ((0, 2, 2), (2, 0, 2), (2, 2, 0), (2, -1, 2)):
        bad("Box.grid", f"{ns} points per side", lambda ns=ns: C.meth(mk["Box"](), "grid", list(ns)))

    # ---------------------------------------------------------------- inertia
    IP = lambda *a, **k: call("InertialParameters", *a, **k)
    M33 = lambda t="HH": C.A(psym(C, t))
    bad("InertialParameters", "negative mass", lambda: IP(neg("m", M)))
    bad("InertialParameters", "negative mass with moments", lambda: IP(neg("m", M), com=vec("c"), H=M33()))
    bad("InertialParameters", "mass not a number", lambda: IP(NAN, com=vec("c"), H=M33()))
    bad("InertialParameters", "both first moment and centre of mass", lambda: IP(pos("m", M), h=vec("h", 3, ML), com=vec("c"), H=M33()))
    bad("InertialParameters", "both second moment and inertia", lambda: IP(pos("m", M), h=vec("h", 3, ML), H=M33(), I=M33("II")))
    bad("InertialParameters", "both pairs", lambda: IP(pos("m", M), h=vec("h", 3, ML), com=vec("c"), H=M33(), I=M33("II")))
    bad("InertialParameters", "zero values given twice", lambda: IP(pos("m", M), h=C.A([0, 0, 0]), com=C.A([0, 0, 0]), H=M33()))
    bad("InertialParameters", "zero second moment given twice", lambda: IP(pos("m", M), com=vec("c"), H=C.A(zeros(3, 3)), I=C.A(zeros(3, 3))))
    for lab, g in vwrong:
        bad("InertialParameters", f"centre of mass: {lab}", lambda g=g: IP(pos("m", M), com=g(), H=M33()))
        bad("InertialParameters", f"first moment: {lab}", lambda g=g: IP(pos("m", M), h=g(), H=M33()))
    for lab, g in mwrong:
        bad("InertialParameters", f"second moment: {lab}", lambda g=g: IP(pos("m", M), com=vec("c"), H=g()))
        bad("InertialParameters", f"inertia: {lab}", lambda g=g: IP(pos("m", M), com=vec("c"), I=g()))
        bad("InertialParameters", f"second moment about the centre of mass: {lab}", lambda g=g: IP(pos("m", M), com=vec("c"), H=g(), translate_from_com=True))
        bad("H2I", lab, lambda g=g: call("H2I", g()))
        bad("I2H", lab, lambda g=g: call("I2H", g()))
    for n in (0, 1, 6, 9, 11, 16):
        bad("InertialParameters.from_vec", f"{n} parameters", lambda n=n: call("InertialParameters.from_vec", C.A([pos("m", M)] + C.vec("v", n - 1) if n else [])))
    bad("InertialParameters.from_vec", "a column", lambda: call("InertialParameters.from_vec", mat("v", 10, 1)))
    bad("InertialParameters.from_vec", "negative mass", lambda: call("InertialParameters.from_vec", C.A([neg("m", M)] + C.vec("v", 9))))
    for n, m in ((1, 1), (1, 4), (4, 1), (3, 3), (5, 5), (4, 3), (3, 4), (4, 5), (5, 4), (4, 2), (2, 4), (2, 2), (4, 16), (16, 4), (6, 6), (10, 1)):
        bad("InertialParameters.from_pim", f"{n}x{m}", lambda n=n, m=m: call("InertialParameters.from_pim", C.A([[pos(f"J{i}") if i == j else C.sym(f"J{i}_{j}") for j in range(m)] for i in range(n)])))
    bad("InertialParameters.from_pim", "16 entries", lambda: call("InertialParameters.from_pim", C.A([pos(f"J{i}") for i in range(16)])))
    bad("InertialParameters.from_pim", "a stack", lambda: call("InertialParameters.from_pim", C.A([[[pos(f"J{i}") if i == j else C.sym(f"J{i}_{j}") for j in range(4)] for i in range(4)]])))
    bad("InertialParameters.from_vec", "a row", lambda: call("InertialParameters.from_vec", mat("v", 1, 10)))
    bad("InertialParameters.from_pim", "negative mass", lambda: call("InertialParameters.from_pim", C.A([[neg("m", M) if i == j == 3 else C.sym(f"J{min(i, j)}_{max(i, j)}") for j in range(4)] for i in range(4)])))
    for n in (1, 2, 4):
        for i in range(n):
            bad("InertialParameters.from_point_masses", f"negative mass {i} of {n}", lambda n=n, i=i: call("InertialParameters.from_point_masses", C.A([neg("m", M) if k == i else pos(f"m{k}", M) for k in range(n)]), mat("p", n, 3)))
            bad("InertialParameters.from_point_masses", f"negative mass {i} of {n}, a list", lambda n=n, i=i: call("InertialParameters.from_point_masses", [neg("m", M) if k == i else pos(f"m{k}", M) for k in range(n)], mat("p", n, 3)))
    for n, k in ((2, 3), (3, 2), (1, 4)):
        bad("InertialParameters.from_point_masses", f"{n} masses, {k} points", lambda n=n, k=k: call("InertialParameters.from_point_masses", C.A(C.posvec("m", n, M)), mat("p", k, 3)))
    for d in (2, 4):
        bad("InertialParameters.from_point_masses", f"points with {d} coordinates", lambda d=d: call("InertialParameters.from_point_masses", C.A(C.posvec("m", 3, M)), mat("p", 3, d)))
    dens = {"Box": ("uniform", "hollow", "wireframe"), "Ellipsoid": ("uniform", "hollow"), "Cylinder": ("uniform",)}
    for k, gs in dens.items():
        for g in gs:
            bad(f"{k}.{g}_density_params", "negative mass", lambda k=k, g=g: C.meth(mk[k](), f"{g}_density_params", neg("m", M)))
            good(f"{k}.{g}_density_params", "zero mass", lambda k=k, g=g: C.meth(mk[k](), f"{g}_density_params", 0))
    for k in ("Box", "ConvexPolyhedron"):
        nv = 8 if k == "Box" else 4
        bad(f"{k}.vertex_point_mass_params", "negative mass", lambda k=k: C.meth(shapes[k](), "vertex_point_mass_params", neg("m", M)))
        for i in range(nv):
            bad(f"{k}.vertex_point_mass_params", f"negative mass at vertex {i}", lambda k=k, i=i, nv=nv: C.meth(shapes[k](), "vertex_point_mass_params", C.A([neg("m", M) if j == i else pos(f"m{j}", M) for j in range(nv)])))
        for n in (nv - 1, nv + 1, 2):
            bad(f"{k}.vertex_point_mass_params", f"{n} masses for {nv} vertices", lambda k=k, n=n: C.meth(shapes[k](), "vertex_point_mass_params", C.A(C.posvec("m", n, M))))
        bad(f"{k}.vertex_point_mass_params", "masses in a column", lambda k=k, nv=nv: C.meth(shapes[k](), "vertex_point_mass_params", C.A([[v] for v in C.posvec("m", nv, M)])))
        good(f"{k}.vertex_point_mass_params", "zero mass", lambda k=k: C.meth(shapes[k](), "vertex_point_mass_params", 0))
        good(f"{k}.vertex_point_mass_params", "zero masses", lambda k=k, nv=nv: C.meth(shapes[k](), "vertex_point_mass_params", C.A([0] * nv)))

    # ---------------------------------------------------------------- constraints
    psh = [("3x3", (3, 3)), ("5x5", (5, 5)), ("9 entries", (9,)), ("4 entries", (4,)), ("10x1", (10, 1)), ("1x10", (1, 10)), ("11 entries", (11,)), ("16 entries", (16,)), ("4x5", (4, 5)), ("5x4", (5, 4)), ("3x4", (3, 4)), ("4x3", (4, 3))]
    real = {("Box", "moment_sdp_constraints"), ("Box", "moment_vertex_constraints"), ("Box", "moment_custom_vertex_constraints"), ("Box", "moment_sdp_feasibility_problem"), ("Cylinder", "moment_sdp_constraints"), ("Cylinder", "moment_custom_vertex_constraints"), ("Cylinder", "moment_sdp_feasibility_problem"), ("Ellipsoid", "moment_constraints"), ("ConvexPolyhedron", "moment_sdp_constraints"), ("ConvexPolyhedron", "moment_vertex_constraints")}
    for lab, s in psh:
        bad("pim_must_equal_param_var", f"variable {lab}", lambda s=s: call("pim_must_equal_param_var", variable(C, s), eps=0))
        if s not in ((4, 3), (4, 5), (5, 4), (3, 4)):
            bad("pim_psd", f"matrix {lab}", lambda s=s: call("pim_psd", variable(C, s)))
        bad("pim_must_equal_vec", f"vector {lab}", lambda s=s: call("pim_must_equal_vec", variable(C, s)))
        for k, m in sorted(real):
            bad(f"{k}.{m}", f"variable {lab}", lambda k=k, m=m, s=s: C.meth(shapes[k](), m, variable(C, s)))
        bad("RigidBody.moment_sdp_constraints", f"variable {lab}", lambda s=s: C.meth(call("RigidBody", [mk["Box"](), mk["Ellipsoid"]()], params(C)), "moment_sdp_constraints", variable(C, s)))
    bad("pim_must_equal_param_var", "negative margin", lambda: call("pim_must_equal_param_var", variable(C, (4, 4), PSD=True), eps=neg("e", ONE)))
    bad("pim_psd", "negative margin", lambda: call("pim_psd", variable(C, (4, 4), PSD=True), eps=neg("e", ONE)))
    for k, m in sorted(real):
        bad(f"{k}.{m}", "negative margin", lambda k=k, m=m: C.meth(shapes[k](), m, variable(C, (4, 4), PSD=True), eps=neg("e", ONE)))
        good(f"{k}.{m}", "zero margin", lambda k=k, m=m: C.meth(shapes[k](), m, variable(C, (4, 4), PSD=True), eps=0))
        good(f"{k}.{m}", "parameter vector", lambda k=k, m=m: C.meth(shapes[k](), m, variable(C, (10,)), eps=0))
    for n in (2, 1):
        el = lambda n=n: call("Ellipsoid", C.A(C.posvec("h", n)))
        bad("Ellipsoid.moment_constraints", f"a {n}-dimensional ellipsoid", lambda el=el: C.meth(el(), "moment_constraints", variable(C, (4, 4), PSD=True)))
        bad("Ellipsoid.can_realize", f"a {n}-dimensional ellipsoid", lambda el=el: C.meth(el(), "can_realize", params(C)))
    for m in ("moment_sdp_constraints", "moment_vertex_constraints"):
        bad(f"ConvexPolyhedron.{m}", "a polygon", lambda m=m: C.meth(poly(C, 3, 3, 2).obj, m, variable(C, (4, 4), PSD=True)))
    for s in ((3, 3), (5, 5), (10, 10)):
        mm_ = lambda: call("MomentMatrix", 3, 1)
        bad("MomentMatrix.moment_constraints", f"variable {s} for order 1", lambda s=s: C.meth(mm_(), "moment_constraints", variable(C, s, symmetric=True)))

    # ---------------------------------------------------------------- small algebra
    for n in (2, 4, 5, 7, 8, 9):
        bad("unvech", f"{n} entries", lambda n=n: call("unvech", vec("u", n, ONE)))
    bad("unvech", "1x1", lambda: call("unvech", mat("u", 1, 1, ONE)))
    bad("unvech", "no entry", lambda: call("unvech", C.A([])))
    bad("unvech", "a number", lambda: call("unvech", C.sym("u")))
    bad("unvech", "a matrix", lambda: call("unvech", mat("u", 3, 1, ONE)))
    for n in (1, 3, 6, 10):
        good("unvech", f"{n} entries", lambda n=n: call("unvech", vec("u", n, ONE)))
    for n, m in ((2, 3), (3, 2), (1, 3), (4, 3), (2, 1), (3, 4), (1, 2), (3, 1)):
        bad("vech", f"{n}x{m}", lambda n=n, m=m: call("vech", mat("u", n, m, ONE)))
    for n in (1, 2, 4, 6):
        bad("skew3", f"{n} entries", lambda n=n: call("skew3", vec("u", n)))
        bad("lift3", f"{n} entries", lambda n=n: call("lift3", vec("u", n)))
        bad("contact_jacobian", f"{n} entries", lambda n=n: call("contact_jacobian", vec("u", n)))
        for k in ("linear", "angular"):
            bad("SV", f"{k} part of {n} entries", lambda n=n, k=k: call("SV", **{k: vec("u", n)}))
    for n, m in ((3, 1), (1, 3), (3, 3)):
        for f in ("skew3", "lift3", "contact_jacobian"):
            bad(f, f"{n}x{m}", lambda f=f, n=n, m=m: call(f, mat("u", n, m)))
        for k in ("linear", "angular"):
            bad("SV", f"{k} part {n}x{m}", lambda n=n, m=m, k=k: call("SV", **{k: mat("u", n, m)}))
    for n in (0, 3, 5, 7, 12):
        bad("SV.from_vec", f"{n} entries", lambda n=n: call("SV.from_vec", vec("u", n) if n else C.A([])))
    bad("SV.from_vec", "3x2", lambda: call("SV.from_vec", mat("u", 3, 2)))
    bad("SV.from_vec", "6x1", lambda: call("SV.from_vec", mat("u", 6, 1)))
    for lab, x in (("negative", neg), ("zero", lambda: 0), ("minus one", lambda: -1), ("minus a tenth", lambda: Rat.const(-1) / 10)):
        bad("compute_evaluation_times", f"{lab} duration", lambda x=x: call("compute_evaluation_times", x(), step=1))
        bad("compute_evaluation_times", f"{lab} step", lambda x=x: call("compute_evaluation_times", 2, step=x()))
    bad("validation_rmse", "3 regressors, 1 wrench", lambda: call("validation_rmse", C.A([[[C.sym(f"Y{a}{i}{j}") for j in range(10)] for i in range(6)] for a in range(3)]), mat("w", 1, 6), C.A([C.sym(f"th{i}") for i in range(10)])))
    bad("validation_rmse", "3 regressors, 2 wrenches", lambda: call("validation_rmse", C.A([[[C.sym(f"Y{a}{i}{j}") for j in range(10)] for i in range(6)] for a in range(3)]), mat("w", 2, 6), C.A([C.sym(f"th{i}") for i in range(10)])))
    for lab, g in mwrong:
        for f in ("transform_matrix", "transform_matrix_inv"):
            bad(f, f"rotation: {lab}", lambda f=f, g=g: call(f, rotation=g(), translation=vec("t")))
    for lab, g in vwrong:
        for f in ("transform_matrix", "transform_matrix_inv"):
            bad(f, f"translation: {lab}", lambda f=f, g=g: call(f, rotation=C.A(C.rot("R")), translation=g()))
    bad("convex_hull", "a vector of points", lambda: call("convex_hull", vec("p", 3)))
    bad("convex_hull", "a stack of point sets", lambda: call("convex_hull", C.A([C.mat("p", 4, 3), C.mat("q", 4, 3)])))
    bad("allclose_unordered", "different counts", lambda: call("allclose_unordered", mat("p", 2, 3), mat("q", 3, 3)))
    for n in (0, -1):
        bad("random_points_in_ball", f"dimension {n}", lambda n=n: call("random_points_in_ball", 2, dim=n, rng=C.I.make_gen(("caller", 0))))
    bad("random_points_on_hypersphere", "dimension -1", lambda: call("random_points_on_hypersphere", 2, dim=-1, rng=C.I.make_gen(("caller", 0))))

    # points of another dimension are not silently judged
    p3wrong = [("2 coordinates", lambda: vec("p", 2)), ("4 coordinates", lambda: vec("p", 4)), ("a batch with 2 coordinates", lambda: mat("p", 2, 2)), ("a batch with 4 coordinates", lambda: mat("p", 5, 4))]
    for k, f in shapes.items():
        for lab, g in p3wrong:
            bad(f"{k}.contains", lab, lambda f=f, g=g: C.meth(f(), "contains", g()))
            if k in ("Box", "Ellipsoid"):
                bad(f"{k}.on_surface", lab, lambda f=f, g=g: C.meth(f(), "on_surface", g()))
    # ---------------------------------------------------------------- valid boundary data
    for n in (1, 2, 3):
        for z in range(n + 1):
            for flat in itertools.combinations(range(n), z):
                h = lambda n=n, flat=flat: C.A([0 if i in flat else C.pos(f"h{i}") for i in range(n)])
                good("Ellipsoid", f"zero half extents {flat} of {n}", lambda h=h: call("Ellipsoid", h()))
                good("Ellipsoid", f"zero half extents {flat} of {n}, a list", lambda h=h: call("Ellipsoid", [x for x in np_obj(h())]))
                if n == 3:
                    good("Box", f"zero half extents {flat}", lambda h=h: call("Box", h(), rotation=C.A(C.rot("R")), center=vec("c")))
                    good("Box.from_side_lengths", f"zero side lengths {flat}", lambda h=h: call("Box.from_side_lengths", h()))
    for f in ("Box.cube", "Ellipsoid.sphere"):
        good(f, "zero size", lambda f=f: call(f, 0))
        good(f, "integer size", lambda f=f: call(f, 2))
    for l, r in ((0, None), (None, 0), (0, 0)):
        cy = lambda l=l, r=r: call("Cylinder", pos("ln") if l is None else 0, pos("ra") if r is None else 0)
        good("Cylinder", f"{'zero length ' if l == 0 else ''}{'zero radius' if r == 0 else ''}", cy)
        good("Capsule", f"{'zero length ' if l == 0 else ''}{'zero radius' if r == 0 else ''}", lambda cy=cy: call("Capsule", cy()))
    good("Box", "tuples and lists", lambda: call("Box", (1, 2, 3), rotation=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], center=(0, 1, 2)))
    good("Ellipsoid", "tuples and lists", lambda: call("Ellipsoid", (1, 2), rotation=[[1, 0], [0, 1]], center=(0, 1)))
    good("Cylinder", "tuples and lists", lambda: call("Cylinder", 1, 2, rotation=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], center=(0, 1, 2)))
    good("Box.from_two_vertices", "any two corners", lambda: call("Box.from_two_vertices", vec("u"), vec("w")))
    good("Box.from_two_vertices", "equal corners", lambda: call("Box.from_two_vertices", [1, 2, 3], [1, 2, 3]))
    good("InertialParameters", "zero mass", lambda: IP(0))
    good("InertialParameters", "zero mass and zero moments", lambda: IP(0, h=C.A([0, 0, 0]), H=C.A(zeros(3, 3))))
    good("InertialParameters", "zero mass and a centre of mass", lambda: IP(0, com=vec("c")))
    good("InertialParameters", "only a mass", lambda: IP(pos("m", M)))
    good("InertialParameters.zero", "", lambda: call("InertialParameters.zero"))
    good("InertialParameters.from_vec", "zero parameters", lambda: call("InertialParameters.from_vec", C.A([0] * 10)))
    good("InertialParameters.from_pim", "zero parameters", lambda: call("InertialParameters.from_pim", C.A(zeros(4, 4))))
    good("InertialParameters.from_point_masses", "some zero masses", lambda: call("InertialParameters.from_point_masses", [0, pos("m", M)], mat("p", 2, 3)))
    good("InertialParameters.from_point_masses", "all masses zero", lambda: call("InertialParameters.from_point_masses", [0, 0], mat("p", 2, 3)))
    good("InertialParameters.from_point_masses", "equal masses", lambda: call("InertialParameters.from_point_masses", masses=C.A(C.posvec("m", 3, M)), points=[[0, 0, 0], [1, 0, 0], [0, 1, 0]]))
    good("compute_evaluation_times", "step longer than the duration", lambda: call("compute_evaluation_times", 1, step=2))
    for k, f in shapes.items():
        good(f"{k}.grid", "one point per side", lambda f=f: C.meth(f(), "grid", 1))
    good("SV", "only one part", lambda: (call("SV", linear=[1, 2, 3]), call("SV", angular=(1, 2, 3)), call("SV")))
    good("ConvexPolyhedron.simplex", "a list of integers", lambda: call("ConvexPolyhedron.simplex", [1, 2, 3]))
    good("pim_psd", "zero margin", lambda: call("pim_psd", variable(C, (4, 4), PSD=True), eps=0))

    def one(it):
        what, construct, label, f = it

        def g():
            try:
                f()
            except Raised as e:
                if what == "invalid":
                    yield ("proved", f"{label}: rejected with {e.kind}")
                else:
                    yield ("diff", f"{label}: valid input is rejected with {e.kind}: {e.msg} at {e.where}")
                return
            if what == "invalid":
                yield ("diff", f"{label}: invalid input is accepted")
            else:
                yield ("proved", f"{label}: accepted")

        from ..catalog import scenario
        C.run("rejected" if what == "invalid" else "accepted", construct, g, limit=6 if C.thorough else 3, **{k: v for k, v in scenario(C).items()})

    C.parallel(items, one)
    C.extra = {"invalid_cases": sum(i[0] == "invalid" for i in items), "valid_cases": sum(i[0] == "valid" for i in items)}
