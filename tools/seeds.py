"""Specifications of the planted bugs in /verif/seeded."""
SEED = {
"s04-polynomial-add": dict(property="C14", file="moment.py",
    old="coefficients = self.coefficients.copy()", new="coefficients = self.coefficients",
    needs="using a polynomial again after adding another to it", breaks="the sum is written into the left operand",
    demo='''
import rigeo as rg
p = rg.Polynomial({"100": 1.0})
q = rg.Polynomial({"010": 2.0})
before = dict(p.coefficients)
p + q
assert p.coefficients == before, p.coefficients
'''),
"s05-capsule-scale": dict(property="C02", file="shape/capsule.py",
    old="+ [t >= 0, t <= scale, point == p1 + p2]", new="+ [t >= 0, t <= 1, point == p1 + p2]",
    needs="must_contain with a scale larger than one", breaks="points near the second half of the scaled capsule are rejected and the multiplier of the other cap may be negative",
    demo='''
import numpy as np
import cvxpy as cp
import rigeo as rg
cap = rg.Cylinder(length=2, radius=0.5).capsule()
p = cp.Variable(3)
x = np.array([0, 0, 4.0])
prob = cp.Problem(cp.Maximize(p[2]), cap.must_contain(p, scale=3.0) + [p[:2] == 0])
prob.solve(solver=cp.CLARABEL)
assert abs(prob.value - 4.5) < 1e-4, prob.value
'''),
"s06-rejection-reseed": dict(property="C15", file="random.py",
    old="    sample_shape = tuple(sample_shape)\n\n    rng = np.random.default_rng(rng)\n", new="    sample_shape = tuple(sample_shape)\n",
    needs="an integer seed and more than one round of rejection sampling", breaks="every round is drawn from a new copy of the seed, so the points repeat",
    demo='''
import numpy as np
import rigeo as rg
cap = rg.Cylinder(length=0.5, radius=1).capsule()
for seed in range(20):
    p = cap.random_points(50, rng=seed)
    u = np.unique(np.round(p, 12), axis=0)
    assert len(u) == 50, (seed, len(u))
'''),
"s07-box-mie-sphere": dict(property="C05", file="shape/box.py",
    old="radius = np.min(self.half_extents)", new="radius = np.min(self.half_extents[:2])",
    needs="sphere=True on a box whose third extent is the smallest", breaks="the inscribed sphere leaves the box",
    demo='''
import rigeo as rg
b = rg.Box([2.0, 3.0, 1.0])
s = b.mie(sphere=True)
assert abs(s.half_extents[0] - 1.0) < 1e-12, s.half_extents
'''),
"s08-transform-first-moment": dict(property="C06", file="inertial.py",
    old="h=self.h + other.h, H=self.H + other.H", new="com=0.5 * (self.com + other.com), H=self.H + other.H",
    needs="adding parameters of different masses", breaks="the first moment of a sum is not the sum of first moments",
    demo='''
import numpy as np
import rigeo as rg
a = rg.InertialParameters(mass=1.0, com=np.array([1.0, 0, 0]), H=np.eye(3))
b = rg.InertialParameters(mass=3.0, com=np.array([0, 1.0, 0]), H=np.eye(3))
assert np.allclose((a + b).h, a.h + b.h)
'''),
"s11-poly-mbe-solver": dict(property="C16", file="shape/cylinder.py",
    old="return self.mib().mbe(rcond=rcond, sphere=sphere, solver=solver)", new="return self.mib().mbe(rcond=rcond, solver=solver)",
    needs="asking a cylinder for a bounding sphere", breaks="the sphere flag is dropped and an ellipsoid is returned",
    demo='''
import numpy as np
import rigeo as rg
e = rg.Cylinder(length=4, radius=0.5).mbe(sphere=True)
assert np.allclose(e.half_extents, e.half_extents[0]), e.half_extents
'''),
"s12-body-sum": dict(property="C14", file="rigidbody.py",
    old="        shapes = self.shapes + other.shapes\n", new="        shapes = self.shapes\n        shapes.extend(other.shapes)\n",
    needs="using a body again after adding another to it", breaks="the shapes of the other body are appended to the left operand",
    demo='''
import rigeo as rg
a = rg.RigidBody([rg.Box.cube(1.0)])
b = rg.RigidBody([rg.Ellipsoid.sphere(1.0)])
c = a + b
assert len(a.shapes) == 1 and len(c.shapes) == 2
'''),
"s14-edges-y": dict(property="C03", file="shape/box.py",
    old="for i, xz in enumerate([[x, z], [x, -z], [-x, -z], [-x, z]]):", new="for i, xz in enumerate([[x, z], [x, -z], [-x, -z], [-x, y]]):",
    needs="a box with different y and z extents and a sample on that edge", breaks="points meant for one edge along y lie off the box's edges",
    demo='''
import numpy as np
import rigeo as rg
b = rg.Box([1.0, 3.0, 2.0])
p = b.random_points_on_edges(500, rng=np.random.default_rng(0))
on = np.isclose(np.abs(p), b.half_extents)
assert np.all(on.sum(axis=1) >= 2)
'''),
"s16-com-mass": dict(property="C04", file="inertial.py",
    old="H = rotation @ self.Hc @ rotation.T + self.mass * np.outer(com, com)", new="H = rotation @ self.H @ rotation.T + self.mass * np.outer(translation, translation)",
    needs="a body whose centre of mass is off the origin, translated", breaks="the cross terms of the parallel axis theorem are lost",
    demo='''
import numpy as np
import rigeo as rg
p = rg.InertialParameters(mass=2.0, com=np.array([1.0, 0, 0]), H=3 * np.eye(3))
q = p.transform(translation=np.array([0.0, 1.0, 2.0]))
T = np.eye(4)
T[:3, 3] = [0, 1, 2]
assert np.allclose(q.J, T @ p.J @ T.T)
'''),
"s21-adjoint": dict(property="C08", file="rigidbody.py",
    old="return lift6(A) - V.adjoint().T @ lift6(V)", new="return lift6(A) - V.adjoint().T @ lift6(V) if np.any(V.linear) else lift6(A)",
    needs="a purely rotating body", breaks="gyroscopic terms vanish when the linear velocity is zero",
    demo='''
import numpy as np
import rigeo as rg
p = rg.InertialParameters(mass=1.0, com=np.array([0.1, 0, 0]), H=np.diag([1.0, 2, 3]))
V = rg.SV(linear=np.zeros(3), angular=np.array([1.0, 2, 3]))
A = rg.SV(linear=np.zeros(3), angular=np.zeros(3))
w = rg.RigidBody.regressor(V, A) @ p.vec
assert np.allclose(w, p.body_wrench(V, A).vec)
'''),

"s31-box-moment-eq": dict(property="C09", file="shape/box.py",
    old="cp.diag(H) <= cp.diag(Hv),", new="cp.diag(H) == cp.diag(Hv),",
    needs="mass away from the vertices of the box and the custom vertex relaxation", breaks="only distributions concentrated on the vertices satisfy the constraints",
    demo='''
import numpy as np
import cvxpy as cp
import rigeo as rg
b = rg.Box([1.0, 0.5, 0.7])
p = b.uniform_density_params(mass=2.0)
X = cp.Variable((4, 4))
prob = cp.Problem(cp.Minimize(cp.norm(X - p.J, "fro")), b.moment_custom_vertex_constraints(X))
prob.solve(solver=cp.CLARABEL)
assert prob.status == "optimal" and prob.value < 1e-4, (prob.status, prob.value)
'''),
"s32-cyl-axial-bound": dict(property="C10", file="shape/cylinder.py",
    old="H[2, 2] <= J_sum[2, 2],", new="H[2, 2] <= J_sum[2, 2] + J_sum[0, 0],",
    needs="the custom relaxation and a second moment larger along the axis than the ends allow", breaks="the axial second moment is no longer bounded by that of the end disks",
    demo='''
import cvxpy as cp
import rigeo as rg
c = rg.Cylinder(length=2.0, radius=1.0)
X = cp.Variable((4, 4))
prob = cp.Problem(cp.Maximize(X[2, 2]), c.moment_custom_vertex_constraints(X) + [X[3, 3] == 1])
prob.solve(solver=cp.CLARABEL)
assert abs(prob.value - 1.0) < 1e-4, prob.value
'''),
"s33-face-dropped": dict(property="C10", file="shape/poly.py",
    old="moment.localizing_constraints(M, polys=self._polys)", new="moment.localizing_constraints(M, polys=self._polys[:self.nv])",
    needs="a polyhedron with more faces than vertices, that is an octahedron-like shape", breaks="faces beyond the vertex count carry no condition",
    demo='''
import numpy as np
import cvxpy as cp
import rigeo as rg
o = rg.ConvexPolyhedron.from_vertices(np.vstack((np.eye(3), -np.eye(3))))
worst = 0
for i in range(len(o.b)):
    X = cp.Variable((4, 4))
    prob = cp.Problem(cp.Maximize(o.A[i] @ X[:3, 3] - o.b[i]), o.moment_sdp_constraints(X, d=1) + [X[3, 3] == 1, cp.trace(X) <= 100])
    prob.solve(solver=cp.CLARABEL)
    worst = max(worst, prob.value)
assert worst < 1e-4, worst
'''),
"s34-vertex-com": dict(property="C11", file="shape/poly.py",
    old="h == ms.T @ self.vertices,", new="h / m == (ms.T @ self.vertices) / cp.sum(ms),",
    needs="solving any problem with the vertex conditions", breaks="the condition on the centre of mass is a ratio of decision variables",
    demo='''
import cvxpy as cp
import rigeo as rg
b = rg.ConvexPolyhedron.simplex([1.0, 2.0, 3.0])
for shape in ((4, 4), (10,)):
    X = cp.Variable(shape)
    assert all(c.is_dcp() for c in b.moment_vertex_constraints(X))
'''),
"s35-affine-offset": dict(property="C12", file="moment.py",
    old="coefficients = {(0,) * n: b}", new="coefficients = {(0,) * n: abs(b)}",
    needs="a half-space that does not contain the origin", breaks="the constant term of the affine polynomial has the wrong sign",
    demo='''
import numpy as np
import rigeo as rg
p = rg.Polynomial.affine(a=np.array([1.0, -2.0, 0.5]), b=-3.0)
x = np.array([0.3, 0.7, -1.1])
assert abs(p.evaluate(x) - (-3.0 - np.array([1.0, -2.0, 0.5]) @ x)) < 1e-12 or abs(p.evaluate(x) - (-3.0 + np.array([1.0, -2.0, 0.5]) @ x)) < 1e-12, p.evaluate(x)
'''),
"s36-equality-side": dict(property="C13", file="polydd.py",
    old="np.concatenate((b_ineq, b_eq, -b_eq))", new="np.concatenate((b_ineq, b_eq, b_eq))",
    needs="an equality with a nonzero right-hand side", breaks="a flat polyhedron away from the origin is not confined to its plane",
    demo='''
import numpy as np
import rigeo as rg
V = np.array([[0, 0, 1.0], [1, 0, 1.0], [0, 1, 1.0], [1, 1, 1.0]])
p = rg.ConvexPolyhedron.from_vertices(V)
assert p.contains(np.array([0.5, 0.5, 1.0]))
assert not p.contains(np.array([0.5, 0.5, 0.5]))
assert not p.contains(np.array([0.5, 0.5, 1.5]))
'''),
"s37-masses-sum": dict(property="C18", file="inertial.py",
    old="assert np.all(masses >= 0)", new="assert np.sum(masses) >= 0",
    needs="a negative mass among positive ones", breaks="negative point masses are accepted",
    demo='''
import numpy as np
import rigeo as rg
try:
    rg.InertialParameters.from_point_masses(masses=np.array([2.0, -0.5]), points=np.eye(3)[:2])
except (AssertionError, ValueError):
    pass
else:
    raise SystemExit("a negative mass was accepted")
'''),
"s38-thin-cylinder": dict(property="C07", file="shape/cylinder.py",
    old="Hz = mass * self.length**2 / 12.0", new="Hz = mass * self.length * max(self.length, 0.05) / 12.0",
    needs="a cylinder shorter than 5 cm", breaks="thin cylinders get the axial second moment of a longer one",
    demo='''
import numpy as np
import rigeo as rg
c = rg.Cylinder(length=0.01, radius=1.0)
H = c.uniform_density_params(mass=3.0).H
assert abs(H[2, 2] - 3.0 * 0.01**2 / 12) < 1e-9, H
'''),
"s39-ellipsoid-multiplier": dict(property="C20", file="shape/ellipsoid.py",
    old="_mbee_con_mat(S, d, E, ti) << 0 for E, ti in zip(ellipsoids, ts)", new="_mbee_con_mat(S, d, E, ts[0]) << 0 for E in ellipsoids",
    needs="a bounding ellipsoid of ellipsoids of different sizes", breaks="one multiplier is shared by all ellipsoids, so the result is larger than minimal",
    demo='''
import numpy as np
import cvxpy as cp
import rigeo as rg
es = [rg.Ellipsoid([1.0, 1.0, 1.0]), rg.Ellipsoid([0.1, 0.1, 0.1], center=np.array([0.2, 0.0, 0.0]))]
m = rg.mbe_of_ellipsoids(es, solver=cp.CLARABEL)
assert np.allclose(m.half_extents, 1.0, atol=1e-2), m.half_extents
'''),
"s40-same-one-way": dict(property="C21", file="shape/poly.py",
    old="return self.contains_polyhedron(\n            other, tol=tol\n        ) and other.contains_polyhedron(self, tol=tol)", new="return self.contains_polyhedron(other, tol=tol) and np.all(\n            np.isclose(self.aabb().center, other.aabb().center, atol=tol)\n        )",
    needs="comparing a polyhedron with a smaller one of the same bounding-box centre", breaks="is_same is no longer symmetric",
    demo='''
import rigeo as rg
a = rg.Box([1.0, 1.0, 1.0])
b = rg.ConvexPolyhedron.from_vertices(0.5 * rg.Box([1.0, 1.0, 1.0]).vertices)
c = rg.ConvexPolyhedron.from_vertices(a.vertices)
assert not c.is_same(b)
assert not b.is_same(c)
'''),
"s41-attempts-reset": dict(property="C22", file="random.py",
    old="        m += n_new\n", new="        m += n_new\n        tries = 0\n",
    needs="a shape that is hit rarely and a small attempt limit", breaks="the limit on attempts is forgotten whenever a point is accepted",
    demo='''
import numpy as np
import rigeo as rg
from rigeo.random import rejection_sample
class Thin:
    calls = 0
    def contains(self, points, tol=1e-8):
        Thin.calls += 1
        c = np.zeros(len(points), dtype=bool)
        c[0] = True
        return c
try:
    rejection_sample([Thin()], rg.Box([1.0, 1.0, 1.0]), (50,), rng=0, max_tries=10)
except ValueError:
    pass
assert Thin.calls <= 11, Thin.calls
'''),
"s42-dataclass-slots": dict(property="C23", file="closest.py",
    old="@dataclass\n", new="@dataclass(slots=True)\n",
    needs="importing the package on the oldest supported Python", breaks="dataclass(slots=True) needs Python 3.10",
    demo='''
import ast, os, re
import rigeo
import rigeo.closest as c
proj = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(rigeo.__file__))), "pyproject.toml")
low = re.search(r'python\\s*=\\s*"[^0-9]*3\\.(\\d+)', open(proj).read()) or re.search(r'requires-python\\s*=\\s*"[^0-9]*3\\.(\\d+)', open(proj).read())
cls = [v for v in vars(c).values() if isinstance(v, type) and v.__module__ == c.__name__]
if int(low.group(1)) < 10:
    assert not any("__slots__" in vars(v) for v in cls)
'''),
"s43-mbe-order": dict(property="C17", file="shape/capsule.py",
    old="def mbe(self, rcond=None, sphere=False, solver=None):", new="def mbe(self, sphere=False, rcond=None, solver=None):",
    needs="passing rcond or sphere by position to any shape of a collection", breaks="the capsule takes the arguments in another order than every other shape",
    demo='''
import cvxpy as cp
import rigeo as rg
shapes = [rg.Box([1.0, 1.0, 1.0]), rg.Cylinder(length=1.0, radius=0.5), rg.Cylinder(length=1.0, radius=0.5).capsule()]
for s in shapes:
    e = s.mbe(None, True, cp.CLARABEL)
    assert max(e.half_extents) - min(e.half_extents) < 1e-6, (s, e.half_extents)
'''),
"s44-last-vertex": dict(property="C01", file="shape/base.py",
    old="return self.contains(poly.vertices, tol=tol).all()", new="return self.contains(poly.vertices[: poly.dim + 1], tol=tol).all()",
    needs="a polyhedron with more than four vertices that sticks out at a later vertex", breaks="only the first vertices are tested",
    demo='''
import numpy as np
import rigeo as rg
s = rg.Ellipsoid.sphere(1.0)
V = 0.3 * np.array([[1, 1, 1], [1, 1, -1], [1, -1, 1], [1, -1, -1], [-1, 1, 1], [-1, 1, -1], [-1, -1, 1.0], [-1, -1, -1]])
for k in range(8):
    W = V.copy()
    W[k] *= 3
    assert not s.contains_polyhedron(rg.ConvexPolyhedron.from_vertices(W)), k
'''),
"s45-full-length": dict(property="C19", file="shape/capsule.py",
    old="return self.inner_length + 2 * self.radius", new="return self.inner_length + 2 * self.radius**2 / max(self.radius, 1.0)",
    needs="a capsule of radius below one", breaks="the length depends on the unit in which the radius is given",
    demo='''
import rigeo as rg
for k in (1.0, 1000.0):
    c = rg.Cylinder(length=1.0 * k, radius=0.25 * k).capsule()
    assert abs(c.full_length - 1.5 * k) < 1e-9 * k, c.full_length
'''),
"s46-rotated-transform": dict(property="C04", file="polydd.py",
    old="b = self.b + A @ translation", new="b = self.b + self.A @ translation",
    needs="a transform with both a rotation and a translation", breaks="the faces are shifted by the unrotated normal",
    demo='''
import numpy as np
import rigeo as rg
f = rg.FaceForm(A_ineq=np.array([[1.0, 0, 0]]), b_ineq=np.array([1.0]))
R = np.array([[0, -1.0, 0], [1, 0, 0], [0, 0, 1]])
t = np.array([0.0, 5.0, 0.0])
g = f.transform(rotation=R, translation=t)
p = R @ np.array([1.0, 2, 3]) + t
assert abs(g.A @ p - g.b).max() < 1e-12, (g.A @ p, g.b)
'''),
"s47-flat-threshold": dict(property="C21", file="shape/ellipsoid.py",
    old="zero_mask = np.isclose(self.half_extents, 0)\n\n        # Q matrix", new="zero_mask = np.isclose(self.half_extents, 0, atol=1e-6)\n\n        # Q matrix",
    needs="an ellipsoid with an extent between 1e-8 and 1e-6 next to one below 1e-8", breaks="the extents regarded as zero differ from those of rank and membership",
    demo='''
import cvxpy as cp
import rigeo as rg
e = rg.Ellipsoid([1.0, 1e-7, 0.0])
X = cp.Variable((4, 4))
e.moment_constraints(X)
V = e._QV_degenerate()[1] if hasattr(e, "_QV_degenerate") else None
assert V is None or V.shape == (4, e.rank + 1) and abs(V[:, :-1]).sum(axis=0).min() > 0.5, V
'''),

"s50-disk-ball": dict(property="C24", file="random.py",
    old="c ** (1.0 / dim)", new="c ** (1.0 / max(dim, 3))",
    needs="points in a disk or an interval, that is fewer than three dimensions", breaks="points in disks crowd towards the rim",
    demo='''
import numpy as np
import rigeo as rg
X = rg.random_points_in_ball(shape=20000, dim=2, rng=0)
inner = np.mean(np.sum(X**2, axis=1) < 0.5)
assert abs(inner - 0.5) < 0.02, inner
'''),
"s51-lines-with-rays": dict(property="C13", file="polydd.py",
    old="self.rays = np.vstack((self.rays, span_rays))", new="self.rays = np.vstack((self.rays, span))",
    needs="a polyhedron that has both rays and lines", breaks="half of each line is lost",
    demo='''
import numpy as np
from rigeo.polydd import FaceForm
f = FaceForm(A_ineq=np.array([[-1.0, 0, 0]]), b_ineq=np.zeros(1))
r = f.to_span_form().rays
for e in (np.array([0, 1.0, 0]), np.array([0, -1.0, 0]), np.array([0, 0, 1.0]), np.array([0, 0, -1.0])):
    assert any(np.allclose(x / np.linalg.norm(x), e) for x in r), r
'''),
"s52-pim-columns": dict(property="C18", file="inertial.py",
    old="assert J.shape == (4, 4)", new="assert J.ndim == 2 and len(J) == 4",
    needs="a matrix with more than four columns", breaks="matrices that are not 4x4 are accepted as pseudo-inertia matrices",
    demo='''
import numpy as np
import rigeo as rg
try:
    rg.InertialParameters.from_pim(np.hstack((np.eye(4), np.ones((4, 1)))))
except (AssertionError, ValueError):
    pass
else:
    raise SystemExit("a 4x5 matrix was accepted")
'''),
"s53-contained-offset": dict(property="C20", file="shape/ellipsoid.py",
    old="self.A @ self.b - t * (other.A @ other.b)", new="self.A @ self.b - t * (self.A @ other.b)",
    needs="two ellipsoids of different shape away from the origin", breaks="containment of ellipsoids off the origin is answered wrongly",
    demo='''
import numpy as np
import cvxpy as cp
import rigeo as rg
c = np.array([3.0, 0, 0])
a = rg.Ellipsoid([2.0, 2.0, 2.0], center=c)
b = rg.Ellipsoid([1.0, 0.5, 0.7], center=c + 0.1)
assert a.contains_ellipsoid(b, solver=cp.CLARABEL)
'''),
"s55-random-mass": dict(property="C06", file="inertial.py",
    old="random_psd_matrix(n=3, rng=rng) + mass * np.outer(com, com)", new="random_psd_matrix(n=3, rng=rng) + mass**2 * np.outer(com, com)",
    needs="a random second moment that is nearly singular", breaks="random parameters are occasionally inconsistent",
    demo='''
import numpy as np
import rigeo as rg
rng = np.random.default_rng(0)
assert all(rg.InertialParameters.random(rng=rng).consistent(eps=-1e-10) for _ in range(3000))
'''),
"s58-ray-rotation": dict(property="C04", file="polydd.py",
    old="rays = (rotation @ self.rays.T).T", new="rays = self.rays @ rotation",
    needs="an unbounded polyhedron in vertex form that is rotated", breaks="rays are rotated the wrong way",
    demo='''
import numpy as np
from rigeo.polydd import SpanForm
C = np.array([[0, -1.0, 0], [1, 0, 0], [0, 0, 1]])
s = SpanForm(vertices=np.zeros((1, 3)), rays=np.array([[1.0, 0, 0]]))
assert np.allclose(s.transform(rotation=C).rays, [[0, 1, 0]])
'''),
"s60-surface-acceptance": dict(property="C15", file="shape/ellipsoid.py",
    old="u = rng.random(rem)", new="u = np.random.default_rng(rem).random(rem)",
    needs="a surface sampler whose acceptance depends on the generator", breaks="acceptance is decided by a generator of its own",
    demo='''
import numpy as np
import rigeo as rg
class G(np.random.Generator):
    n = 0
    def random(self, *a, **k):
        G.n += 1
        return super().random(*a, **k)
e = rg.Ellipsoid([1.0, 2.0, 0.5])
e.random_points_on_surface(shape=5, rng=G(np.random.PCG64(0)))
assert G.n > 0
'''),
"s61-scaled-centre": dict(property="C02", file="shape/ellipsoid.py",
    old="c = schur(scale * E_diag, p, scale) >> 0", new="c = schur(E_diag, p, scale) >> 0",
    needs="must_contain with a scale other than one", breaks="the scaled ellipsoid has the wrong size",
    demo='''
import numpy as np
import cvxpy as cp
import rigeo as rg
e = rg.Ellipsoid([1.0, 2.0, 0.5])
p = cp.Variable(3)
pr = cp.Problem(cp.Maximize(p[0]), e.must_contain(p, scale=4.0))
pr.solve(solver=cp.CLARABEL)
assert abs(pr.value - 4.0) < 1e-3, pr.value
'''),
"s62-margin-shared": dict(property="C10", file="rigidbody.py",
    old="for c in moment_constraints(shape, J)", new="for c in moment_constraints(shape, J, eps=eps)",
    needs="a body of several shapes with a positive margin", breaks="every shape must carry the margin on its own",
    demo='''
import numpy as np
import cvxpy as cp
import rigeo as rg
a = rg.Box([1.0, 1.0, 1.0], center=[5.0, 0, 0])
b = rg.Box([1.0, 1.0, 1.0], center=[-5.0, 0, 0])
body = rg.RigidBody([a, b])
J = cp.Variable((4, 4), PSD=True)
m = a.uniform_density_params(1.0).J
pr = cp.Problem(cp.Minimize(0), body.moment_sdp_constraints(J, eps=0.01) + [J == m])
pr.solve(solver=cp.CLARABEL)
assert pr.status.startswith("optimal"), pr.status
'''),

"s63-edges-unshuffled": dict(property="C24", file="shape/box.py",
    old="            points[idx[8 + i] : idx[8 + i + 1], :2] = xy\n\n        rng.shuffle(points)\n", new="            points[idx[8 + i] : idx[8 + i + 1], :2] = xy\n",
    needs="using the first of several edge samples on its own", breaks="the position of a sample in the output tells its edge",
    demo='''
import numpy as np
import rigeo as rg
b = rg.Box([1.0, 1.0, 1.0])
P = np.array([b.random_points_on_edges(12, rng=s)[0] for s in range(400)])
on_x = np.mean(np.isclose(np.abs(P[:, 1]), 1) & np.isclose(np.abs(P[:, 2]), 1))
assert on_x < 0.6, on_x
'''),
"s64-shared-radius": dict(property="C24", file="random.py",
    old="c = np.expand_dims(rng.random(shape), axis=s.ndim - 1)", new="c = rng.random(s.shape[:-2] + (1, 1)) if s.ndim > 2 else np.expand_dims(rng.random(shape), axis=s.ndim - 1)",
    needs="a requested shape with two or more axes", breaks="all points of a row have the same distance from the centre",
    demo='''
import numpy as np
import rigeo as rg
X = rg.random_points_in_ball(shape=(4, 50), dim=3, rng=0)
assert np.std(np.linalg.norm(X[0], axis=-1)) > 0.05
'''),
"s65-touching": dict(property="C13", file="shape/poly.py",
    old="        if span_form is None:\n            return None\n        return ConvexPolyhedron(span_form=span_form)", new="        if span_form is None or span_form.nv < self.dim:\n            return None\n        return ConvexPolyhedron(span_form=span_form)",
    needs="two polyhedra that touch in a point or an edge", breaks="touching polyhedra are said not to intersect",
    demo='''
import numpy as np
import rigeo as rg
a, b = rg.Box([1.0, 1.0, 1.0]), rg.Box([1.0, 1.0, 1.0], center=[2.0, 2.0, 2.0])
i = a.intersect(b)
assert i is not None and np.allclose(i.vertices, 1.0)
'''),
"s66-eigenvectors": dict(property="C20", file="shape/ellipsoid.py",
    old="rotation = np.hstack((R @ V, N))", new="rotation = np.hstack((R @ V.T, N))",
    needs="points whose bounding ellipsoid is not aligned with the row space basis", breaks="the bounding ellipsoid of points is turned the wrong way",
    demo='''
import numpy as np
import cvxpy as cp
import rigeo as rg
P = np.random.default_rng(0).normal(size=(12, 3)) @ np.array([[1.0, 0.4, 0.2], [0, 0.5, 0.3], [0, 0, 0.2]])
e = rg.mbe_of_points(P, solver=cp.CLARABEL)
assert e.contains(P, tol=1e-3).all()
'''),
"s67-grid-tolerance": dict(property="C03", file="shape/base.py",
    old="contained = self.contains(box_grid)", new="contained = self.contains(box_grid, tol=1e-2)",
    needs="a shape whose grid comes within a percent of its boundary", breaks="grid points lie outside the shape",
    demo='''
import numpy as np
import rigeo as rg
for r in np.linspace(0.5, 3.0, 30):
    e = rg.Ellipsoid([r, 1.3 * r, 0.7 * r])
    for n in range(2, 25):
        g = e.grid(n)
        assert len(g) == 0 or e.contains(g).all()
'''),
"s68-capsule-box": dict(property="C05", file="shape/capsule.py",
    old="half_extents = [self.radius, self.radius, self.full_length / 2]", new="half_extents = [self.radius, self.radius, max(self.inner_length, self.radius) / 2 + self.radius / 2 if self.inner_length < self.radius else self.full_length / 2]",
    needs="a capsule shorter than its radius", breaks="the bounding box of a stubby capsule cuts its caps",
    demo='''
import numpy as np
import rigeo as rg
c = rg.Cylinder(length=0.1, radius=1.0).capsule()
assert c.mbb().half_extents[2] >= 1.05 - 1e-9
'''),
"s69-cap-sharing": dict(property="C14", file="shape/capsule.py",
    old="        return self.cylinder.transform(\n            rotation=rotation, translation=translation\n        ).capsule()", new="        moved = self.cylinder.transform(\n            rotation=rotation, translation=translation\n        ).capsule()\n        for cap, new in zip(self.caps, moved.caps):\n            cap.half_extents[:] = new.half_extents\n            np.copyto(cap.center, new.center)\n        return moved",
    needs="using a capsule again after transforming it", breaks="the caps of the original move along",
    demo='''
import numpy as np
import rigeo as rg
c = rg.Cylinder(length=1.0, radius=0.5).capsule()
p = np.array([0, 0, 0.9])
assert c.contains(p)
c.transform(translation=[5.0, 0, 0])
assert c.contains(p)
'''),
}
