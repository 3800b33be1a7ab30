"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
S = "src/rigeo/shape/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Membership and surface tests describe exactly the posed shape",
 "For every box, ellipsoid (including flat ones), cylinder, capsule and convex polyhedron, at every orientation and position, the membership test accepts a point exactly when the point, expressed in the shape's own frame, satisfies the shape's defining inequalities within the tolerance that was passed; the on-surface test accepts exactly the members for which a boundary inequality is tight. One point passed alone and the same point passed in a batch get the same answer, and a polyhedron is contained exactly when all of its vertices are.",
 ["inputs"], "every shape kind, extents, rotation, centre, tolerance, point and batch",
 "Tests try a handful of points on mostly unrotated shapes with the default tolerance; the claim is over all poses, points and tolerances.",
 [S+"base.py", S+"box.py", S+"ellipsoid.py", S+"cylinder.py", S+"capsule.py", S+"poly.py"],
 [("contains", S+"*.py"), ("on_surface", S+"box.py, ellipsoid.py"), ("face/vertex form of an oriented box", S+"box.py")],
 ["Box/Ellipsoid/Cylinder/Capsule/ConvexPolyhedron.contains", "on_surface", "contains_polyhedron"])
prop("C02", "Optimization containment constraints describe the same set as membership",
 "The constraints a shape generates to keep a decision point inside it are satisfied by exactly the points its membership test accepts (at zero tolerance), at every pose, for one point or several; with a scale s they hold for x exactly when x/s lies in the shape. The closest-point query constrains one point to each shape, minimises the distance between precisely those two points, and reports each point with the shape it belongs to.",
 ["inputs"], "every shape kind, pose, number of points and scale",
 "All tests that solve an optimisation problem need a commercial licence and fail here, and even with one they probe a few optima of a few shapes.",
 [S+"ellipsoid.py", S+"cylinder.py", S+"capsule.py", S+"poly.py", "src/rigeo/closest.py", "src/rigeo/constraint.py"],
 [("must_contain", S+"*.py"), ("schur", "src/rigeo/constraint.py"), ("closest_points", "src/rigeo/closest.py")],
 ["must_contain", "closest_points", "schur"])
prop("C03", "Random samples and grids always lie in (or on) the shape that made them",
 "Every point returned by a shape's random sampler is a member of that shape, every point returned by a surface or edge sampler is on its surface, and every grid point is a member, for every extents, rotation, centre, requested output shape and seed; the returned array has the requested leading shape and the shape's dimension last (one point asked for as a batch of one may come back as a batch of one). Sphere/ball/simplex-weight generators return points of unit norm, of norm at most one, and non-negative weights that sum to one.",
 ["inputs"], "every shape, pose, sample shape and random stream",
 "Tests sample a few hundred points from a few shapes, almost all with identity rotation and centre at the origin, so a pose error in a sampler is invisible.",
 ["src/rigeo/random.py", S+"box.py", S+"ellipsoid.py", S+"cylinder.py", S+"capsule.py", S+"poly.py", S+"base.py"],
 [("random_points*", S+"*.py"), ("rejection_sample", "src/rigeo/random.py"), ("grid", S+"box.py, base.py, poly.py")],
 ["random_points", "random_points_on_surface", "random_points_on_edges", "grid", "random_* generators"])
prop("C04", "Rigid transforms move every object consistently",
 "Transforming a shape, a polyhedron in vertex or half-space form, a set of inertial parameters or a whole body by a rotation R and translation t yields the object whose points are exactly R x + t for the original's points x: sizes are unchanged, directions rotate without translating, inertial parameters become those of the moved body, and a body moves all of its shapes and its parameters together. Omitting the rotation or the translation means identity or zero; rotating about the centre keeps the centre; the inverse transform matrix undoes the transform matrix.",
 ["inputs"], "every object, rotation and translation (given or omitted)",
 "Tests transform a few objects by one or two rotations; symmetric shapes and single-axis rotations hide wrong composition orders.",
 [S+"box.py", S+"ellipsoid.py", S+"cylinder.py", S+"capsule.py", S+"poly.py", "src/rigeo/polydd.py", "src/rigeo/inertial.py", "src/rigeo/rigidbody.py", "src/rigeo/util.py"],
 [("transform", "all of the above"), ("rotate_about_center", S+"box.py, ellipsoid.py"), ("transform_matrix(_inv)", "src/rigeo/util.py")],
 ["transform", "rotate_about_center", "transform_matrix", "transform_matrix_inv"])
prop("C05", "Closed-form bounding and inscribed shapes really bound and are inscribed",
 "At every pose, the axis-aligned box of a shape touches the shape's extreme point along each axis direction; the oriented bounding box, bounding ellipsoid and bounding sphere contain the whole shape and share its centre; the inscribed box and inscribed ellipsoid or sphere lie inside it; each has the extremal size its closed form promises, and volumes, lengths and end points are those of the shape. The smallest axis-aligned box of a point set spans the coordinate-wise minimum and maximum, and a box built from two opposite corners has exactly those corners whichever order they come in.",
 ["inputs"], "every shape kind, extents and pose",
 "The tests of bounding boxes need a solver that is not available, and otherwise check one pose each.",
 [S+"box.py", S+"ellipsoid.py", S+"cylinder.py", S+"capsule.py", S+"poly.py"],
 [("aabb, mbb, mib, mbe, mie", S+"*.py"), ("from_points_to_bound, from_two_vertices", S+"box.py")],
 ["aabb", "mbb", "mib", "mbe", "mie", "Box.from_points_to_bound", "Box.from_two_vertices", "endpoints"])
prop("C06", "All representations of inertial parameters agree",
 "Whichever way a set of inertial parameters is given (mass with first moment or centre of mass, second moment or inertia matrix, about the origin or about the centre of mass, parameter vector, pseudo-inertia matrix, point masses), every representation read back describes the same body, and converting to the vector or pseudo-inertia matrix and back is the identity. Adding parameters adds mass, first and second moments, with the massless parameters as neutral element and sum() supported; randomly generated parameter sets are physically consistent; the vector-to-matrix tables used in optimisation agree with the numeric ones.",
 ["inputs"], "every parameter set and every pair of representations, including massless ones",
 "Tests round-trip one or two parameter sets and never use the massless case, which is the default of every body.",
 ["src/rigeo/inertial.py", "src/rigeo/constraint.py", "src/rigeo/util.py"],
 [("InertialParameters", "src/rigeo/inertial.py"), ("pim_sum_vec_matrices, pim_must_equal_vec", "src/rigeo/constraint.py"), ("vech, unvech, H2I, I2H", "src/rigeo/util.py, inertial.py")],
 ["vec", "J", "M", "I", "Ic", "H", "Hc", "h", "com", "from_vec", "from_pim", "from_point_masses", "__add__"])
prop("C07", "Density generators return the moments of the stated mass distribution",
 "The inertial parameters generated for a uniform, hollow or wireframe mass distribution on a shape, or for point masses at a polyhedron's vertices, have exactly the requested total mass, the centre of mass and the second moments of that distribution, at every pose. They are linear in the mass and do not depend on how the axes are labelled.",
 ["inputs"], "every shape, extents, pose and mass",
 "Tests only compare generators with each other up to a factor or check linearity for one shape; the formulas themselves are never compared with the moments.",
 [S+"box.py", S+"ellipsoid.py", S+"cylinder.py", S+"poly.py"],
 [("*_density_params, vertex_point_mass_params", S+"*.py")],
 ["uniform_density_params", "hollow_density_params", "wireframe_density_params", "vertex_point_mass_params"])
prop("C08", "Regressor, lifting operators and spatial algebra agree with the dynamics",
 "For every spatial velocity, acceleration and parameter set, the regressor applied to the parameter vector equals the body wrench computed from the spatial mass matrix, the lifting operators reproduce the matrix-vector products they stand for, and the skew, adjoint and contact-Jacobian operators act as the cross products they represent, with angular components before linear ones throughout. Spatial vectors add, subtract and scale componentwise; the validation error is the weighted root mean square of the wrench error.",
 ["inputs"], "all velocities, accelerations, parameters, points and forces",
 "Tests compare with another library on one random pair; a body wrench is never tested at all.",
 ["src/rigeo/util.py", "src/rigeo/spatial.py", "src/rigeo/rigidbody.py", "src/rigeo/inertial.py"],
 [("skew3, lift3, lift6, contact_jacobian", "src/rigeo/util.py"), ("SpatialVector", "src/rigeo/spatial.py"), ("regressor", "src/rigeo/rigidbody.py"), ("body_wrench, M", "src/rigeo/inertial.py")],
 ["RigidBody.regressor", "InertialParameters.body_wrench", "skew3", "lift3", "lift6", "contact_jacobian", "SpatialVector"])
prop("C09", "Realizability conditions never exclude a realizable mass distribution",
 "Every set of inertial parameters that some non-negative mass distribution inside the shape (or inside the union of a body's shapes) has satisfies the realizability conditions of that shape or body at zero margin: the generated constraints admit it for every relaxation, pose and parameterisation (matrix or vector), and the direct realizability check accepts it.",
 ["inputs", "configurations"], "every shape, pose, mass distribution in the shape, relaxation order and parameterisation",
 "The tests of these constraints all need a commercial solver and fail here; they would sample 100 random distributions per shape in one or two poses.",
 [S+"poly.py", S+"box.py", S+"cylinder.py", S+"ellipsoid.py", "src/rigeo/rigidbody.py", "src/rigeo/moment.py", "src/rigeo/constraint.py"],
 [("moment_*_constraints", S+"*.py"), ("RigidBody.moment_sdp_constraints", "src/rigeo/rigidbody.py"), ("MomentMatrix", "src/rigeo/moment.py"), ("can_realize", S+"ellipsoid.py")],
 ["moment_sdp_constraints", "moment_vertex_constraints", "moment_custom_vertex_constraints", "moment_constraints", "can_realize"])
prop("C10", "Realizability constraint sets are complete",
 "Every generated realizability constraint set makes the pseudo-inertia matrix symmetric and at least the requested margin above singular, ties the mass, the whole first moment and the whole second moment to the underlying mass distribution, and carries a condition from every face, bounding surface, vertex, disk or sub-shape that makes up the shape; no generated condition is left out of the returned list; masses placed at vertices are required to be non-negative. In particular a point mass outside the shape violates some condition, and a positive margin excludes exactly the realizable parameter sets that are not that far above singular.",
 ["inputs", "configurations"], "every shape kind, relaxation, margin and parameterisation",
 "No test reads the constraint list, and every test that solves with it needs an unavailable solver; a missing constraint leaves feasibility tests green.",
 [S+"poly.py", S+"box.py", S+"cylinder.py", S+"ellipsoid.py", "src/rigeo/rigidbody.py", "src/rigeo/moment.py", "src/rigeo/constraint.py"],
 [("psd_constraints and eps", "src/rigeo/constraint.py"), ("localizing and moment constraints", "src/rigeo/moment.py")],
 ["the lists returned by the realizability constraint generators", "can_realize", "consistent"])
prop("C11", "Generated optimisation problems are always convex",
 "Every constraint and objective the library generates from decision variables or affine expressions of them is accepted by disciplined convex programming: equalities and matrix inequalities are affine in all decision variables, inequalities and objectives have the right curvature, no product of two decision variables occurs.",
 ["inputs", "programs"], "every shape, pose and option, and every decision expression passed by the caller",
 "A curvature error only shows when a problem is solved; all such tests fail here for lack of a solver licence.",
 ["src/rigeo/closest.py", "src/rigeo/constraint.py", "src/rigeo/moment.py", S+"ellipsoid.py", S+"poly.py", S+"box.py", S+"cylinder.py", S+"capsule.py", "src/rigeo/rigidbody.py"],
 [("constraint generators and problem builders", "all of the above")],
 ["must_contain", "moment_*constraints", "closest_points", "mbe_of_points", "mbe_of_ellipsoids", "mie", "contains_ellipsoid"])
prop("C12", "Moment-index, polynomial and moment-matrix algebra is exact",
 "The monomial basis of degree d in n variables lists every monomial of degree at most d exactly once, in number equal to the stated dimension, for every n >= 1 and d >= 0; polynomial addition, evaluation, localisation and degree agree with ordinary polynomial arithmetic; affine half-space polynomials equal b - a.x. Entry (i, j) of a moment matrix is the product of basis monomials i and j, and the localising matrix of a polynomial is the moment matrix of its product with the polynomial, of the order that its degree requires.",
 ["inputs", "configurations"], "every dimension, relaxation order and polynomial",
 "Tests look at one 3x3 moment matrix and five polynomials.",
 ["src/rigeo/moment.py"],
 [("MomentIndex, Polynomial, MomentMatrix", "src/rigeo/moment.py")],
 ["Polynomial.*", "MomentIndex.*", "MomentMatrix.indices/localizing_matrix/localize/moment_constraints"])
prop("C13", "Half-space and vertex representations keep their meaning in conversion",
 "Converting a polyhedron between vertex form, half-space form and the double-description backend keeps its meaning: vertices, rays and lines are tagged as such and read back as such, half-space rows keep sign and offset, equalities become two opposite inequalities, and each matrix is labelled with the representation it holds. Intersecting stacks both polyhedra's half-spaces and returns nothing exactly when the intersection is empty; unbounded or empty input to a polyhedron is rejected with a value error.",
 ["inputs"], "every polyhedron, with any mix of vertices, rays, lines, inequalities and equalities",
 "Tests convert boxes and one plane; sign or labelling slips cancel when written and read by the same code on symmetric shapes.",
 ["src/rigeo/polydd.py", S+"poly.py"],
 [("SpanForm, FaceForm conversions", "src/rigeo/polydd.py"), ("intersect, __init__", S+"poly.py")],
 ["SpanForm.to_cdd_matrix/from_cdd_matrix", "FaceForm.to_cdd_matrix/from_cdd_matrix", "ConvexPolyhedron.intersect/from_*"])
prop("C14", "Operations never modify their operands",
 "No public operation changes the observable state of the object it is called on or of any argument the caller passed (arrays, lists, shapes, parameters, polynomials, bodies): every result is a new object or an unmodified existing one. Only a random generator passed in is advanced.",
 ["inputs", "histories"], "every public operation and every sequence of calls",
 "Tests compare results, not operands after the call; an in-place update only shows when an operand is reused.",
 ["src/rigeo/*.py", "src/rigeo/shape/*.py"],
 [("copies and out-of-place arithmetic", "all modules")],
 ["all public functions and methods"])
prop("C15", "All randomness comes from the generator or seed passed in",
 "Every random operation draws only from the generator or seed its caller passes: equal seeds give equal results regardless of global random state, time or earlier calls, a passed generator is used directly and advanced rather than re-seeded, and no two draws of one call come from separately re-seeded copies of the same seed. Operations without a random argument are deterministic.",
 ["inputs", "histories", "schedules"], "every random operation, seed and call history",
 "Tests fix a seed and look at one call; reuse of a stream or a stray global draw does not fail them.",
 ["src/rigeo/random.py", "src/rigeo/inertial.py", "src/rigeo/spatial.py", "src/rigeo/shape/*.py"],
 [("rng parameters", "all samplers")],
 ["random_*", "random", "random_diag_normal", "rejection_sample"])
prop("C16", "Options passed by the caller are honoured everywhere",
 "Every tolerance, margin, scale, relaxation order, weight, solver choice, sphere flag, pruning flag and random source a caller passes reaches everything the call does with it: it is forwarded unchanged to each delegated operation that accepts it and influences the result, and the default is used only when the caller passes nothing.",
 ["inputs", "configurations"], "every option of every public operation",
 "Tests use default options almost everywhere.",
 ["src/rigeo/*.py", "src/rigeo/shape/*.py"],
 [("keyword options and delegation", "all modules")],
 ["contains(tol)", "is_same(tol)", "must_contain(scale)", "*(solver)", "*(sphere)", "*(eps)", "*(d)", "validation_rmse(W)", "grid", "vech(k)"])
prop("C17", "Shapes are interchangeable and every internal and documented call binds",
 "Every concrete shape implements every operation of the abstract shape interface and accepts all of its keyword options, so any shape can stand wherever the library or a script calls a shape. Every call the library, its example scripts and its experiments make to the library names something that exists and passes arguments it accepts.",
 ["programs", "inputs"], "every shape kind at every call site of a shape operation",
 "Python binds late; tests only exercise a few shape/operation combinations.",
 ["src/rigeo/shape/*.py", "src/rigeo/*.py", "scripts/examples", "scripts/experiments"],
 [("Shape ABC", S+"base.py"), ("polymorphic calls", "src/rigeo/rigidbody.py, closest.py, capsule.py, random.py")],
 ["all shape methods", "RigidBody.mbes", "Capsule.is_same"])
prop("C18", "Invalid input never yields an object or a silent answer",
 "A shape, parameter set or spatial vector is never created from invalid data: negative extents, radii, lengths or masses, non-finite extents, arrays of the wrong size, contradictory specifications (two first moments, two second moments), non-square or wrong-size matrices, and non-positive durations, grid counts or simplex extents are always rejected with an error, while all valid data, including zero extents and zero mass, is accepted.",
 ["inputs"], "every constructor and generator, every kind of invalid argument",
 "Tests construct valid objects only, apart from one unbounded polyhedron.",
 ["src/rigeo/shape/*.py", "src/rigeo/inertial.py", "src/rigeo/spatial.py", "src/rigeo/util.py", "src/rigeo/constraint.py"],
 [("assert/raise guards", "constructors and entry points")],
 ["constructors", "*_density_params", "from_vec", "from_pim", "compute_evaluation_times", "unvech", "simplex"])
prop("C19", "Physical quantities are dimensionally homogeneous",
 "Every geometric and inertial quantity the library computes is dimensionally homogeneous: changing the unit of length, mass or time rescales each result by the power its physical dimension dictates, numerical tolerances aside. No sum, comparison or matrix entry mixes quantities of different dimension.",
 ["inputs"], "every public computation and every choice of units",
 "Tests use extents, masses and radii close to one, where a wrong power of a quantity is invisible.",
 ["src/rigeo/*.py", "src/rigeo/shape/*.py"],
 [("arithmetic on lengths, masses, moments", "all modules")],
 ["all public computations"])
prop("C20", "Optimised ellipsoids are posed and reconstructed correctly",
 "The convex programs behind minimum bounding ellipsoids (of points and of ellipsoids), maximum inscribed ellipsoids and ellipsoid-in-ellipsoid tests constrain exactly the stated containment for every input item, optimise the stated volume measure in the right direction, and the returned ellipsoid is exactly the one the optimal variables describe, in the original coordinates, also for degenerate inputs and when a sphere is requested.",
 ["inputs"], "every point set, set of ellipsoids and polyhedron, full-dimensional or degenerate",
 "All tests that reach these programs fail here (solver licence); the sphere option is never tested.",
 [S+"ellipsoid.py", S+"poly.py"],
 [("mbe_of_points, mbe_of_ellipsoids, mie_inequality_form, contains_ellipsoid", S+"ellipsoid.py"), ("mie", S+"poly.py"), ("from_affine, from_shape_matrix", S+"ellipsoid.py")],
 ["mbe_of_points", "mbe_of_ellipsoids", "ConvexPolyhedron.mie", "Ellipsoid.contains_ellipsoid", "Ellipsoid.from_affine", "Ellipsoid.S/E/A/b/Q"])
prop("C21", "Equality of shapes is an equivalence, and flat shapes are treated consistently",
 "Comparing shapes is reflexive and, up to the comparison tolerance, symmetric for every shape, including flat ones and boxes compared with general polyhedra, distinguishes shapes that differ in any extent, position or orientation, and never raises for shapes of different kinds. An ellipsoid whose extent along an axis is numerically zero is treated as flat alike by its membership, containment, surface, realizability and moment-constraint operations, and no operation that supports flat shapes produces NaN or infinity for them.",
 ["inputs"], "every pair of shapes, every pattern of zero or near-zero extents",
 "Tests never compare a shape with itself when flat, never compare a box with a polyhedron in both orders and never use tiny extents.",
 [S+"ellipsoid.py", S+"poly.py", S+"cylinder.py", S+"capsule.py", "src/rigeo/inertial.py"],
 [("is_same", S+"*.py"), ("rank, _z, half_extents_inv, Q", S+"ellipsoid.py")],
 ["is_same", "rank", "is_degenerate", "contains", "moment_constraints", "can_realize"])
prop("C22", "Rejection sampling fills its whole output or fails",
 "A rejection sampler returns only after every requested slot has been filled with an accepted candidate, keeps accepted candidates and drops rejected ones, and never overwrites or skips a slot; the general-purpose rejection sampler always stops after its maximum number of tries with a value error, also when no candidate is ever accepted.",
 ["inputs", "schedules"], "every acceptance pattern the random stream can produce",
 "Tests see the acceptance patterns of one or two seeds.",
 ["src/rigeo/random.py", S+"ellipsoid.py"],
 [("rejection_sample", "src/rigeo/random.py"), ("random_points_on_surface", S+"ellipsoid.py")],
 ["rejection_sample", "Ellipsoid.random_points_on_surface", "Capsule.random_points"])
prop("C23", "The package only needs what it declares to need",
 "Every module of the installed package parses on the oldest supported Python version and uses no newer standard-library feature, imports only the standard library, its declared dependencies and its own existing modules, uses no array-library feature removed in a version its dependency ranges allow, and everything the module reference documents exists.",
 ["configurations"], "every supported Python and dependency version",
 "Tests run on one Python and one set of library versions.",
 ["pyproject.toml", "src/rigeo", "docs/src/modules.rst"],
 [("requires-python, dependencies", "pyproject.toml"), ("automodule targets", "docs/src/modules.rst")],
 ["import rigeo under any supported configuration"])
prop("C24", "Samplers are uniformly distributed",
 "Given a generator whose draws are independent and follow the law they are asked for, every point returned by the volume samplers of box, ellipsoid (in any dimension), cylinder and capsule, by the surface and edge samplers of the box, by the surface sampler of the ellipsoid, by the ball and sphere generators and by rejection sampling in a bounding shape is uniformly distributed on its set, at every pose and for every extents; different points of one call share no draw and do not depend on their position in the output.",
 ["inputs"], "every shape, pose and random stream",
 "A distribution is a statement about infinitely many draws; the tests compare one volume ratio.",
 ["src/rigeo/random.py", "src/rigeo/shape/*.py"], [("random_points*, rejection_sample", "src/rigeo/random.py, shape/*.py")], ["random_points", "random_points_on_surface", "random_points_on_edges", "random_points_in_ball", "random_points_on_hypersphere", "rejection_sample"])
# properties that this family cannot decide
prop("N02", "Optimised ellipsoids have extremal volume and solver results are accurate",
 "The minimum bounding and maximum inscribed ellipsoids returned have extremal volume up to solver accuracy, and closest-point distances are accurate.",
 ["inputs"], "every input of the optimisation-based queries",
 "Needs the numerical optimum of a solver for every input.",
 [S+"ellipsoid.py", "src/rigeo/closest.py"], [("cvxpy problems", S+"ellipsoid.py")], ["mbe_of_points", "closest_points"])
prop("N03", "Convex hulls and double-description results are geometrically exact",
 "The convex hull returns exactly the extreme points of a set, and vertex and half-space forms describe the same polyhedron, for every input.",
 ["inputs"], "every point set and polyhedron",
 "Tests use a cube, a square and a few random points.",
 ["src/rigeo/polydd.py"], [("cdd", "src/rigeo/polydd.py")], ["convex_hull", "to_face_form", "to_span_form"])
prop("N04", "Results are accurate to floating-point precision",
 "Rounding errors in membership tests, transforms, triangular-number tests and parameter conversions stay within the stated tolerances for all magnitudes of input.",
 ["inputs"], "every input magnitude",
 "Tests use inputs of order one.",
 ["src/rigeo"], [("floating-point arithmetic", "all modules")], ["all numeric results"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
