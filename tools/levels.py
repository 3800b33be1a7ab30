"""Technique and level note of each property, used by gen_manifest.py."""
AI = "abstract interpretation of the source over an algebraic value domain (value numbering of canonical forms)"
BASE = ("Each obligation holds for all real inputs of the analysed array sizes; control flow is followed on the source AST, "
        "undetermined branches are split. Trusts the transfer functions for numpy/scipy/cvxpy/cddlib and real arithmetic. "
        "An obligation the analysis cannot decide is counted as undecided in the evidence and claims nothing. ")
LEVELS = {
    "C06": (AI + "; one abstract body is written in every accepted form and read back through every representation", BASE + "Covers every combination of mass, first moment or centre of mass, second moment or inertia, reference point, generic and massless bodies; half-vectorisation up to size 4 (5 in the thorough tier), triangular numbers below 200 (800). "),
    "C07": (AI + "; generated moments compared with the exact integrals of the distribution", BASE + "The surface of an ellipsoid has no elementary closed form; necessary relations are checked there and the disk case is a listed finding. "),
    "C08": (AI + "; operator identities on abstract vectors, twists and parameters", BASE),
    "C05": (AI + "; an abstract member of the inner shape is placed in the outer shape's inequalities, axis-aligned boxes are compared with support functions", BASE + "Covers every closed-form aabb/mbb/mib/mbe/mie with generic, centred, aligned, default and zero poses and every pattern of zero extents; point sets of 1-5 points. Extremality is checked as equality with the closed-form extremal size, not re-derived. Solver-produced ellipsoids are C20. "),
    "C04": (AI + ", equality of each transformed object with the image it must be", BASE + "Rotations are abstract matrices subject only to R^T R = I, det R = 1; the double description backend is assumed to convert correctly."),
    "C02": (AI + "; the generated constraint lists are read back as conditions and compared with membership", BASE + "Schur complements are eliminated under a positive diagonal block; the capsule's existential variables are discharged with a witness family. The solver call itself is a record, its result is not computed."),
    "C03": (AI + "; every sample is an expression in bounded draw atoms, placed in the shape's inequalities", BASE + "Requested shapes are the listed ones; the allocation of samples to faces and edges is enumerated; each loop of a rejection sampler is followed for a bounded number of iterations."),
    "C01": (AI + ", comparison of the computed inequality set with the posed shape's", BASE + "Covers dimensions 1-3 (4 in the thorough tier), single points and batches, every pattern of zero extents."),
    "C12": (AI + "; identities of the moment index, polynomial and matrix algebra on abstract coefficients and exhaustive small index sets", BASE + "Index sets are enumerated up to dimension 4 and degree 4; coefficients are abstract. "),
    "C13": (AI + "; rows handed to and read back from the double description library are compared with the represented set", BASE + "The library call itself is a record with abstract answer rows (bounded number of rows per kind); its arithmetic is not analysed (N03)."),
    "C14": ("effect analysis on the abstract interpretation of every public operation: content of each operand by path before and after", "Every public function, constructor, method, property and operator with each argument form of the catalogue, all traces up to the limit, including those that end in an exception. One abstract instance per kind of operand. "),
    "C15": ("provenance (taint) analysis of every random draw and effect analysis of hidden state on the abstract interpretation of every public operation", "Every public operation with a generator, an integer seed and seed 0; traces up to the limit. Hidden state is searched in module variables, class attributes, mutable defaults, caches and attributes; where an operation writes some, results with and without earlier calls are compared abstractly. "),
    "C16": ("option-flow (taint) analysis on the abstract interpretation: an abstract token per option, judged at the sinks where it takes effect", "Every option of every operation of the catalogue and bodies made of each kind of shape. The random source is C15, the number of tries C22; the meaning of a tolerance or margin is C01, C02, C10. "),
    "C17": ("interface conformance and call-binding lint over the syntax tree with type inference through calls, plus abstract interpretation of every operation that takes any shape", "Covers the library, every script, all ordered pairs of shape kinds at operations taking shapes, and every analysed trace of every public operation. Names whose type the inference does not know are counted, not judged. "),
    "C18": (AI + "; every constructor and generator is evaluated on abstract invalid and boundary data and the end of each trace (exception or value) is judged", BASE + "Wrong array shapes and counts are the listed ones; any negative value is one abstract number. "),
    "C19": ("dimensional analysis: inference of units of measure by unification over the values, conditions and constraints of the abstract interpretation", BASE + "Every public operation of the catalogue with units on its operands; units of decision variables and library answers are inferred. A pure number below 1e-4 is taken for a tolerance. "),
    "C20": (AI + "; the recorded convex programs are evaluated at an abstract optimum in spectral form and their feasible sets compared with the containments by normal forms", BASE + "Point sets of full and lower rank in 1, 2 and 3 dimensions, up to 5 points and 4 half-spaces; 2 to 3 ellipsoids. Optimality of the solver's answer is N02. "),
    "C21": (AI + "; equality is evaluated on abstract pairs in both orders, flatness tests are reduced to the extent at which they switch, and results for flat shapes are searched for infinities", BASE + "All ordered pairs of kinds, every pattern of zero extents, one doubled or halved extent, one shift along each axis, one turn in each plane. Tolerances are read as equalities (with relative tolerances equality is symmetric only up to the tolerance). "),
    "C22": (AI + "; every acceptance pattern of bounded length is imposed on the membership tests and the filled slots are traced back to candidates by their draws", BASE + "Acceptance patterns are enumerated up to the listed number of rounds and samples; that a rejection loop ends is not claimed."),
    "C23": ("compatibility lint over the syntax tree: grammar of the oldest supported Python, import and name resolution, tables of standard-library and dependency features by version", "Covers every module the package loads or documents. What the tables do not list is not judged; behaviour that changed between versions under the same name is not judged."),
    "C11": (AI + "; curvature of every recorded constraint and objective derived by the composition rules of disciplined convex programming", BASE + "Every public operation of the catalogue plus every shape, pair of shapes, relaxation order 1-2 (3 in the thorough tier) and kind of decision operand (variable, positive semidefinite variable, affine expression)."),
    "C09": (AI + "; the generated constraint list, with the moments of an abstract member point mass substituted, is decided block by block: matrix blocks are decomposed into sums of squares, linear rows into non-negative multiples of membership slacks", BASE + "A point mass at any member of the shape; the conditions are convex cones, so mixtures of point masses follow. Relaxation orders 1-2 (3 for boxes), every pose kind and flat pattern, bodies of 1-3 shapes. "),
    "C10": (AI + "; the generated constraint list is searched for each required tie (symmetry, margin, mass, first and second moments, every bounding condition) and shown to be violated by an abstract perturbation along it", BASE + "Completeness against mixtures that are no point mass is claimed only for the localising conditions. Equalities and matrix conditions whose residual in the size of a defect is nonzero at sampled shapes of the family are taken to be nonzero for generic shapes. "),
    "C24": ("type-and-effect style calculus of probability laws over the draws recorded by the abstract interpretation; a moment of the derived law, integrated over the draws of the normal form, refutes uniformity", BASE + "Laws the calculus does not know and whose moments up to order four agree with the uniform ones are undecided. Polyhedra are documented as not uniform and excluded. "),
}
NA = {
    "N02": "optimal values depend on the numeric convergence of external solvers (CLARABEL, SCS), which no analysis of this source bounds; the formulation itself is checked under C11 and C20",
    "N03": "exactness of hulls and double description is a property of the external cddlib arithmetic for each run-time input; the conversions around it are checked under C13",
    "N04": "rounding error depends on run-time magnitudes; a sound static floating-point bound over unbounded inputs through numpy/LAPACK is not in reach",
}
