"""The rows handed to and read back from the double-description backend are tracked as
abstract matrices: vertices, rays, lines, inequalities and equalities must keep their
tag, sign and offset through every conversion, every matrix must carry the
representation label of what it holds, and what the backend answers (including an
empty set or a set with rays) must reach the result or be rejected."""
from ..core import *
from ..build import *

LEVEL = "other"
ASSUMPTIONS = ["cddlib returns the other representation of the rows it is given, vertices scaled to a leading 1 and rays or lines with a leading 0 (N03)", "2 and 3 dimensions, up to four rows of each kind"]


def key(row):
    """Fingerprint of a vector."""
    return tuple(R(x).fp() for x in row)


def rows(a):
    a = np_obj(a)
    return sorted(key(r) for r in a.reshape(-1, a.shape[-1])) if a.size else []


def facekey(b, a):
    """Half-space b - a.x >= 0 up to a positive factor (constant entries only)."""
    return key([*a, b])


def faces(C, o):
    A, b = np_obj(C.attr(o, "A")), np_obj(C.attr(o, "b"))
    return sorted(facekey(b[i], A[i]) for i in range(A.shape[0]))


def spans(C, o):
    """(vertices, rays) of a span form as multisets."""
    v, r = C.attr(o, "vertices"), C.attr(o, "rays")
    return rows(v) if v is not None else [], rows(r) if r is not None else []


def vr(C, n, nv, nr, nl, tag=""):
    V = [np_obj([C.sym(f"v{tag}{i}{j}") for j in range(n)]) for i in range(nv)]
    Q = [np_obj([C.sym(f"r{tag}{i}{j}", unit=ONE) for j in range(n)]) for i in range(nr)]
    S = [np_obj([C.sym(f"s{tag}{i}{j}", unit=ONE) for j in range(n)]) for i in range(nl)]
    return V, Q, S


def tagged(V, Q, S):
    """Rows a generator matrix has to hold, lines as two opposite rays."""
    one = [key([Rat.const(1), *v]) for v in V] + [key([Z, *r]) for r in Q]
    return sorted(one + [key([Z, *s]) for s in S] + [key([Z, *mul(s, -1)]) for s in S])


def matrix_rows(m):
    """Rows of a backend matrix, linear rows expanded into two opposite ones."""
    out = []
    for i, r in enumerate(m.rows):
        out.append(key(r))
        if i in m.lin:
            out.append(key([-R(x) for x in r]))
    return sorted(out)


KINDS = [(3, 0, 0), (1, 0, 0), (2, 2, 0), (0, 2, 0), (0, 0, 2), (2, 0, 1), (1, 2, 1), (0, 1, 1)]


def opt(C, X, lst=False):
    if not X:
        return {}
    return [list(x) for x in X] if lst else C.A(np_obj(X))


def span_kw(C, V, Q, S, lst=False):
    kw = {}
    for k, X in (("vertices", V), ("rays", Q), ("span", S)):
        if X:
            kw[k] = opt(C, X, lst and k != "span")
    return kw


def span(C):
    for n in (2, 3):
        for kd in KINDS:
            for lst in (False, True):
                def f():
                    V, Q, S = vr(C, n, *kd)
                    o = C.call("SpanForm", **span_kw(C, V, Q, S, lst))
                    v, r = spans(C, o)
                    yield (v == rows(np_obj(V)) if V else not v or "diff", f"vertices of a span form {kd}")
                    want = sorted([key(q) for q in Q] + [key(s) for s in S] + [key(mul(s, -1)) for s in S])
                    yield (r == want or "diff", f"rays of a span form {kd}: lines become two opposite rays")
                    yield C.same(C.attr(o, "nv"), len(V), "number of vertices", "SpanForm.nv")
                    yield C.same(C.attr(o, "nr"), len(Q) + 2 * len(S), "number of rays", "SpanForm.nr")
                    yield C.same(C.attr(o, "dim"), n, "dimension", "SpanForm.dim")
                    yield C.same_bool(C.meth(o, "bounded"), bool(V) and not Q and not S, f"bounded with {kd}", "SpanForm.bounded")
                    yield C.same_bool(C.meth(o, "is_cone"), not V, f"cone with {kd}", "SpanForm.is_cone")
                    if V:
                        yield (list(map(key, np_obj(C.attr(o, "vertices")))) == list(map(key, V)) or "diff", "vertices keep their order")

                C.run("span-form", "SpanForm.__init__", f)

            def to():
                V, Q, S = vr(C, n, *kd)
                o = C.call("SpanForm", **span_kw(C, V, Q, S))
                m = C.meth(o, "to_cdd_matrix")
                yield (m.rep.n == "GENERATOR" or "diff", f"matrix of generators is labelled {m.rep.n}")
                yield (matrix_rows(m) == tagged(V, Q, S) or "diff", f"generator rows of {kd}: vertices with a leading 1, rays and lines with a leading 0")

            C.run("span-to-backend", "SpanForm.to_cdd_matrix", to)

            for order in ("vrs", "srv", "rsv"):
                def frm():
                    V, Q, S = vr(C, n, *kd)
                    blk = {"v": [[Rat.const(1), *v] for v in V], "r": [[Z, *r] for r in Q], "s": [[Z, *s] for s in S]}
                    rs, lin = [], []
                    for k in order:
                        if k == "s":
                            lin = list(range(len(rs), len(rs) + len(S)))
                        rs += blk[k]
                    m = C.I.cdd_from_rows(rs, lin, "GENERATOR", n + 1)
                    o = C.call("SpanForm.from_cdd_matrix", m)
                    v, r = spans(C, o)
                    yield (v == sorted(map(key, V)) or "diff", f"vertices read back from {kd} rows in order {order}")
                    want = sorted([key(q) for q in Q] + [key(s) for s in S] + [key(mul(s, -1)) for s in S])
                    yield (r == want or "diff", f"rays and lines read back from {kd} rows in order {order}")
                    yield C.same_bool(C.meth(o, "bounded"), bool(V) and not Q and not S, f"bounded as read back with {kd}", "SpanForm.bounded")

                C.run("span-from-backend", "SpanForm.from_cdd_matrix", frm)

        def empty():
            m = C.I.cdd_from_rows([], [], "GENERATOR", n + 1)
            o = C.call("SpanForm.from_cdd_matrix", m)
            yield (o is None or "diff", "an empty set of generators reads back as nothing")

        C.run("span-from-backend", "SpanForm.from_cdd_matrix", empty)

        # conversion to faces and canonical form
        for kd in KINDS:
            def conv():
                V, Q, S = vr(C, n, *kd)
                F = [[C.sym(f"f{i}{j}", unit=ONE) for j in range(n + 1)] for i in range(3)]
                log = []

                def hook(kind, m):
                    log.append((kind, m.rep.n, matrix_rows(m)))
                    return F, [1]

                C.I.scenario["cdd"] = hook
                o = C.call("SpanForm", **span_kw(C, V, Q, S))
                ff = C.meth(o, "to_face_form")
                yield (len(log) == 1 and log[0][0] == "inequalities" and log[0][1] == "GENERATOR" or "diff", "faces are asked for the generators handed over")
                yield (log and log[0][2] == tagged(V, Q, S) or "diff", f"the generators of {kd} are handed to the backend")
                want = [facekey(F[i][0], mul(np_obj(F[i][1:]), -1)) for i in range(3)] + [facekey(-F[1][0], np_obj(F[1][1:]))]
                yield (faces(C, ff) == sorted(want) or "diff", "inequality rows [b -A] read back, an equality as two opposite inequalities", "FaceForm.from_cdd_matrix")

            C.run("span-to-faces", "SpanForm.to_face_form", conv)

            def can():
                V, Q, S = vr(C, n, *kd)
                seen, gone = [], []

                def hook(m):
                    seen.append((m.rep.n, matrix_rows(m)))
                    gone.append(key(m.rows.pop(1)) if len(m.rows) > 2 else None)

                C.I.scenario["canonicalize"] = hook
                o = C.call("SpanForm", **span_kw(C, V, Q, S))
                c = C.meth(o, "canonical")
                yield (len(seen) == 1 and seen[0] == ("GENERATOR", tagged(V, Q, S)) or "diff", f"the generators of {kd} are canonicalised")
                exp = [[Rat.const(1), *v] for v in V] + [[Z, *r] for r in Q] + [[Z, *s] for s in S] + [[Z, *mul(s, -1)] for s in S]
                exp = [x for x in exp if key(x) not in gone]
                v, r = spans(C, c)
                yield (v == sorted(key(x[1:]) for x in exp if R(x[0]).same(R(1))) and r == sorted(key(x[1:]) for x in exp if R(x[0]).is_zero()) or "diff", f"the remaining generators of {kd} are read back")
                v, r = spans(C, o)
                yield (v == sorted(map(key, V)) or "diff", "the original is unchanged")

            C.run("span-canonical", "SpanForm.canonical", can)


def face(C):
    for n in (2, 3):
        for nf, ne in ((3, 0), (4, 0), (2, 1), (3, 2), (1, 1)):
            def mk():
                A = np_obj(C.mat("A", nf, n, ONE))
                b = np_obj([C.sym(f"b{i}") for i in range(nf)])
                E_ = np_obj(C.mat("E", ne, n, ONE)) if ne else None
                e = np_obj([C.sym(f"e{i}") for i in range(ne)]) if ne else None
                kw = {} if not ne else dict(A_eq=C.A(E_), b_eq=C.A(e))
                o = C.call("FaceForm", C.A(A), C.A(b), **kw)
                want = [facekey(b[i], A[i]) for i in range(nf)]
                for i in range(ne):
                    want += [facekey(e[i], E_[i]), facekey(-e[i], mul(E_[i], -1))]
                return o, sorted(want), (A, b, E_, e)

            def f():
                o, want, _ = mk()
                yield (faces(C, o) == want or "diff", f"face form of {nf} inequalities and {ne} equalities: each equality is two opposite inequalities")
                yield C.same(C.attr(o, "nf"), nf + 2 * ne, "number of faces", "FaceForm.nf")
                yield C.same(C.attr(o, "dim"), n, "dimension", "FaceForm.dim")
                m = C.meth(o, "to_cdd_matrix")
                yield (m.rep.n == "INEQUALITY" or "diff", f"matrix of inequalities is labelled {m.rep.n}", "FaceForm.to_cdd_matrix")
                got = sorted(facekey(r[0], [-R(x) for x in r[1:]]) for r in m.rows)
                lin = sorted(facekey(-R(m.rows[i][0]), m.rows[i][1:]) for i in m.lin)
                yield (sorted(got + lin) == want or "diff", "inequality rows are [b -A]", "FaceForm.to_cdd_matrix")

            C.run("face-form", "FaceForm.__init__", f)

            for lin in ([], [0], [nf + ne - 1]):
                def frm():
                    n_ = nf + ne
                    Rw = [[C.sym(f"f{i}{j}", unit=ONE) for j in range(n + 1)] for i in range(n_)]
                    if len(lin) == n_:
                        return
                    m = C.I.cdd_from_rows(Rw, lin, "INEQUALITY", n + 1)
                    o = C.call("FaceForm.from_cdd_matrix", m)
                    want = [facekey(r[0], [-R(x) for x in r[1:]]) for r in Rw] + [facekey(-R(Rw[i][0]), Rw[i][1:]) for i in lin]
                    yield (faces(C, o) == sorted(want) or "diff", f"half-spaces read back from [b -A] rows with equalities {lin}")

                C.run("face-from-backend", "FaceForm.from_cdd_matrix", frm)

            def conv():
                V, Q, S = vr(C, n, 2, 1, 1)
                log = []

                def hook(kind, m):
                    log.append((kind, m.rep.n, sorted(facekey(r[0], [-R(x) for x in r[1:]]) for r in m.rows)))
                    return [[Rat.const(1), *v] for v in V] + [[Z, *Q[0]], [Z, *S[0]]], [3]

                C.I.scenario["cdd"] = hook
                o, want, _ = mk()
                s = C.meth(o, "to_span_form")
                yield (log == [("generators", "INEQUALITY", want)] or "diff", "generators are asked for the inequalities handed over")
                v, r = spans(C, s)
                yield (v == sorted(map(key, V)) and r == sorted([key(Q[0]), key(S[0]), key(mul(S[0], -1))]) or "diff", "generators read back with their tags", "SpanForm.from_cdd_matrix")

            C.run("faces-to-span", "FaceForm.to_span_form", conv)

            def can():
                o, want, _ = mk()
                seen = []

                def hook(m):
                    seen.append((m.rep.n, sorted(facekey(r[0], [-R(x) for x in r[1:]]) for r in m.rows)))
                    m.rows.pop(0)
                    m.lin = {0} if len(m.rows) > 1 else set()

                C.I.scenario["canonicalize"] = hook
                m0 = [list(r) for r in C.meth(o, "to_cdd_matrix").rows]
                c = C.meth(o, "canonical")
                yield (seen == [("INEQUALITY", want)] or "diff", "the inequalities are canonicalised")
                m0.pop(0)
                exp = [facekey(r[0], [-R(x) for x in r[1:]]) for r in m0]
                if len(m0) > 1:
                    exp.append(facekey(-R(m0[0][0]), m0[0][1:]))
                yield (faces(C, c) == sorted(exp) or "diff", "the remaining rows are read back, implicit equalities as two inequalities")

            if nf + 2 * ne > 1:
                C.run("face-canonical", "FaceForm.canonical", can)

        def stack():
            A1, b1 = np_obj(C.mat("A", 3, n, ONE)), np_obj([C.sym(f"b{i}") for i in range(3)])
            A2, b2 = np_obj(C.mat("D", 2, n, ONE)), np_obj([C.sym(f"d{i}") for i in range(2)])
            o1, o2 = C.call("FaceForm", C.A(A1), C.A(b1)), C.call("FaceForm", C.A(A2), C.A(b2))
            for x, y, w in ((o1, o2, "a, b"), (o2, o1, "b, a")):
                s = C.meth(x, "stack", y)
                yield (faces(C, s) == sorted([facekey(b1[i], A1[i]) for i in range(3)] + [facekey(b2[i], A2[i]) for i in range(2)]) or "diff", f"stacking {w} keeps every half-space of both")
            yield (C.attr(o1, "nf") == 3 or "diff", "stacking leaves its operands unchanged")

        C.run("stack", "FaceForm.stack", stack)


def backend(C, V=None, F=None, log=None):
    """Answers of the backend: generators -> V rows, inequalities -> F rows."""
    def hook(kind, m):
        if log is not None:
            log.append((kind, m.rep.n, [list(r) for r in m.rows], set(m.lin)))
        if kind == "generators":
            return V
        return F

    return hook


def polyhedron(C):
    for n in (2, 3):
        for nv in (n + 1, n + 2):
            V = [np_obj([C.sym(f"v{i}{j}") for j in range(n)]) for i in range(nv)]
            F = [[C.sym(f"f{i}{j}", unit=ONE) for j in range(n + 1)] for i in range(nv)]
            fk = sorted(facekey(r[0], [-R(x) for x in r[1:]]) for r in F)
            gen = ([[Rat.const(1), *v] for v in V], [])

            def fromv():
                log = []
                C.I.scenario["cdd"] = backend(C, None, (F, []), log)
                o = C.call("ConvexPolyhedron.from_vertices", C.A(np_obj(V)))
                yield (list(map(key, np_obj(C.attr(o, "vertices")))) == list(map(key, V)) or "diff", "vertices kept")
                yield (faces(C, o) == fk or "diff", "half-spaces are those of the vertices", "ConvexPolyhedron.A")
                yield (len(log) == 1 and sorted(map(key, log[0][2])) == sorted(map(key, gen[0])) or "diff", "the vertices are handed to the backend")
                yield C.same(C.attr(o, "nv"), nv, "number of vertices", "ConvexPolyhedron.nv")
                yield C.same(C.attr(o, "nf"), nv, "number of faces", "ConvexPolyhedron.nf")
                yield C.same(C.attr(o, "dim"), n, "dimension", "ConvexPolyhedron.dim")
                yield ([r for r in C.I.records if r[0] == "canonicalize"] == [] or "diff", "vertices are only pruned on request")

            C.run("polyhedron-from-vertices", "ConvexPolyhedron.from_vertices", fromv)

            def prunev():
                gone = []
                C.I.scenario["canonicalize"] = lambda m: gone.append(key(m.rows.pop(0)[1:]))
                log = []
                C.I.scenario["cdd"] = backend(C, None, (F, []), log)
                o = C.call("ConvexPolyhedron.from_vertices", C.A(np_obj(V)), prune=True)
                left = [v for v in V if key(v) not in gone]
                yield (rows(C.attr(o, "vertices")) == sorted(map(key, left)) or "diff", "pruned vertices are the ones the backend keeps")
                yield (len(log) == 1 and sorted(map(key, log[0][2])) == sorted(key([Rat.const(1), *v]) for v in left) or "diff", "half-spaces belong to the pruned vertices")

            C.run("polyhedron-from-vertices", "ConvexPolyhedron.from_vertices", prunev)

            A = np_obj([[-R(x) for x in r[1:]] for r in F])
            b = np_obj([r[0] for r in F])

            def fromh():
                log = []
                C.I.scenario["cdd"] = backend(C, gen, None, log)
                o = C.call("ConvexPolyhedron.from_halfspaces", C.A(A), C.A(b))
                yield (faces(C, o) == fk or "diff", "half-spaces kept")
                yield (rows(C.attr(o, "vertices")) == sorted(map(key, V)) or "diff", "vertices are those of the half-spaces")
                yield (len(log) == 1 and sorted(map(key, log[0][2])) == sorted(map(key, F)) and log[0][1] == "INEQUALITY" or "diff", "the half-spaces are handed to the backend")

            C.run("polyhedron-from-halfspaces", "ConvexPolyhedron.from_halfspaces", fromh)

            def pruneh():
                gone = []
                C.I.scenario["canonicalize"] = lambda m: gone.append(key(m.rows.pop(1)))
                log = []
                C.I.scenario["cdd"] = backend(C, gen, None, log)
                o = C.call("ConvexPolyhedron.from_halfspaces", C.A(A), C.A(b), prune=True)
                yield (faces(C, o) == sorted(facekey(r[0], [-R(x) for x in r[1:]]) for r in F if key(r) not in gone) or "diff", "pruned half-spaces are the ones the backend keeps")
                yield (rows(C.attr(o, "vertices")) == sorted(map(key, V)) or "diff", "vertices of the pruned half-spaces")

            C.run("polyhedron-from-halfspaces", "ConvexPolyhedron.from_halfspaces", pruneh)

            def eqfaces():
                log = []
                C.I.scenario["cdd"] = backend(C, gen, None, log)
                ff = C.call("FaceForm", C.A(A), C.A(b), A_eq=C.A(A[:1]), b_eq=C.A(b[:1]))
                o = C.call("ConvexPolyhedron", face_form=ff)
                yield (faces(C, o) == sorted(fk + [facekey(b[0], A[0]), facekey(-R(b[0]), mul(A[0], -1))]) or "diff", "equalities given with a face form are kept")
                o = C.call("ConvexPolyhedron", span_form=C.call("SpanForm", C.A(np_obj(V))), face_form=ff)
                yield (rows(C.attr(o, "vertices")) == sorted(map(key, V)) or "diff", "both forms given: kept as they are")
                yield (len(log) == 1 or "diff", "nothing is converted when both forms are given")

            C.run("polyhedron", "ConvexPolyhedron.__init__", eqfaces)

            bad = {
                "empty": ([], []),
                "a ray": ([[Rat.const(1), *V[0]], [Z, *V[1]]], []),
                "a line": ([[Rat.const(1), *V[0]], [Z, *V[1]]], [1]),
                "a cone": ([[Z, *V[0]], [Z, *V[1]]], []),
            }
            for why, ans in bad.items():
                for how in ("from_halfspaces", "init", "pruned"):
                    def rej():
                        C.I.scenario["cdd"] = backend(C, ans, (F, []))
                        C.I.scenario["canonicalize"] = lambda m: None
                        try:
                            if how == "init":
                                o = C.call("ConvexPolyhedron", face_form=C.call("FaceForm", C.A(A), C.A(b)))
                            else:
                                o = C.call("ConvexPolyhedron.from_halfspaces", C.A(A), C.A(b), **({"prune": True} if how == "pruned" else {}))
                        except Raised as e:
                            yield (e.kind == "ValueError" or "diff", f"half-spaces of {why} set are rejected with {e.kind}")
                            return
                        yield ("diff", f"half-spaces of {why} set are accepted as a polyhedron")

                    C.run("unbounded-or-empty", "ConvexPolyhedron.__init__", rej)

            def rejspan():
                for kw in ({"rays": C.A(np_obj(V[:2]))}, {"vertices": C.A(np_obj(V[:2])), "rays": C.A(np_obj(V[2:]))}, {"vertices": C.A(np_obj(V[:2])), "span": C.A(np_obj(V[2:]))}):
                    C.I.scenario["cdd"] = backend(C, gen, (F, []))
                    try:
                        C.call("ConvexPolyhedron", span_form=C.call("SpanForm", **kw))
                    except Raised as e:
                        yield (e.kind == "ValueError" or "diff", f"a span form with {sorted(kw)} is rejected with {e.kind}")
                        continue
                    yield ("diff", f"a span form with {sorted(kw)} is accepted as a polyhedron")

            C.run("unbounded-or-empty", "ConvexPolyhedron.__init__", rejspan)

            # intersection
            for ans in ("empty", "vertices"):
                def inter():
                    s1 = poly(C, 3, nv, n, "P")
                    s2 = poly(C, 4, nv, n, "Q")
                    log = []
                    C.I.scenario["cdd"] = backend(C, ([], []) if ans == "empty" else gen, (F, []), log)
                    o = C.meth(s1.obj, "intersect", s2.obj)
                    g = [x for x in log if x[0] == "generators"]
                    want = sorted([facekey(s.b[i], s.A[i]) for s in (s1, s2) for i in range(s.nf)])
                    yield (len(g) == 1 and sorted(facekey(r[0], [-R(x) for x in r[1:]]) for r in g[0][2]) == want or "diff", "the half-spaces of both polyhedra are intersected")
                    if ans == "empty":
                        yield (o is None or "diff", f"an empty intersection is nothing, not {o!r}")
                    else:
                        yield (o is not None and rows(C.attr(o, "vertices")) == sorted(map(key, V)) or "diff", "the intersection has the vertices the backend reports")

                C.run("intersection", "ConvexPolyhedron.intersect", inter)

        def simplex():
            e = [C.pos(f"e{i}") for i in range(n)]
            F = [[C.sym(f"f{i}{j}", unit=ONE) for j in range(n + 1)] for i in range(n + 1)]
            C.I.scenario["cdd"] = backend(C, None, (F, []))
            for arg in (C.A(e), list(e)):
                o = C.call("ConvexPolyhedron.simplex", arg)
                yield (rows(C.attr(o, "vertices")) == sorted([key(zeros(n))] + [key(diag(e)[i]) for i in range(n)]) or "diff", "vertices of a simplex: the origin and one point on each axis")

        C.run("simplex", "ConvexPolyhedron.simplex", simplex)

        def hull():
            P = [np_obj([C.sym(f"p{i}{j}") for j in range(n)]) for i in range(4)]
            seen, gone = [], []

            def can(m):
                seen.append((m.rep.n, sorted(map(key, m.rows))))
                gone.append(key(m.rows.pop(2)[1:]))

            C.I.scenario["canonicalize"] = can
            h = C.call("convex_hull", C.A(np_obj(P)))
            yield (rows(h) == sorted(key(p) for p in P if key(p) not in gone) or "diff", "the hull is what the backend keeps of the points")
            yield (seen == [("GENERATOR", sorted(key([Rat.const(1), *p]) for p in P))] or "diff", "all points are handed over as vertices")
            yield (rows(C.call("convex_hull", C.A(np_obj(P[:1])))) == [key(P[0])] or "diff", "the hull of one point is the point")

        C.run("convex-hull", "convex_hull", hull)

    def bx():
        h = C.posvec("h")
        s = box(C, "generic", h)
        F = [[C.sym(f"f{i}{j}", unit=ONE) for j in range(4)] for i in range(6)]
        C.I.scenario["cdd"] = backend(C, None, (F, []))
        p = C.meth(s.obj, "as_poly")
        want = [add(mm(s.pose.R, np_obj([R(h[i]) * g[i] for i in range(3)])), s.pose.c) for g in np.ndindex(2, 2, 2) for g in [[1 - 2 * k for k in g]]]
        yield (rows(C.attr(p, "vertices")) == rows(np_obj(want)) or "diff", "a box as a polyhedron has the eight corners")
        yield (C.attr(p, "nf") == 6 or "diff", "a box as a polyhedron has six faces")

    C.run("box-as-polyhedron", "Box.as_poly", bx)


def unordered(C):
    def f():
        n, k = 3, 2
        P = np_obj([[C.sym(f"p{i}{j}", unit=ONE) for j in range(k)] for i in range(n)])
        for pm in ((0, 1, 2), (2, 0, 1), (1, 0, 2)):
            r = C.call("allclose_unordered", C.A(P), C.A(P[list(pm)]))
            yield C.same_bool(r, True, f"rows reordered by {pm} are close")
        import itertools as it

        base = [[1, 2], [3, 4], [5, 6]]
        cases = [(base, base[:2] + [[5, 7]], False), (base[:1] * 2 + base[1:2], base[:1] + base[1:2] * 2, False), (base[:1] * 2 + base[1:2], base[1:2] + base[:1] * 2, True)]
        for a, b, want in cases:
            r = C.call("allclose_unordered", C.A(a), C.A(b))
            yield C.same_bool(r, want, f"{a} and {b} as row sets")

    C.run("unordered-rows", "allclose_unordered", f)


def check(C):
    span(C)
    face(C)
    polyhedron(C)
    unordered(C)
