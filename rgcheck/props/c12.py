"""Index enumeration, polynomial arithmetic, moment matrices and localising matrices are
evaluated on the source for every small number of variables and every small degree, with
abstract coefficients and abstract evaluation points, and compared with the combinatorial
definition (all exponents of total degree at most d, each once) and with ordinary
polynomial arithmetic."""
import itertools
import math

from ..core import *
from ..build import *
from ..interp import PyObj
from .. import csets

LEVEL = "other"
ASSUMPTIONS = ["numbers of variables up to 4 and degrees up to 5 (quick) or 6 and 6 (thorough); coefficients and points are arbitrary reals"]


def exps(n, d):
    return {e for e in itertools.product(range(d + 1), repeat=n) if sum(e) <= d}


def val(C, idx):
    v = C.attr(idx, "value")
    return tuple(int(R(x).value()) if not isinstance(x, int) else x for x in C.I.iterate(v))


def terms(C, p):
    """exponent tuple -> coefficient of a polynomial object."""
    d = C.attr(p, "coefficients")
    out = {}
    for k in C.I.iterate(C.meth(d, "items")):
        i, c = list(C.I.iterate(k))
        out[val(C, i)] = c
    return out


def mono(x, e):
    r = Rat.const(1)
    for xi, k in zip(x, e):
        r = r * R(xi) ** k
    return r


def value(x, ts):
    return sum((mono(x, e) * R(c) for e, c in ts.items()), Rat.const(0))


def index(C):
    def arith():
        for a, b in (((0, 1, 2), (3, 0, 1)), ((1,), (4,)), ((0, 0), (0, 0)), ((1, 2, 0, 5), (0, 1, 1, 1))):
            ia, ib = C.call("MomentIndex", a), C.call("MomentIndex", list(b))
            s = tuple(x + y for x, y in zip(a, b))
            for what, o in (("sum", C.I.binop("+", ia, ib)), ("product", C.I.binop("*", ia, ib)), ("reversed sum", C.I.binop("+", ib, ia))):
                yield (val(C, o) == s or "diff", f"{what} of index {a} and {b}: {val(C, o)}, expected {s}", "MomentIndex.__add__")
            tot = C.I.call(C.I.builtins["sum"], [[ia, ib, ia]], {})
            yield (val(C, tot) == tuple(2 * x + y for x, y in zip(a, b)) or "diff", f"sum() of indices {a}, {b}, {a}: {val(C, tot)}", "MomentIndex.__radd__")
            yield (val(C, ia) == a and val(C, ib) == tuple(b) or "diff", f"operands of an index sum are unchanged")
            e = C.call("MomentIndex", list(a))
            yield C.same_bool(C.I.compare("==", ia, e), True, f"index {a} equals itself", "MomentIndex.__eq__")
            yield C.same_bool(C.I.compare("==", ia, ib), tuple(a) == tuple(b), f"equality of {a} and {b}", "MomentIndex.__eq__")

    C.run("index-arithmetic", "MomentIndex", arith)


def basis(C):
    N, D = (6, 6) if C.thorough else (4, 5)
    for n in range(1, N + 1):
        for d in range(0, D + 1):
            if n + d > 9:
                continue

            def f():
                b = [val(C, i) for i in C.I.iterate(C.call("Polynomial.basis", n, d))]
                want = exps(n, d)
                dup = [e for e in b if b.count(e) > 1]
                yield (not dup or "diff", f"basis({n}, {d}) repeats {sorted(set(dup))[:4]}")
                yield (set(b) == want or "diff", f"basis({n}, {d}): missing {sorted(want - set(b))[:4]}, extra {sorted(set(b) - want)[:4]}")
                deg = [sum(e) for e in b]
                yield (deg == sorted(deg) or "diff", f"basis({n}, {d}) lists lower degrees first, so that lower-order moment matrices are leading blocks")
                dim = R(C.call("Polynomial.dim", n, d))
                yield (dim.is_const() and dim.value() == len(want) or "diff", f"dim({n}, {d}) is {dim}, expected {len(want)}", "Polynomial.dim")
                ones = terms(C, C.call("Polynomial.ones", n, d))
                yield (set(ones) == want or "diff", f"ones({n}, {d}) has a term for every monomial", "Polynomial.ones")
                for e in sorted(ones):
                    if not (R(ones[e]).is_const() and R(ones[e]).value() == 1):
                        yield ("diff", f"ones({n}, {d}) has coefficient {ones[e]} at {e}", "Polynomial.ones")

            C.run("monomial-basis", "Polynomial.basis", f)


SUPPORTS = [
    [(0,), (2,)],
    [(0, 0), (1, 0), (0, 1)],
    [(2, 0), (1, 1), (0, 2), (0, 0)],
    [(0, 0, 0), (1, 0, 0), (0, 2, 1)],
    [(3, 0), (0, 1)],
    [(0, 0, 0, 0)],
    [(4, 0, 0), (0, 3, 0), (1, 1, 2), (0, 0, 0)],
]


def poly_of(C, sup, tag, form="tuple"):
    cs = {e: C.sym(f"{tag}{i}", unit=ONE) for i, e in enumerate(sup)}
    d = {(e if form == "tuple" else C.call("MomentIndex", e)): c for e, c in cs.items()}
    return C.call("Polynomial", d), cs


def polynomials(C):
    for i, sup in enumerate(SUPPORTS):
        n = len(sup[0])
        for form in ("tuple", "index"):
            def f():
                p, cs = poly_of(C, sup, "c", form)
                x = np_obj(C.vec("x", n, ONE))
                ts = terms(C, p)
                yield (set(ts) == set(sup) or "diff", f"terms kept from {sup}: {sorted(ts)}", "Polynomial.__init__")
                yield C.same(C.meth(p, "evaluate", C.A(x)), value(x, cs), f"evaluation of a polynomial with support {sup}", "Polynomial.evaluate")
                yield C.same(C.meth(p, "evaluate", list(x)), value(x, cs), f"evaluation at a list", "Polynomial.evaluate")
                yield C.same(C.attr(p, "degree"), max(sum(e) for e in sup), f"degree with support {sup}", "Polynomial.degree")

            C.run("polynomial", "Polynomial", f, special=False)

        # values only, also where coefficients are zero or small enough for a branch
        def values():
            p, cs = poly_of(C, sup, "c")
            x = np_obj(C.vec("x", n, ONE))
            yield C.same(C.meth(p, "evaluate", C.A(x)), value(x, cs), f"value of a polynomial with support {sup}", "Polynomial.evaluate")
            q = C.I.binop("+", p, C.call("Polynomial", {sup[0]: C.sym("d", unit=ONE)}))
            yield C.same(C.meth(q, "evaluate", C.A(x)), value(x, cs) + value(x, {sup[0]: C.sym("d", unit=ONE)}), f"value of a sum with support {sup}", "Polynomial.__add__")
            e = [1] + [0] * (n - 1)
            q = C.meth(p, "localize", C.call("MomentIndex", e))
            yield C.same(C.meth(q, "evaluate", C.A(x)), mono(x, e) * value(x, cs), f"value of a localised polynomial with support {sup}", "Polynomial.localize")

        C.run("polynomial-values", "Polynomial.evaluate", values)

        for j, sup2 in enumerate(SUPPORTS):
            if len(sup2[0]) != n:
                continue

            def g():
                p, cs = poly_of(C, sup, "c")
                q, ds = poly_of(C, sup2, "d")
                x = np_obj(C.vec("x", n, ONE))
                s = C.I.binop("+", p, q)
                yield C.same(C.meth(s, "evaluate", C.A(x)), value(x, cs) + value(x, ds), f"(p + q)(x) with supports {sup} and {sup2}")
                yield (terms_same(terms(C, p), cs) and terms_same(terms(C, q), ds) or "diff", "operands of a polynomial sum are unchanged")
                z = C.I.binop("+", p, C.call("Polynomial.zeros"))
                yield (terms_same(terms(C, z), cs) or "diff", "adding the zero polynomial", "Polynomial.zeros")
                z = C.I.binop("+", C.call("Polynomial.zeros"), p)
                yield (terms_same(terms(C, z), cs) or "diff", "adding to the zero polynomial", "Polynomial.zeros")

            C.run("polynomial-sum", "Polynomial.__add__", g, special=False)

        for e in ([0] * n, [1] + [0] * (n - 1), [2] * n, list(range(n))):
            def h():
                p, cs = poly_of(C, sup, "c")
                x = np_obj(C.vec("x", n, ONE))
                ix = C.call("MomentIndex", e)
                q = C.meth(p, "localize", ix)
                want = {tuple(a + b for a, b in zip(k, e)): c for k, c in cs.items()}
                yield (terms_same(terms(C, q), want) or "diff", f"localising about {e} shifts every exponent of {sup}: {sorted(terms(C, q))}")
                yield C.same(C.meth(q, "evaluate", C.A(x)), mono(x, e) * value(x, cs), f"(x^{e} p)(x)")
                yield (terms_same(terms(C, p), cs) or "diff", "the localised polynomial is unchanged")

            C.run("localise", "Polynomial.localize", h, special=False)

        def cancel():
            p, cs = poly_of(C, sup, "c")
            q = C.call("Polynomial", {e: -c for e, c in cs.items()})
            x = np_obj(C.vec("x", n, ONE))
            yield C.same(C.meth(C.I.binop("+", p, q), "evaluate", C.A(x)), Rat.const(0), "p + (-p) evaluates to zero")

        C.run("polynomial-sum", "Polynomial.__add__", cancel, special=False)

        def subs():
            p, cs = poly_of(C, sup, "c")
            x = np_obj(C.vec("x", n, ONE))
            mp = {C.call("MomentIndex", e): C.sym("y" + "".join(map(str, e)), unit=ONE) for e in sup}
            want = sum((cs[e] * C.sym("y" + "".join(map(str, e)), unit=ONE) for e in sup), Rat.const(0))
            r = C.meth(p, "substitute", mp)
            yield C.same(R(np_obj(r).reshape(-1)[0]), want, f"substitution into {sup}")

        C.run("substitution", "Polynomial.substitute", subs, special=False)

    for n in (1, 2, 3, 4):
        def aff():
            a, b = np_obj(C.vec("a", n, ONE)), C.sym("b", unit=ONE)
            x = np_obj(C.vec("x", n, ONE))
            p = C.call("Polynomial.affine", C.A(a), b)
            yield C.same(C.meth(p, "evaluate", C.A(x)), b - mm(a, x), f"affine polynomial of a half-space in {n} variables")
            yield C.same(C.attr(p, "degree"), 1, "degree of an affine polynomial", "Polynomial.degree")
            p = C.call("Polynomial.affine", list(a), b)
            yield C.same(C.meth(p, "evaluate", C.A(x)), b - mm(a, x), f"affine polynomial from a list")
            # axis-aligned rows: the zero coefficients must not matter
            e = [Rat.const(0)] * n
            e[n - 1] = R(C.pos("s", ONE))
            p = C.call("Polynomial.affine", C.A(e), b)
            yield C.same(C.meth(p, "evaluate", C.A(x)), b - e[n - 1] * x[n - 1], "affine polynomial of an axis-aligned half-space")
            yield C.same(C.attr(p, "degree"), 1, "degree of an axis-aligned half-space", "Polynomial.degree")
            p = C.call("Polynomial.affine", C.A(e), 0)
            yield C.same(C.meth(p, "evaluate", C.A(x)), -(e[n - 1] * x[n - 1]), "half-space through the origin")

        C.run("affine-polynomial", "Polynomial.affine", aff, special=False)

        def affv():
            a, b = np_obj(C.vec("a", n, ONE)), C.sym("b", unit=ONE)
            x = np_obj(C.vec("x", n, ONE))
            p = C.call("Polynomial.affine", C.A(a), b)
            yield C.same(C.meth(p, "evaluate", C.A(x)), b - mm(a, x), f"value of the affine polynomial of a half-space in {n} variables")

        C.run("affine-polynomial", "Polynomial.affine", affv)


def terms_same(a, b):
    return set(a) == set(b) and all(same_el(R(a[k]), R(b[k])) is True for k in b)


def matrices(C):
    cases = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2)] + ([(2, 3), (4, 1), (4, 2), (3, 3)] if C.thorough else [(2, 3), (4, 1)])
    for n, d in cases:
        def f():
            m = C.call("MomentMatrix", n, d)
            b = [val(C, i) for i in C.I.iterate(C.call("Polynomial.basis", n, d))]
            r = math.comb(n + d, d)
            yield C.same(C.attr(m, "r"), r, f"order of the moment matrix ({n}, {d})")
            ix = C.attr(m, "indices")
            bad = []
            for i in range(r):
                for j in range(r):
                    e = val(C, ix.a[i, j])
                    if e != tuple(x + y for x, y in zip(b[i], b[j])):
                        bad.append((i, j, e))
            yield (ix.a.shape == (r, r) and not bad or "diff", f"entry (i, j) of the moment matrix ({n}, {d}) is the product of basis monomials: wrong at {bad[:3]}")
            # on the moments of a point mass
            x = np_obj(C.vec("x", n, ONE))
            mv = np_obj([mono(x, e) for e in b])
            Mv = outer(mv, mv)
            cons = C.meth(m, "moment_constraints", C.A(Mv))
            for c in C.I.iterate(cons):
                yield C.is_true(c if isinstance(c, bool) else csets.con_cond(c) if not isinstance(c, cond.B) else c, "moments of a point mass satisfy the moment constraints", "MomentMatrix.moment_constraints")

        C.run("moment-matrix", "MomentMatrix", f)

        def eqs():
            m = C.call("MomentMatrix", n, d)
            r = math.comb(n + d, d)
            V = csets.variable(C, (r, r), symmetric=True)
            cons = list(C.I.iterate(C.meth(m, "moment_constraints", V)))
            b = [val(C, i) for i in C.I.iterate(C.call("Polynomial.basis", n, d))]
            a = np_obj(V.a)
            # union-find over entries tied by the generated equalities
            par = {}

            def find(k):
                while par.setdefault(k, k) != k:
                    k = par[k]
                return k

            for c in cons:
                q = conj_eq(c)
                if q is None:
                    yield ("undecided", "a moment constraint is not an equality of entries", "MomentMatrix.moment_constraints")
                    return
                for dd in q:
                    ks = sorted(alg.all_atoms(dd))
                    if len(ks) == 2:
                        par[find(ks[0])] = find(ks[1])
            groups = {}
            for i in range(r):
                for j in range(r):
                    e = tuple(x + y for x, y in zip(b[i], b[j]))
                    groups.setdefault(e, set()).add(find(next(iter(alg.all_atoms(R(a[i, j]))))))
            split = [e for e, g in groups.items() if len(g) > 1]
            reps = [next(iter(g)) for g in groups.values()]
            yield (not split or "diff", f"entries of the ({n}, {d}) moment matrix with equal monomials are tied together: {split[:3]} are not", "MomentMatrix.moment_constraints")
            yield (len(set(reps)) == len(groups) or "diff", "entries with different monomials are not tied", "MomentMatrix.moment_constraints")

        C.run("moment-constraints", "MomentMatrix.moment_constraints", eqs)

    # localising matrices
    for n, d, sup in [(1, 1, SUPPORTS[0]), (1, 2, SUPPORTS[0]), (2, 1, SUPPORTS[1]), (2, 2, SUPPORTS[1]), (2, 2, SUPPORTS[2]), (2, 2, SUPPORTS[4]), (3, 2, SUPPORTS[3]), (3, 2, SUPPORTS[6]), (4, 1, SUPPORTS[5])]:
        def loc():
            m = C.call("MomentMatrix", n, d)
            p, cs = poly_of(C, sup, "c")
            deg = max(sum(e) for e in sup)
            v = (deg + 1) // 2
            rr = math.comb(n + d - v, d - v)
            x = np_obj(C.vec("x", n, ONE))
            b = [val(C, i) for i in C.I.iterate(C.call("Polynomial.basis", n, d))]
            mv = np_obj([mono(x, e) for e in b])
            L = C.meth(m, "localize", C.A(outer(mv, mv)), p)
            yield C.same(L, mul(outer(mv[:rr], mv[:rr]), value(x, cs)), f"localising matrix ({n}, {d}) of {sup} on the moments of a point mass", "MomentMatrix.localize")
            S = C.meth(m, "localizing_matrix", d - v, p)
            ok = S.a.shape == (rr, rr)
            yield (ok or "diff", f"symbolic localising matrix has shape {S.a.shape}, expected {(rr, rr)}", "MomentMatrix.localizing_matrix")
            if ok:
                for i in range(rr):
                    for j in range(rr):
                        want = {tuple(s + t + u for s, t, u in zip(k, b[i], b[j])): c for k, c in cs.items()}
                        yield (terms_same(terms(C, S.a[i, j]), want) or "diff", f"entry ({i}, {j}) of the symbolic localising matrix of {sup}", "MomentMatrix.localizing_matrix")
            yield (all(val(C, C.attr(m, "indices").a[i, i]) == tuple(2 * k for k in b[i]) for i in range(len(b))) or "diff", "the moment matrix is unchanged by localising", "MomentMatrix.localizing_matrix")

        C.run("localising-matrix", "MomentMatrix.localize", loc, special=False)

        def locc():
            m = C.call("MomentMatrix", n, d)
            p, cs = poly_of(C, sup, "c")
            deg = max(sum(e) for e in sup)
            v = (deg + 1) // 2
            rr = math.comb(n + d - v, d - v)
            r = math.comb(n + d, d)
            b = [val(C, i) for i in C.I.iterate(C.call("Polynomial.basis", n, d))]
            V = csets.variable(C, (r, r), symmetric=True)
            n0 = len(C.I.variables)
            cons = list(C.I.iterate(C.meth(m, "localizing_constraints", V, [p])))
            aux = [w for w in C.I.variables[n0:]]
            yield (len(aux) == 1 and tuple(aux[0].shape) == (rr, rr) and bool(aux[0].attrs.get("PSD")) or "diff", f"one positive semidefinite localising matrix of order {rr}: {[(w.shape, w.attrs) for w in aux]}")
            if len(aux) != 1 or tuple(aux[0].shape) != (rr, rr):
                return
            # substitute the moments of a point mass and its localising matrix
            x = np_obj(C.vec("x", n, ONE))
            mv = np_obj([mono(x, e) for e in b])
            sub_ = {}
            put(sub_, V, outer(mv, mv))
            put(sub_, aux[0], mul(outer(mv[:rr], mv[:rr]), value(x, cs)))
            tied = set()
            for c in cons:
                q = conj_eq(c)
                if q is None:
                    yield ("undecided", "a localising constraint is not an equality")
                    return
                for dd in q:
                    yield C.same(alg.subst(R(dd), sub_), Rat.const(0), f"localising constraint on the moments of a point mass, ({n}, {d}) {sup}")
                    tied |= {a for a in alg.all_atoms(R(dd))}
            free = [a for a in {next(iter(alg.all_atoms(R(e)))) for e in np_obj(aux[0].a).reshape(-1)} if a not in tied]
            yield (not free or "diff", f"{len(free)} entries of the localising matrix are not tied to the moments")

        C.run("localising-constraints", "MomentMatrix.localizing_constraints", locc, special=False)


def put(d, V, vals):
    for e, v in zip(np_obj(V.a).reshape(-1), np_obj(vals).reshape(-1)):
        ks = alg.all_atoms(R(e))
        assert len(ks) == 1
        d[next(iter(ks))] = R(v)


def conj_eq(c):
    """Differences that an equality constraint sets to zero, or None."""
    if isinstance(c, bool):
        return [] if c else None
    op = getattr(c, "op", None)
    if op == "eq":
        return [csets.plain(R(x)) for x in c.expr.reshape(-1)]
    if op == "bool":
        out = []
        for x in c.expr.reshape(-1):
            q = conj_eq(x)
            if q is None:
                return None
            out += q
        return out
    if op == "cmp" and c.args[0] == "==":
        return [c.args[1]]
    return None


def check(C):
    index(C)
    basis(C)
    polynomials(C)
    matrices(C)
