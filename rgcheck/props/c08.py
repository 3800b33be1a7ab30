"""Both sides of each operator identity are evaluated on abstract vectors, twists,
points and inertial parameters and compared as canonical forms: cross products, lifted
matrix-vector products, Newton-Euler wrench, contact wrench, weighted wrench error and
the component order of spatial vectors."""
from ..core import *
from ..build import *
from .c06 import Body, symm

LEVEL = "other"


def cr(a, b):
    a, b = [R(x) for x in a], [R(x) for x in b]
    return np_obj([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def cat(a, b):
    return np_obj([*a, *b])


def twist(C, tag, how="kw"):
    w, v = np_obj(C.vec("w" + tag, unit=ONE)), np_obj(C.vec("v" + tag, unit=ONE))
    if how == "vec":
        o = C.call("SV.from_vec", C.A(cat(w, v)))
    elif how == "pos":
        o = C.call("SV", C.A(v), C.A(w))
    else:
        o = C.call("SV", linear=C.A(v), angular=C.A(w))
    return o, w, v


def dot(M_, x):
    return mm(np_obj(M_), np_obj(x))


def operators(C):
    def skew():
        a, b = np_obj(C.vec("a", unit=ONE)), np_obj(C.vec("b", unit=ONE))
        S = np_obj(C.call("skew3", C.A(a)))
        yield C.same(mm(S, b), cr(a, b), "skew3(a) b is the cross product")
        yield C.same(T(S), mul(S, -1), "skew3(a) is skew-symmetric")

    C.run("cross-product", "skew3", skew)

    def l3():
        x, S = np_obj(C.vec("x", unit=ONE)), symm(C, "S")
        h = np_obj([S[i, j] for i in range(3) for j in range(i, 3)])
        Lx = C.call("lift3", C.A(x))
        yield C.same(dot(Lx, h), mm(S, x), "lift3(x) applied to the half-vectorisation of S is S x")
        yield C.same(dot(Lx, C.call("vech", C.A(S))), mm(S, x), "lift3(x) vech(S) = S x")

    C.run("lift", "lift3", l3)

    def l6():
        for how in ("kw", "vec"):
            o, w, v = twist(C, "1", how)
            b = Body(C)
            Lx = C.call("lift6", o)
            yield C.same(dot(Lx, b.vec), mm(b.M, cat(w, v)), "lift6(V) theta is the spatial momentum")
            p = C.call("InertialParameters", b.m, h=C.A(b.h), H=C.A(b.H))
            yield C.same(dot(Lx, C.attr(p, "vec")), dot(C.attr(p, "M"), C.attr(o, "vec")), "lift6(V) vec = M V")

    C.run("lift", "lift6", l6)

    def contact():
        p, f = np_obj(C.vec("p")), np_obj(C.vec("f", unit=ONE))
        Jc = C.call("contact_jacobian", C.A(p))
        yield C.same(dot(Jc, f), cat(cr(p, f), f), "contact Jacobian maps a force to its wrench, moment first")

    C.run("contact", "contact_jacobian", contact)

    for k in (1, 2, 3):
        for wt in ("none", "full"):
            def rmse():
                Y = np_obj([[[C.sym(f"Y{a}{i}{j}", unit=ONE) if (i + j + a) % 4 == 0 else Z for j in range(10)] for i in range(6)] for a in range(k)])
                ws = np_obj(C.mat("w", k, 6, ONE))
                th = np_obj([C.sym(f"th{i}", unit=ONE) for i in range(10)])
                kw, W = {}, eye(6)
                if wt == "full":
                    W = symm(C, "W", 6)
                    kw = {"W": C.A(W)}
                r = C.call("validation_rmse", C.A(Y), C.A(ws), C.A(th), **kw)
                s = Z
                for a in range(k):
                    e = sub(mm(Y[a], th), ws[a])
                    s = s + mm(e, mm(W, e))
                yield C.same(R(r) ** 2, s / k, f"squared validation error of {k} wrenches, weight {wt}")

            C.run("wrench-error", "validation_rmse", rmse)


def spatial(C):
    def build():
        for how in ("kw", "vec", "pos"):
            o, w, v = twist(C, "1", how)
            yield C.same(C.attr(o, "vec"), cat(w, v), f"component order of a spatial vector ({how})", "SV.from_vec" if how == "vec" else None)
            yield C.same(C.attr(o, "linear"), v, f"linear part ({how})", "SV.linear")
            yield C.same(C.attr(o, "angular"), w, f"angular part ({how})", "SV.angular")
        w, v = np_obj(C.vec("w1", unit=ONE)), np_obj(C.vec("v1", unit=ONE))
        yield C.same(C.attr(C.call("SV", linear=C.A(v)), "vec"), cat(zeros(3), v), "spatial vector with a linear part only")
        yield C.same(C.attr(C.call("SV", angular=C.A(w)), "vec"), cat(w, zeros(3)), "spatial vector with an angular part only")
        yield C.same(C.attr(C.call("SV", linear=list(v), angular=list(w)), "vec"), cat(w, v), "spatial vector from lists")
        yield C.same(C.attr(C.call("SV"), "vec"), zeros(6), "empty spatial vector")
        yield C.same(C.attr(C.call("SV.zero"), "vec"), zeros(6), "zero spatial vector", "SV.zero")

    C.run("spatial-vector", "SV.__init__", build)

    def arith():
        a, wa, va = twist(C, "1")
        b, wb, vb = twist(C, "2", "vec")
        k = C.pos("k", ONE)
        va_, vb_ = cat(wa, va), cat(wb, vb)
        for op, want, con in (("+", add(va_, vb_), "__add__"), ("-", sub(va_, vb_), "__sub__")):
            o = C.I.binop(op, a, b)
            yield C.same(C.attr(o, "vec"), want, f"a {op} b", f"SV.{con}")
            yield C.same(C.attr(o, "linear"), want[3:], f"linear part of a {op} b", f"SV.{con}")
        for x in (k, 2, -3):
            o = C.I.binop("*", a, x)
            yield C.same(C.attr(o, "vec"), mul(va_, x), f"a * scalar", "SV.__mul__")
            o = C.I.binop("/", a, x)
            yield C.same(C.attr(o, "vec"), emap(lambda y: R(y) / R(x), va_), f"a / scalar", "SV.__truediv__")
        yield C.same(C.attr(a, "vec"), va_, "operands are unchanged")

    C.run("spatial-vector", "SV.__add__", arith)

    def adjoint():
        for ha, hb in (("kw", "kw"), ("vec", "vec")):
            a, wa, va = twist(C, "1", ha)
            b, wb, vb = twist(C, "2", hb)
            ad = C.meth(a, "adjoint")
            yield C.same(dot(ad, C.attr(b, "vec")), cat(cr(wa, wb), add(cr(va, wb), cr(wa, vb))), "adjoint operator is the spatial cross product")

    C.run("cross-product", "SV.adjoint", adjoint)

    def normal():
        m, wm, vm = twist(C, "m")
        cw, cv = np_obj(C.vec("cw", unit=ONE)), np_obj(C.vec("cv", unit=ONE))
        cov = C.call("SV", linear=C.A(cv), angular=C.A(cw))
        n0 = len(C.I.records)
        o = C.call("SV.random_diag_normal", m, cov, rng=0)
        rec = [r for r in C.I.records[n0:] if r[0] == "mvn"]
        if not rec:
            yield ("undecided", "no multivariate normal draw was recorded")
            return
        yield C.same(rec[0][1], cat(wm, vm), "mean of the random spatial vector")
        yield C.same(rec[0][2], diag(cat(cw, cv)), "covariance of the random spatial vector")

    C.run("random-spatial-vector", "SV.random_diag_normal", normal)


def dynamics(C):
    def newton_euler(b, w, v, dw, dv):
        L_ = mm(b.I, w)
        L_ = add(L_, cr(b.h, v))
        p = sub(mul(v, b.m), cr(b.h, w))
        dL = add(mm(b.I, dw), cr(b.h, dv))
        dp = sub(mul(dv, b.m), cr(b.h, dw))
        return cat(add(add(dL, cr(w, L_)), cr(v, p)), add(dp, cr(w, p)))

    for kind in ("generic", "point", "massless"):
        def thunk():
            b = Body(C, kind=kind)
            V, w, v = twist(C, "V")
            A, dw, dv = twist(C, "A", "vec")
            want = newton_euler(b, w, v, dw, dv)
            p = C.call("InertialParameters", b.m, h=C.A(b.h), H=C.A(b.H))
            f = C.meth(p, "body_wrench", V, A)
            yield C.same(C.attr(f, "vec"), want, f"body wrench of {kind} parameters", "InertialParameters.body_wrench")
            yield C.same(C.attr(f, "linear"), want[3:], f"force of {kind} parameters", "InertialParameters.body_wrench")
            body = C.call("RigidBody", [], p)
            for Y, lab in ((C.call("RigidBody.regressor", V, A), "static"), (C.meth(body, "regressor", V, A), "on a body")):
                yield C.same(dot(Y, b.vec), want, f"regressor ({lab}) times parameter vector of {kind} parameters")
                yield C.same(dot(Y, C.attr(p, "vec")), C.attr(f, "vec"), f"regressor ({lab}) agrees with the body wrench of {kind} parameters")

        C.run("regressor", "RigidBody.regressor", thunk)


def times(C):
    pairs = [(1, Fraction(1, 4)), (1, Fraction(1, 3)), (2, Fraction(3, 4)), (Fraction(1, 2), 1), (10, Fraction(1, 8)), (3, 3), (1, None), (Fraction(21, 8), Fraction(1, 2))]
    for dur, step in pairs:
        def thunk():
            kw = {} if step is None else {"step": Rat.const(step)}
            n, ts = C.call("compute_evaluation_times", Rat.const(dur), **kw)
            ts = np_obj(ts)
            if step is None:
                yield ("proved", "default step accepted") if len(ts) == n else ("diff", f"{n} times announced, {len(ts)} returned")
                return
            import math as _m
            want = _m.ceil(Fraction(dur) / step)
            ok = R(n).same(Rat.const(want)) and len(ts) == want
            yield ("proved", f"number of evaluation times for {dur}/{step}") if ok else ("diff", f"{n!r} evaluation times ({len(ts)} returned) for duration {dur}, step {step}; {want} cover it")
            if ok:
                yield C.same(ts, np_obj([Rat.const(step * i) for i in range(want)]), f"evaluation times for {dur}/{step}")

        C.run("evaluation-times", "compute_evaluation_times", thunk)


def check(C):
    operators(C)
    spatial(C)
    dynamics(C)
    times(C)
