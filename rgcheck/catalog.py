"""Every public operation of the analysed package with abstract arguments: functions,
constructors, class methods, static methods, methods, properties and operators, found
by reading the package's own definitions.  Used by the effect, provenance, option and
unit analyses."""
import numpy as np

from . import alg, csets
from .alg import Rat, R
from .cond import B
from .interp import Arr, Bound, ClassM, Func, PyClass, PyObj, Prop, StaticM, Raised, Undecided
from .core import np_obj, L, M, ONE, zeros, emap
from . import build

ML, ML2 = (1, 1, 0), (2, 1, 0)
Z = Rat.const(0)


def psym(C, tag, n=3, unit=ML2):
    m = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            m[i][j] = m[j][i] = C.sym(f"{tag}{i}{j}", unit=unit)
    return m


def params(C, tag=""):
    return C.call("InertialParameters", C.pos("m" + tag, M), h=C.A(C.vec("hh" + tag, unit=ML)), H=C.A(psym(C, "HH" + tag)))


def sv(C, tag="", lin=(1, 0, -1), ang=(0, 0, -1)):
    return C.call("SV", linear=C.A(C.vec("lv" + tag, unit=lin)), angular=C.A(C.vec("av" + tag, unit=ang)))


def pim(C, tag="J"):
    H, h, m = psym(C, "JH" + tag), C.vec("Jh" + tag, unit=ML), C.pos("Jm" + tag, M)
    return C.A([H[i] + [h[i]] for i in range(3)] + [h + [m]])


INST = {
    "Box": {"generic": lambda C: build.box(C, "generic").obj, "default": lambda C: build.box(C, "default", tag="d").obj},
    "Ellipsoid": {"generic": lambda C: build.ellipsoid(C, "generic").obj, "flat": lambda C: build.ellipsoid(C, "generic", flat=(1,), tag="f").obj},
    "Cylinder": {"generic": lambda C: build.cylinder(C, "generic").obj},
    "Capsule": {"generic": lambda C: build.capsule(C, "generic").obj},
    "ConvexPolyhedron": {"generic": lambda C: build.poly(C, 4, 4, 3).obj},
    "SpanForm": {"vertices": lambda C: C.call("SpanForm", vertices=C.A(C.mat("V", 4, 3))), "mixed": lambda C: C.call("SpanForm", vertices=C.A(C.mat("V", 2, 3)), rays=C.A(C.mat("Q", 1, 3, ONE)))},
    "FaceForm": {"generic": lambda C: C.call("FaceForm", C.A(C.mat("A", 4, 3, ONE)), C.A([C.sym(f"b{i}", unit=L) for i in range(4)]))},
    "InertialParameters": {"generic": lambda C: params(C)},
    "RigidBody": {"generic": lambda C: C.call("RigidBody", [build.box(C, "generic").obj, build.ellipsoid(C, "generic", tag="e").obj], params(C))},
    "SpatialVector": {"generic": lambda C: sv(C)},
    "Polynomial": {"affine": lambda C: C.call("Polynomial.affine", C.A(C.vec("pa", unit=ONE)), C.sym("pb", unit=L))},
    "MomentIndex": {"generic": lambda C: C.call("MomentIndex", [1, 0, 2])},
    "MomentMatrix": {"generic": lambda C: C.call("MomentMatrix", 3, 1)},
}
SHAPES = ("Box", "Ellipsoid", "Cylinder", "Capsule", "ConvexPolyhedron")
ALIAS = {"SV": "SpatialVector"}


def pts(C, k=2, tag="p"):
    return C.A(C.mat(tag, k, 3))


def decvar(C, shape=(3,)):
    return csets.variable(C, shape)


def values(C, cls, fn, p):
    """Abstract values for parameter p of cls.fn; the first is used in the base call,
    the rest replace it one at a time."""
    inst = lambda k, tag="": next(iter(INST[k].values()))
    if p == "points":
        if fn == "must_contain":
            return [lambda: decvar(C), lambda: decvar(C, (2, 3))]
        if fn in ("contains", "on_surface"):
            return [lambda: pts(C, 2), lambda: C.A(C.vec("p")), lambda: [C.vec("p"), C.vec("q")]]
        return [lambda: pts(C, 4)]
    if p == "point":
        return [lambda: C.A(C.vec("p"))]
    if p == "poly":
        return [(lambda: INST["Polynomial"]["affine"](C)) if cls == "MomentMatrix" else (lambda: build.poly(C, 4, 4, 3, "w").obj)]
    if p == "polys":
        return [lambda: [INST["Polynomial"]["affine"](C)]]
    if p == "other":
        if fn == "contains_ellipsoid":
            return [lambda: build.ellipsoid(C, "generic", tag="o").obj]
        if fn == "intersect":
            return [lambda: build.poly(C, 4, 4, 3, "w").obj]
        if cls in ("Box", "Ellipsoid", "Cylinder", "Capsule"):
            mk = {"Box": build.box, "Ellipsoid": build.ellipsoid, "Cylinder": build.cylinder, "Capsule": build.capsule}[cls]
            return [lambda: mk(C, "generic", tag="o").obj, lambda: build.poly(C, 4, 4, 3, "w").obj]
        if cls == "ConvexPolyhedron":
            return [lambda: build.poly(C, 4, 4, 3, "w").obj, lambda: build.box(C, "generic").obj]
        if cls == "InertialParameters":
            return [lambda: params(C, "o")]
        if cls == "SpatialVector":
            return [lambda: C.pos("k", ONE)] if fn in ("__mul__", "__truediv__") else [lambda: sv(C, "o")]
        if cls == "FaceForm":
            return [lambda: C.call("FaceForm", C.A(C.mat("D", 2, 3, ONE)), C.A([C.sym(f"d{i}", unit=L) for i in range(2)]))]
        if cls == "Polynomial":
            return [lambda: C.call("Polynomial", {(0, 0, 0): C.sym("q0", unit=L), (0, 1, 0): C.sym("q1", unit=ONE)})]
        if cls == "RigidBody":
            return [lambda: C.call("RigidBody", [build.cylinder(C, "generic", tag="o").obj], params(C, "o"))]
        if cls in INST:
            return [lambda: inst(cls)(C)]
        return []
    if p == "shape":
        return [lambda: 1, lambda: 3, lambda: (2, 2)] if fn != "random_weight_vectors" else [lambda: 3, lambda: (2, 3)]
    if p == "sample_shape":
        return [lambda: 2]
    if p == "scale":
        return [lambda: C.pos("scl", ONE)]
    if p == "tol":
        return [lambda: C.pos("tol", ONE)]
    if p == "eps":
        return [lambda: C.nn("eps", ONE)]
    if p == "rng":
        return [lambda: C.I.make_gen(("caller", 0))]
    if p == "solver":
        return [lambda: C.token("solver")]
    if p == "rcond":
        return [lambda: C.pos("rcond", ONE)]
    if p in ("sphere", "prune"):
        return [lambda: False, lambda: True]
    if p == "translate_from_com":
        return [lambda: False, lambda: True]
    if p == "rotation":
        return [lambda: C.A(C.rot("Rt"))]
    if p in ("translation", "center"):
        return [lambda: C.A(C.vec("t"))]
    if p == "half_extents":
        return [lambda: C.A(C.posvec("hx")), lambda: C.posvec("hx")]
    if p == "side_lengths":
        return [lambda: C.A(C.posvec("hx"))]
    if p in ("half_extent", "radius", "length"):
        return [lambda: C.pos(p[:3])]
    if p in ("v1", "v2"):
        return [lambda: C.A(C.vec(p))]
    if p == "cylinder":
        return [lambda: build.cylinder(C, "generic").obj]
    if p == "mass":
        r = [lambda: C.pos("mass", M)]
        return r + ([lambda: C.A([C.pos(f"mk{i}", M) for i in range(4)])] if fn == "vertex_point_mass_params" else [])
    if p == "masses":
        return [lambda: C.A([C.pos(f"mk{i}", M) for i in range(4)]), lambda: [C.pos(f"mk{i}", M) for i in range(4)]]
    if p == "param_var":
        return [lambda: csets.variable(C, (4, 4), PSD=True), lambda: csets.variable(C, (10,)), lambda: csets.variable(C, (4, 4))]
    if p == "M_var":
        return [lambda: csets.variable(C, (4, 4), PSD=True)]
    if p == "M_val":
        return [lambda: C.A([[C.sym(f"mv{min(i, j)}{max(i, j)}", unit=((i > 0) + (j > 0), 0, 0)) for j in range(4)] for i in range(4)])]
    if p == "J":
        return [lambda: pim(C)] if cls == "InertialParameters" else [lambda: csets.variable(C, (4, 4), symmetric=True)]
    if p == "θ":
        return [lambda: csets.variable(C, (10,))] if fn == "pim_must_equal_vec" else [lambda: C.A([C.sym(f"th{i}", unit=ONE) for i in range(10)])]
    if p == "vec":
        if cls == "SpatialVector":
            return [lambda: C.A(C.vec("av", unit=(0, 0, -1)) + C.vec("lv", unit=(1, 0, -1)))]
        return [lambda: C.A([C.pos("m", M)] + C.vec("hh", unit=ML) + [C.sym(f"i{k}", unit=ML2) for k in range(6)])]
    if p in ("h", "com"):
        return [lambda: C.A(C.vec("hh", unit=ML if p == "h" else L))]
    if p in ("H", "I"):
        return [lambda: C.A(psym(C, "HH"))]
    if p in ("linear", "angular"):
        return [lambda: C.A(C.vec(p, unit=(1, 0, -1) if p == "linear" else (0, 0, -1)))]
    if p == "mean":
        return [lambda: sv(C, p)]
    if p == "cov_diag":
        return [lambda: sv(C, p, (2, 0, -2), (0, 0, -2))]
    if p in ("V", "A") and (fn in ("body_wrench", "regressor", "lift6")):
        return [lambda: sv(C, p) if p == "V" else sv(C, p, (1, 0, -2), (0, 0, -2))]
    if p == "params":
        return [lambda: params(C)]
    if p == "shapes":
        return [lambda: [build.box(C, "generic").obj, build.cylinder(C, "generic").obj], lambda: build.box(C, "generic").obj, lambda: (build.box(C, "generic").obj,)]
    if p in ("shape1", "shape2"):
        return [lambda: (build.box if p == "shape1" else build.cylinder)(C, "generic", tag=p[-1]).obj]
    if p == "ellipsoids":
        return [lambda: [build.ellipsoid(C, "generic", tag=t).obj for t in "ab"]]
    if p == "actual_shapes":
        return [lambda: [build.ellipsoid(C, "generic").obj, build.cylinder(C, "generic").obj]]
    if p == "bounding_shape":
        return [lambda: build.box(C, "generic", tag="bb").obj]
    if p == "max_tries":
        return [lambda: 3]
    if p == "extents":
        return [lambda: C.A(C.posvec("ex"))]
    if p == "vertices":
        return [lambda: pts(C, 4, "V")]
    if p in ("rays", "span"):
        return [lambda: pts(C, 1, p)]
    if p in ("A", "b", "A_ineq", "b_ineq", "A_eq", "b_eq"):
        if cls == "Ellipsoid" and p == "A":
            return [lambda: C.A([[C.pos(f"A{i}", (-1, 0, 0)) if i == j else Z for j in range(3)] for i in range(3)])]
        if cls == "Ellipsoid" and p == "b":
            return [lambda: C.A(C.vec("b", unit=ONE))]
        if fn == "schur":
            return [lambda: C.A(psym(C, "sA", 2, ONE) if p == "A" else C.mat("sB", 2, 1, ONE))]
        if fn == "vech":
            return [lambda: C.A(psym(C, "vA", 3, ONE))]
        k = 1 if p.endswith("eq") and not p.endswith("ineq") else 4
        if cls == "Polynomial":
            return [lambda: C.A(C.vec("pa", unit=ONE)) if p == "a" else C.sym("pb", unit=L)]
        if fn == "allclose_unordered":
            return [lambda: C.A(C.mat("u", 3, 2, ONE))]
        if p[0] == "A":
            return [lambda: C.A(C.mat(p, k, 3, ONE))]
        return [lambda: C.A([C.sym(f"{p}{i}", unit=L) for i in range(k)])]
    if p == "a":
        return [lambda: C.A([C.sym(f"a{i}", unit=ONE) for i in range(6)])] if fn == "unvech" else [lambda: C.A(C.vec("pa", unit=ONE))]
    if p == "B":
        return [lambda: C.A(C.mat("u", 3, 2, ONE)[::-1] if fn == "allclose_unordered" else C.mat("sB", 2, 1, ONE))]
    if p == "C":
        return [lambda: C.A([[C.pos("sC", ONE)]])]
    if p == "S":
        return [lambda: C.A([[C.pos(f"S{i}", (-2, 0, 0)) if i == j else Z for j in range(3)] for i in range(3)])]
    if p == "face_form":
        return [lambda: INST["FaceForm"]["generic"](C)]
    if p == "span_form":
        return [lambda: INST["SpanForm"]["vertices"](C)]
    if p == "mat":
        return [lambda: C.I.cdd_from_rows([[Rat.const(1), *v] for v in C.mat("V", 4, 3)], [], "GENERATOR" if cls == "SpanForm" else "INEQUALITY", 4)]
    if p in ("n", "d", "dim", "k"):
        return [lambda: {"n": 3 if fn != "grid" else 2, "d": 1, "dim": 3, "k": 0}[p]]
    if p == "x":
        return [lambda: 6] if fn == "is_triangular_number" else [lambda: C.A(C.vec("x"))]
    if p == "v":
        return [lambda: C.A(C.vec("x", unit=ONE))]
    if p == "idx":
        return [lambda: C.call("MomentIndex", [1, 0, 1])]
    if p == "sub_var_map":
        return [lambda: {C.call("MomentIndex", e): C.sym("y" + "".join(map(str, e)), unit=(sum(e), 0, 0)) for e in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]}]
    if p == "value":
        return [lambda: [1, 0, 2]]
    if p == "coefficients":
        return [lambda: {(0, 1, 0): C.sym("c0", unit=ONE), (1, 1, 0): C.sym("c1", unit=ONE)}]
    if p == "duration":
        return [lambda: 2]
    if p == "step":
        return [lambda: 1]
    if p == "Ys":
        return [lambda: C.A([[[C.sym(f"Y{a}{i}{j}", unit=ONE) if (i + j + a) % 4 == 0 else Z for j in range(10)] for i in range(6)] for a in range(2)])]
    if p == "ws":
        return [lambda: C.A(C.mat("w", 2, 6, ONE))]
    if p == "W":
        return [lambda: C.A(psym(C, "W", 6, ONE))]
    return []


def backend(C):
    """Answers of the double-description library: fresh rows."""
    def hook(kind, m):
        n = len(m.rows[0]) if m.rows else 4
        one = [Rat.const(1)] if kind == "generators" else None
        return [(one or [C.sym(f"g{i}", unit=L)]) + [C.sym(f"g{i}{j}", unit=L if one else ONE) for j in range(n - 1)] for i in range(n)], []

    return hook


def basis(C, rank=None):
    """Orthonormal bases of the range and its complement: columns of one rotation."""
    def hook(what, x):
        n = x.a.shape[0] if what == "orth" else x.a.shape[1]
        Rb = np_obj(C.rot(f"B{n}", n))
        if what == "orth":
            r = min(x.a.shape) if rank is None else rank
            hook.rank = r
            return Rb[:, :r].copy()
        r = min(x.a.shape[0], getattr(hook, "rank", x.a.shape[0]))
        return Rb[:, r:].copy()

    return hook


def scenario(C, rank=None):
    return {"cdd": backend(C), "basis": basis(C, rank)}


class Op:
    """One public operation with one choice of abstract arguments."""

    def __init__(self, cls, inst, name, kind, func, args, label):
        self.cls, self.inst, self.name, self.kind, self.func, self.args, self.label = cls, inst, name, kind, func, args, label

    @property
    def construct(self):
        return f"{self.cls}.{self.name}" if self.cls else self.name

    @property
    def params(self):
        return list(self.args)

    def prepare(self, C, **over):
        """(thunk, operands by label) with freshly built abstract arguments."""
        kw = {p: (over[p]() if p in over else f()) for p, f in self.args.items()}
        ext = dict(kw)
        if self.kind in ("function",):
            f = C.get(self.name)
            return (lambda: C.I.call(f, [], kw)), ext
        if self.kind in ("init", "class", "static"):
            f = C.get(self.cls) if self.kind == "init" else C.get(f"{self.cls}.{self.name}")
            return (lambda: C.I.call(f, [], kw)), ext
        o = INST[self.cls][self.inst](C)
        ext["self"] = o
        if self.kind == "prop":
            return (lambda: C.attr(o, self.name)), ext
        if self.kind == "op":
            sym_ = {"__add__": "+", "__sub__": "-", "__mul__": "*", "__truediv__": "/"}[self.name]
            return (lambda: C.I.binop(sym_, o, kw["other"])), ext
        if self.kind == "radd":
            return (lambda: C.I.call(C.I.builtins["sum"], [[o, next(iter(kw.values()))]], {})), ext
        return (lambda: C.meth(o, self.name, **kw)), ext


def argnames(f, skip_first):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    nd = len(a.defaults)
    pos = [x.arg for x in a.posonlyargs + a.args]
    dflt = set(pos[len(pos) - nd :] if nd else []) | {k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    if skip_first:
        names = names[1:]
    return names, dflt


MUTEX = {
    ("InertialParameters", "__init__"): [("mass", "h", "H"), ("mass", "com", "H", "translate_from_com"), ("mass", "com", "I"), ("mass", "h", "I")],
    ("ConvexPolyhedron", "__init__"): [("face_form", "span_form"), ("face_form",), ("span_form",)],
    ("FaceForm", "__init__"): [("A_ineq", "b_ineq"), ("A_ineq", "b_ineq", "A_eq", "b_eq")],
    ("RigidBody", "__init__"): [("shapes", "params"), ("shapes",)],
    ("SpatialVector", "__init__"): [("linear", "angular"), ("linear",)],
}


def ops(C):
    """(operations, names that could not be given arguments)."""
    out, skipped = [], []

    def emit(cls, inst, name, kind, f, skip_first):
        names, dflt = argnames(f, skip_first)
        sets = MUTEX.get((cls, name)) or [tuple(names)]
        for st in sets:
            base = {}
            alts = []
            for p in names:
                if p not in st:
                    continue
                vs = values(C, cls, name, p)
                if not vs:
                    if p in dflt:
                        continue
                    skipped.append(f"{cls + '.' if cls else ''}{name}({p})")
                    base = None
                    break
                base[p] = vs[0]
                alts += [(p, v) for v in vs[1:]]
            if base is None:
                continue
            lab = f"{inst + ' ' if inst else ''}({', '.join(base)})"
            out.append(Op(cls, inst, name, kind, f, base, lab))
            for k, (p, v) in enumerate(alts):
                out.append(Op(cls, inst, name, kind, f, {**base, p: v}, lab + f" with another {p} #{k}"))
            if any(p in dflt for p in base):
                out.append(Op(cls, inst, name, kind, f, {p: v for p, v in base.items() if p not in dflt}, f"{inst + ' ' if inst else ''}defaults"))

    for name, v in list(C.m.scope.vars.items()):
        if name.startswith("_") or name in ALIAS:
            continue
        if isinstance(v, Func):
            emit(None, None, name, "function", v, False)
        elif isinstance(v, PyClass):
            if v.name != name or name == "Shape":
                continue
            if name not in INST:
                skipped.append(name)
                continue
            seen = set()
            for k in v.mro:
                for m, x in k.ns.items():
                    if m in seen:
                        continue
                    seen.add(m)
                    if m == "__init__":
                        emit(name, None, m, "init", x, True)
                        continue
                    if m.startswith("_") and m not in ("__add__", "__radd__", "__mul__", "__truediv__", "__sub__"):
                        continue
                    if isinstance(x, (ClassM, StaticM)):
                        f = x.f
                        if isinstance(f, Func):
                            emit(name, None, m, "class" if isinstance(x, ClassM) else "static", f, isinstance(x, ClassM))
                        continue
                    f = x.fget if isinstance(x, Prop) else x
                    if not isinstance(f, Func) or f.abstract:
                        continue
                    for i in INST[name]:
                        if isinstance(x, Prop):
                            out.append(Op(name, i, m, "prop", f, {}, i))
                        elif m == "__radd__":
                            emit(name, i, m, "radd", f, True)
                        elif m.startswith("__"):
                            emit(name, i, m, "op", f, True)
                        else:
                            emit(name, i, m, "method", f, True)
    return out, skipped


def snapshot(C, v, path="", out=None, seen=None):
    """Observable content of an abstract value, by path."""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(v, (Arr, PyObj, list, dict)) or type(v).__name__ == "Native":
        if id(v) in seen:
            return out
        seen.add(id(v))
    if isinstance(v, Arr):
        out[path] = ("array", v.a.shape, tuple(leaf(x) for x in v.a.reshape(-1)))
    elif isinstance(v, PyObj):
        out[path] = ("object", v.cls.name)
        for k, x in v.attrs.items():
            snapshot(C, x, f"{path}.{k}", out, seen)
    elif isinstance(v, (list, tuple)):
        out[path] = (type(v).__name__, len(v))
        for i, x in enumerate(v):
            snapshot(C, x, f"{path}[{i}]", out, seen)
    elif isinstance(v, (dict,)):
        out[path] = ("dict", tuple(keyname(C, k) for k in v))
        for k, x in v.items():
            snapshot(C, x, f"{path}[{keyname(C, k)}]", out, seen)
    elif type(v).__name__ == "Native" and v.name == "cdd.Matrix":
        out[path] = ("matrix", tuple(leaf(x) for r in v.rows for x in r), tuple(sorted(v.lin)), v.rep.n)
    else:
        out[path] = leaf(v)
    return out


def keyname(C, k):
    if isinstance(k, PyObj):
        return repr({a: repr(x) for a, x in k.attrs.items()})
    return repr(k)


KNOWN = [None]  # when set: atoms made later (solver outcomes and the like) are not compared


def leaf(x):
    if isinstance(x, Rat):
        if KNOWN[0] is not None and any(a > KNOWN[0][0] and a not in KNOWN[0][1] and alg.ATOMS[a].kind in ("var", "rot") for a in alg.all_atoms(x)):
            return ("id", "later")
        return x.fp()
    if isinstance(x, (bool, int)):
        return ("b", x) if isinstance(x, bool) else Rat.const(x).fp()
    if isinstance(x, (float, str, type(None))):
        return repr(x)
    if isinstance(x, PyObj):
        return tuple((k, repr(v)) for k, v in x.attrs.items())
    if isinstance(x, B) and x.op != "opq":
        return ("B", x.op) + tuple(a if isinstance(a, str) else leaf(a) for a in x.args)
    return ("id", id(x))
