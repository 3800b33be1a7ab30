"""Interface conformance and call binding.  (a) Every concrete shape implements every
abstract operation of the shape interface with parameters that accept the interface's
positional and keyword calls; each interface operation is evaluated on every shape with
every keyword given.  (b) Operations that take any shape are evaluated with every kind
(and pair of kinds) of shape.  (c) Every name, attribute and call of the library and of
the scripts is resolved on the syntax tree, with calls followed into their bodies, and
must exist and bind.  (d) On every analysed trace of every public operation no call
fails to bind and no attribute is missing."""
import ast
import itertools
import os

from ..core import *
from ..catalog import ops, scenario, params, values, SHAPES, INST
from ..csets import variable
from ..binder import Binder
from ..build import *
from ..interp import Func, PyClass, Prop, StaticM, ClassM

LEVEL = "other"
RULE = "abstract operations are implemented with compatible parameters; every resolvable name, attribute and call exists and binds; no analysed trace of an operation with valid arguments ends in a binding, attribute or name error"
ASSUMPTIONS = ["names whose type the inference does not know (results of third-party calls, elements of containers) are not judged by the syntax-tree pass; the evaluated operations cover them", "third-party objects accept what the transfer functions accept"]
BAD = ("TypeError", "AttributeError", "NameError", "UnboundLocalError", "ImportError", "ModuleNotFoundError")


def unwrap(x):
    for at in ("fget", "f", "func"):
        while hasattr(x, at) and not isinstance(x, Func):
            x = getattr(x, at)
    return x


def shape_objs(C, tag=""):
    return {
        "Box": lambda: box(C, "generic", tag="b" + tag).obj,
        "Ellipsoid": lambda: ellipsoid(C, "generic", tag="e" + tag).obj,
        "Cylinder": lambda: cylinder(C, "generic", tag="c" + tag).obj,
        "Capsule": lambda: capsule(C, "generic", tag="k" + tag).obj,
        "ConvexPolyhedron": lambda: poly(C, 4, 4, 3, "v" + tag).obj,
    }


def check(C):
    b = Binder(C)
    classes = b.all_classes()
    base = next((k for k in classes if k.name == "Shape"), None)
    if base is None:
        raise Anchor("Shape")
    concrete = [k for k in classes if base in k.mro and k is not base]
    iface = {n: x for n, x in base.ns.items() if not n.startswith("_") and isinstance(unwrap(x), Func)}

    # (a) implementation and parameters
    for k in concrete:
        miss = b.abstract_of(k)
        for n in iface:
            cw = C.where(f"{k.name}.{n}")
            if n in miss:
                C.fail("implements", C.where(k.name), f"{k.name} does not implement {n}")
                continue
            x = k.find(n)
            f, g = unwrap(x), unwrap(iface[n])
            if not isinstance(f, Func):
                C.unk("implements", cw, f"{k.name}.{n} is not a function")
                continue
            if isinstance(x, Prop) != isinstance(iface[n], Prop):
                C.fail("implements", cw, f"{k.name}.{n} is {'a property' if isinstance(x, Prop) else 'not a property'}, the interface says otherwise")
                continue
            C.ok("implements", cw, n)
            skip = 0 if isinstance(x, StaticM) else 1
            want, have = g.params[1:], f.params[skip:]
            for i, p in enumerate(want):
                if i < len(have) and have[i] != p:
                    C.fail("parameter-order", cw, f"{k.name}.{n}: argument {i + 1} is {have[i]}, in the interface it is {p}")
                elif i >= len(have) and not f.vararg:
                    C.fail("parameter-order", cw, f"{k.name}.{n} does not accept {p} as argument {i + 1}")
                else:
                    C.ok("parameter-order", cw, p)
            for p in want + g.kwonly:
                if p in f.params + f.kwonly or f.kwarg:
                    C.ok("keyword-option", cw, p)
                else:
                    C.fail("keyword-option", cw, f"{k.name}.{n} does not accept the option {p} of the interface")
            nd = len(g.node.args.defaults)
            dflt = set(want[len(want) - nd :]) if nd else set()
            ndf = len(f.node.args.defaults)
            mine = set(f.params[len(f.params) - ndf :]) if ndf else set()
            need = [p for p in have if p not in mine] + [a.arg for a, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults) if d is None]
            extra = [p for p in need if p not in want or p in dflt]
            if extra:
                C.fail("optional-option", cw, f"{k.name}.{n} requires {', '.join(extra)}, which a caller of the interface need not pass")
            else:
                C.ok("optional-option", cw, n)

    # evaluated on every shape with every keyword, and with positional arguments
    def call_iface(item):
        name, n = item
        if name not in SHAPES:
            return

        def f(how):
            def g():
                C.I.scenario.update(scenario(C))
                o = shape_objs(C)[name]()
                gf = unwrap(iface[n])
                vals = {}
                for p in gf.params[1:] + gf.kwonly:
                    vs = values(C, name, n, p)
                    if not vs:
                        yield ("undecided", f"{name}.{n}: no abstract value for {p}")
                        return
                    vals[p] = vs[0]()
                m = C.attr(o, n)
                try:
                    if how == "keyword":
                        C.I.call(m, [], vals)
                    else:
                        C.I.call(m, list(vals.values()), {})
                except Raised as e:
                    if e.kind in BAD:
                        yield ("diff", f"{name}.{n} called with {how} arguments {', '.join(vals)} raises {e.kind}: {e.msg} at {e.where}")
                        return
                    if e.kind == "NotImplementedError":
                        yield ("diff", f"{name}.{n} is not implemented")
                        return
                yield ("proved", f"{name}.{n} accepts {how} arguments {', '.join(vals)}")

            return g

        for how in ("keyword", "positional"):
            C.run("interface-call", f"{name}.{n}", f(how), limit=3, special=False)

    # (b) places where any shape may stand
    kinds = list(SHAPES)

    def poly_sites(item):
        what, ks = item

        def f():
            C.I.scenario.update(scenario(C))
            mk, mk2 = shape_objs(C), shape_objs(C, "2")
            if what == "closest":
                C.call("closest_points", mk[ks[0]](), mk2[ks[1]](), solver=C.token("solver"))
            elif what == "body":
                bd = C.call("RigidBody", [mk[ks[0]](), mk2[ks[1]]()], params(C))
                C.meth(bd, "transform", rotation=C.A(C.rot("Rt")), translation=C.A(C.vec("t")))
                C.meth(bd, "mbes", sphere=True, solver=C.token("solver"))
                C.meth(bd, "mbes")
                C.call("RigidBody", mk[ks[0]](), params(C))
            elif what == "body-moments":
                bd = C.call("RigidBody", [mk[ks[0]](), mk2[ks[1]]()], params(C))
                C.meth(bd, "moment_sdp_constraints", variable(C, (4, 4), symmetric=True), eps=C.pos("eps", ONE), d=2)
            elif what == "rejection":
                C.call("rejection_sample", [mk[ks[0]]()], mk2[ks[1]](), 2, rng=C.I.make_gen(("caller", 0)), max_tries=2)
            elif what == "contains_polyhedron":
                C.meth(mk[ks[0]](), "contains_polyhedron", poly(C, 4, 4, 3, "w").obj, tol=C.pos("tol", ONE))
                C.meth(mk[ks[0]](), "contains_polyhedron", box(C, "generic", tag="w").obj)
            elif what == "is_same":
                C.meth(mk[ks[0]](), "is_same", mk2[ks[1]](), tol=C.pos("tol", ONE))
            elif what == "aabb-of":
                a = C.meth(mk[ks[0]](), "aabb")
                C.meth(a, "grid", 2)
                C.meth(C.meth(mk[ks[0]](), "mbe"), "contains", C.A(C.vec("p")))
            yield ("proved", f"{what} with {' and '.join(ks)}")

        def judged():
            try:
                yield from f()
            except Raised as e:
                if e.kind in BAD:
                    yield ("diff", f"{what} with {' and '.join(ks)} raises {e.kind}: {e.msg} at {e.where}")
                else:
                    yield ("proved", f"{what} with {' and '.join(ks)} binds (ends in {e.kind})")

        C.run("any-shape", {"closest": "closest_points", "body": "RigidBody", "body-moments": "RigidBody.moment_sdp_constraints", "rejection": "rejection_sample", "contains_polyhedron": f"{ks[0]}.contains_polyhedron", "is_same": f"{ks[0]}.is_same", "aabb-of": f"{ks[0]}.aabb"}[what], judged, limit=3, special=False)

    sites = [("closest", p) for p in itertools.product(kinds, repeat=2)] + [("body", p) for p in itertools.product(kinds, repeat=2)] + [("is_same", p) for p in itertools.product(kinds, repeat=2)]
    sites += [("body-moments", p) for p in itertools.product([k for k in kinds if k != "Capsule"], repeat=2)]
    sites += [("rejection", (k, j)) for k in kinds for j in ("Box", "Ellipsoid")] + [("contains_polyhedron", (k,)) for k in kinds] + [("aabb-of", (k,)) for k in kinds]

    # (c) names, attributes and calls on the syntax tree
    try:
        b.library()
        scripts = []
        for root in ("scripts",):
            for d, _, fs in os.walk(os.path.join(C.repo, root)):
                for x in sorted(fs):
                    if x.endswith(".py"):
                        p = os.path.join(d, x)
                        try:
                            b.script(p)
                        except SyntaxError as e:
                            C.fail("parses", os.path.relpath(p, C.repo), f"line {e.lineno}: {e.msg}")
                            continue
                        scripts.append(os.path.relpath(p, C.repo))
        for (rel, line, what), where in sorted(b.problems.items()):
            C.fail("binds", f"{rel}:{line} {where}", what)
        for _ in range(len(b.sites) - len(b.problems)):
            C.ok("binds", "call sites", "")
    except RecursionError:
        C.unk("binds", "package", "recursion limit of the inference")

    # (d) no trace of a valid call fails to bind
    todo, skipped = ops(C)
    # a named constructor is called on the class that defines it, and a polyhedron from something
    todo = [o for o in todo if not (o.kind == "class" and o.name not in C.get(o.cls).ns) and not (o.cls == "ConvexPolyhedron" and o.kind == "init" and not o.args)]

    def traced(op):
        def f():
            C.I.scenario.update(scenario(C))
            thunk, ext = op.prepare(C)
            try:
                thunk()
            except Raised as e:
                if e.kind in BAD:
                    yield ("diff", f"{op.label} raises {e.kind}: {e.msg} at {e.where}")
                    return
            yield ("proved", f"{op.label} binds on this trace")

        C.run("trace-binds", op.construct, f, limit=20 if C.thorough else 6)

    items = [(call_iface, (k.name, n)) for k in concrete for n in iface] + [(poly_sites, s) for s in sites] + [(traced, o) for o in todo]
    C.parallel(items, lambda it: it[0](it[1]))
    C.extra = {"interface": sorted(iface), "shapes": [k.name for k in concrete], "scripts": scripts, "call_sites": len(b.sites), "checked": b.checked, "calls_not_resolved": b.unresolved, "operations_skipped": skipped}
