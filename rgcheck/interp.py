"""Abstract interpreter for the Python subset the analysed library uses.

It walks the syntax trees of /repo's current source.  Numbers are abstract
(alg.Rat / cond.B), arrays are containers of abstract numbers, library calls
(numpy, cvxpy, cdd, scipy) are transfer functions (models_*.py).  The analysed
code is never imported or executed.
"""
import ast
import builtins as _b
import math
import operator
import os
from fractions import Fraction

import numpy as np

from . import alg
from .alg import Rat
from .cond import B, band, bor, bnot, cmp as bcmp, truth


class Undecided(Exception):
    """The analysis meets something outside its abstract semantics."""


class Raised(Exception):
    """The analysed code raises (in the abstract semantics)."""

    def __init__(self, kind, msg="", where=None, obj=None, mro=()):
        super().__init__(kind, msg)
        self.kind, self.msg, self.where, self.obj = kind, msg, where, obj
        self.mro = tuple(mro) or (kind,)

    def __str__(self):
        return f"{self.kind}: {self.msg} at {self.where}"


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Scope:
    __slots__ = ("vars", "parent", "kind", "globals_", "nonlocals", "func", "locals_")

    def __init__(self, parent=None, kind="func", func=None, locals_=None):
        self.vars, self.parent, self.kind, self.func = {}, parent, kind, func
        self.globals_, self.nonlocals = set(), set()
        self.locals_ = locals_ or frozenset()

    def lookup(self, name):
        s = self
        first = True
        while s is not None:
            if name in s.vars and (first or s.kind != "class"):
                return s.vars[name]
            if first and name in s.locals_ and name not in s.globals_ and name not in s.nonlocals:
                raise Raised("UnboundLocalError", f"local variable {name!r} referenced before assignment")
            first = False
            s = s.parent
        raise KeyError(name)

    def module(self):
        s = self
        while s.parent is not None:
            s = s.parent
        return s


class Module:
    def __init__(self, name, path=None, pkg=None):
        self.name, self.path, self.pkg = name, path, pkg
        self.scope = Scope(kind="module")
        self.tree = None

    def __repr__(self):
        return f"<module {self.name}>"


class Func:
    """An interpreted function."""

    def __init__(self, node, scope, mod, qual, defaults, kwdefaults, cls=None):
        self.node, self.scope, self.mod, self.qual = node, scope, mod, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.name = getattr(node, "name", "<lambda>")
        self.abstract = False
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.posonly = len(a.posonlyargs)
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.locals_ = _local_names(node)
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.qual}>"

    def where(self):
        return f"{self.mod.path}:{self.node.lineno}"


def _local_names(node):
    if isinstance(node, ast.Lambda):
        return frozenset()
    out = set()

    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # walrus targets leak but are not used here
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    out.add((al.asname or al.name).split(".")[0])
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            visit(c)

    for st in node.body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            out.add(st.name)
        elif isinstance(st, ast.Name):
            pass
        else:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                for al in st.names:
                    out.add((al.asname or al.name).split(".")[0])
            visit(st)
    return frozenset(out)


def _has_yield(node):
    for st in node.body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                # ignore those inside nested functions (approximation: none nested here)
                return True
    return False


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f"<bound {self.func}>"


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class CachedProp(Prop):
    """functools.cached_property: the value is stored in the instance."""


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class PyClass:
    def __init__(self, name, bases, ns, mod, qual):
        self.name, self.bases, self.ns, self.mod, self.qual = name, bases, ns, mod, qual
        self.mro = self._c3()
        self.dataclass = None

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, PyClass)] + [[b for b in self.bases if isinstance(b, PyClass)]]
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Raised("TypeError", "MRO conflict")
            out.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def find(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def has(self, name):
        return any(name in c.ns for c in self.mro)

    def abstract_names(self):
        out = set()
        for c in reversed(self.mro):
            for k, v in c.ns.items():
                f = v.fget if isinstance(v, Prop) else (v.f if isinstance(v, (StaticM, ClassM)) else v)
                if isinstance(f, Func) and f.abstract:
                    out.add(k)
                else:
                    out.discard(k)
        return out

    def is_abc(self):
        return any(getattr(b, "name", "") == "ABC" for c in self.mro for b in c.bases)

    def is_exc(self):
        return next((b.name for c in self.mro for b in c.bases if isinstance(b, ExcClass)), None)

    def __repr__(self):
        return f"<class {self.qual}>"


class ExcClass:
    """Builtin exception class."""

    def __init__(self, name):
        self.name = name
        self.py = getattr(_b, name)

    def __repr__(self):
        return self.name


class ExcVal:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args

    @property
    def kind(self):
        return self.cls.name


class Native:
    """A class-like or module-like object of the modelled environment."""

    def __init__(self, name, attrs=None, **kw):
        self.name = name
        self.attrs = dict(attrs or {})
        self.__dict__.update(kw)

    def __repr__(self):
        return f"<{self.name}>"


class Opaque:
    """Value about which nothing is known."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<opaque {self.name}>"


class PyObj:
    """Instance of an interpreted class."""

    _interp = None
    __array_priority__ = None

    def __init__(self, cls):
        self.__dict__["cls"] = cls
        self.__dict__["attrs"] = {}

    def __repr__(self):
        return f"<{self.cls.name} object>"

    # python-level delegation so that containers and object arrays behave
    def _dunder(self, name, *args):
        f = self.cls.find(name)
        if f is None:
            return NotImplemented
        return PyObj._interp.call(Bound(f, self), list(args), {})

    def __hash__(self):
        if self.cls.find("__hash__") is not None:
            return PyObj._interp.as_int(self._dunder("__hash__"))
        return id(self)

    def __eq__(self, o):
        if self is o:
            return True
        if self.cls.find("__eq__") is None:
            return NotImplemented
        v = self._dunder("__eq__", o)
        return v if v is NotImplemented or v is NIMPL else PyObj._interp.decide(v)

    def __mul__(self, o):
        return PyObj._interp.binop("*", self, o)

    def __rmul__(self, o):
        return PyObj._interp.binop("*", o, self)

    def __add__(self, o):
        return PyObj._interp.binop("+", self, o)

    def __radd__(self, o):
        return PyObj._interp.binop("+", o, self)

    def __sub__(self, o):
        return PyObj._interp.binop("-", self, o)


NIMPL = object()  # the analysed program's NotImplemented


class Arr:
    """Abstract array: concrete shape, abstract elements.  k is 'np' or 'cp'
    (an optimisation expression)."""

    __slots__ = ("a", "dt", "k", "var")

    def __init__(self, a, dt="f", k="np", var=None):
        self.a, self.dt, self.k, self.var = a, dt, k, var

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    def root(self):
        x = self.a
        while x.base is not None:
            x = x.base
        return x

    def __repr__(self):
        return f"Arr[{self.k},{self.dt},{self.a.shape}]({self.a.tolist()!r})"[:400]

    __hash__ = object.__hash__


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "@": "matmul", "&": "and", "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
CMPD = {"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
SWAP = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}

EXC_NAMES = [n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)]


class Interp:
    MAX_LOOP = 400
    MAX_STEPS = 3_000_000

    def __init__(self, root, package="rigeo"):
        self.root = root.rstrip("/")  # directory that contains the package directory
        self.repo = os.path.dirname(self.root)
        self.package = package
        self.modules = {}
        self.trees = {}
        self.stack = []
        self.effects = []  # (label, description, where)
        self.external = {}  # id(storage) -> (label, ref)
        self.prefix = []
        self.decisions = []
        self.decided = {}
        self.calls = []  # (callee, args, kwargs, where)
        self.rng_events = []
        self.problems = []
        self.variables = []
        self.records = []
        self.visited = set()
        self.funcs_seen = set()
        self.steps = 0
        self.globals_written = []
        self.natives = {}
        self.scenario = {}
        self.counter = 0
        self.events = []
        self.log_calls = False
        self.node = None
        PyObj._interp = self
        from . import models

        models.install(self)

    # ------------------------------------------------------------ running state
    def reset(self):
        """Forget per-analysis facts, keep loaded modules."""
        self.effects, self.external, self.prefix, self.decisions, self.decided = [], {}, [], [], {}
        self.calls, self.rng_events, self.problems, self.variables, self.records = [], [], [], [], []
        self.steps = 0
        self.globals_written = []
        self.scenario = {}
        self.events = []
        self.counter = 0
        self.stack = []
        self.solved_vars = set()
        PyObj._interp = self

    def where(self):
        if self.node is not None and self.stack:
            mod = self.stack[-1].mod if isinstance(self.stack[-1], Func) else None
            p = mod.path if mod else "?"
            return f"{os.path.relpath(p, self.repo) if p else '?'}:{getattr(self.node, 'lineno', '?')}"
        return "<entry>"

    def fname(self):
        for f in reversed(self.stack):
            if isinstance(f, Func):
                return f.qual
        return "<entry>"

    def err(self, kind, msg=""):
        return Raised(kind, msg, f"{self.where()} in {self.fname()}", mro=self.exc_mro(kind))

    @staticmethod
    def exc_mro(kind):
        c = getattr(_b, kind, None)
        return tuple(x.__name__ for x in c.__mro__) if isinstance(c, type) else (kind, "Exception", "BaseException")

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.split(".")
        base = os.path.join(self.root, *rel)
        if os.path.isdir(base):
            path, pkg = os.path.join(base, "__init__.py"), name
        else:
            path, pkg = base + ".py", name.rsplit(".", 1)[0] if "." in name else name
        if not os.path.exists(path):
            raise self.err("ModuleNotFoundError", f"No module named {name!r}")
        mod = Module(name, path, pkg)
        self.modules[name] = mod
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        with open(path, encoding="utf-8") as f:
            src = f.read()
        mod.tree = ast.parse(src, path)
        mod.scope.vars["__name__"] = name
        mod.scope.vars["__file__"] = path
        mod.scope.vars["__doc__"] = ast.get_docstring(mod.tree)
        saved = self.stack, self.node
        self.stack = self.stack + [_ModFrame(mod)]
        try:
            self.exec_body(mod.tree.body, mod.scope, mod)
        finally:
            self.stack, self.node = saved
        if "." in name:
            parent = self.modules[name.rsplit(".", 1)[0]]
            parent.scope.vars.setdefault(name.rsplit(".", 1)[1], mod)
        return mod

    def import_module(self, name):
        if name == self.package or name.startswith(self.package + "."):
            m = self.load(name)
            return m
        if name in self.natives:
            return self.natives[name]
        top = name.split(".")[0]
        if top in self.natives and name != top:
            m = self.natives[top]
            for p in name.split(".")[1:]:
                m = self.getattr(m, p)
            return m
        return Opaque(name)

    # ------------------------------------------------------------ decisions
    def decide(self, v, node=None):
        """Python truth of an abstract value; undetermined conditions are
        partitioned (one abstract trace per outcome)."""
        t = self.truthy(v)
        if isinstance(t, bool):
            return t
        i = len(self.decisions)
        hook = self.scenario.get("decide")
        if hook is not None:
            r = hook(t, self.where())
            if r is not None:
                self.decisions.append((repr(t)[:160], self.where(), r, "hook", t))
                return r
        key = bkey(t)
        if key is not None:
            # the same condition has the same outcome all along a trace
            if key in self.decided:
                return self.decided[key]
            if key[0] == "not" and key[1] in self.decided:
                return not self.decided[key[1]]
            if ("not", key) in self.decided:
                return not self.decided[("not", key)]
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            r = default_choice(t)
        if key is not None:
            self.decided[key] = r
        self.decisions.append((repr(t)[:160], self.where(), r, t.op, t))
        if len(self.decisions) > 3000:
            raise Undecided("too many undetermined branches")
        return r

    def truthy(self, v):
        if isinstance(v, (bool, B)):
            return v
        if v is None:
            return False
        if isinstance(v, Rat):
            return truth(v)
        if isinstance(v, (int, str, float)):
            return bool(v)
        if isinstance(v, (list, tuple, dict, set, frozenset, range)):
            return len(v) > 0
        if isinstance(v, Arr):
            if v.a.size == 1 and v.k == "np":
                return self.truthy(v.a.reshape(-1)[0])
            if v.k == "cp":
                raise self.err("Exception", "truth value of a cvxpy expression")
            if v.a.size == 0:
                return False
            raise self.err("ValueError", "The truth value of an array with more than one element is ambiguous")
        if isinstance(v, PyObj):
            f = v.cls.find("__bool__")
            if f is not None:
                return self.truthy(self.call(Bound(f, v), [], {}))
            f = v.cls.find("__len__")
            if f is not None:
                return self.truthy(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, Opaque):
            return B("opq", v.name)
        return True

    def as_int(self, v):
        """Concrete int or Undecided."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Rat):
            if v.is_const() and Fraction(v.value()).denominator == 1:
                return int(v.value())
            raise Undecided(f"symbolic integer {v!r}")
        if isinstance(v, Arr) and v.a.size == 1:
            return self.as_int(v.a.reshape(-1)[0])
        if isinstance(v, B):
            return int(self.decide(v))
        raise Undecided(f"integer expected, got {v!r}")

    # ------------------------------------------------------------ effects
    def mark_external(self, v, label, seen=None):
        seen = seen if seen is not None else set()
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, Arr):
            r = v.root()
            self.external.setdefault(id(r), (label, r))
        elif isinstance(v, PyObj):
            self.external.setdefault(id(v), (label, v))
            for k, x in v.attrs.items():
                self.mark_external(x, f"{label}.{k}", seen)
        elif isinstance(v, (list, dict, set)):
            self.external.setdefault(id(v), (label, v))
            for x in v.values() if isinstance(v, dict) else v:
                self.mark_external(x, f"{label}[..]", seen)
        elif isinstance(v, tuple):
            for x in v:
                self.mark_external(x, f"{label}[..]", seen)

    def note_write(self, v, what):
        key = id(v.root()) if isinstance(v, Arr) else id(v)
        if key in self.external:
            self.effects.append((self.external[key][0], what, self.where(), self.fname()))

    # ------------------------------------------------------------ statements
    def exec_body(self, body, sc, mod):
        for st in body:
            self.exec(st, sc, mod)

    def exec(self, st, sc, mod):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Undecided("step budget exhausted")
        self.node = st
        self.visited.add((mod.path, st.lineno))
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(st).__name__}")
        try:
            return m(st, sc, mod)
        except Raised as e:
            if e.where is None:
                e.where = f"{self.where()} in {self.fname()}"
            raise
        except alg.TooBig:
            raise Undecided(f"abstract value too large at {self.where()}")
        except RecursionError:
            raise Undecided("recursion too deep")

    def x_Expr(self, st, sc, mod):
        self.eval(st.value, sc, mod)

    def x_Pass(self, st, sc, mod):
        pass

    def x_Assign(self, st, sc, mod):
        v = self.eval(st.value, sc, mod)
        for t in st.targets:
            self.assign(t, v, sc, mod)

    def x_AnnAssign(self, st, sc, mod):
        if isinstance(st.target, ast.Name) and sc.kind == "class":
            sc.vars.setdefault("__annotations__", []).append(st.target.id)
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, sc, mod), sc, mod)

    def x_AugAssign(self, st, sc, mod):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, sc, mod)
            v = self.eval(st.value, sc, mod)
            r = self.inplace(op, cur, v)
            self.assign(t, r, sc, mod)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc, mod)
            cur = self.getattr(o, t.attr)
            v = self.eval(st.value, sc, mod)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc, mod)
            i = self.eval_index(t.slice, sc, mod)
            cur = self.getitem(o, i)
            v = self.eval(st.value, sc, mod)
            self.setitem(o, i, self.inplace(op, cur, v))
        else:
            raise Undecided("augmented assignment target")

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr) and cur.k == "np":
            self.np_inplace(op, cur, v)
            return cur
        if isinstance(cur, list) and op == "+":
            self.note_write(cur, "list extended in place")
            cur.extend(self.iterate(v))
            return cur
        if isinstance(cur, list) and op == "*":
            self.note_write(cur, "list changed in place")
            cur[:] = cur * self.as_int(v)
            return cur
        if isinstance(cur, (set, dict)) and op in ("|", "-", "&"):
            self.note_write(cur, "collection changed in place")
            r = operator.ior(cur, v) if op == "|" else (cur.difference_update(v) or cur if op == "-" else (cur.intersection_update(v) or cur))
            return r
        if isinstance(cur, PyObj):
            f = cur.cls.find("__i" + DUNDER[op] + "__")
            if f is not None:
                return self.call(Bound(f, cur), [v], {})
        return self.binop(op, cur, v)

    def x_Return(self, st, sc, mod):
        raise _Return(self.eval(st.value, sc, mod) if st.value is not None else None)

    def x_If(self, st, sc, mod):
        c = self.eval(st.test, sc, mod)
        self.node = st
        if self.decide(c, st):
            self.exec_body(st.body, sc, mod)
        else:
            self.exec_body(st.orelse, sc, mod)

    def x_For(self, st, sc, mod):
        it = self.iterate(self.eval(st.iter, sc, mod))
        n = 0
        broke = False
        for v in it:
            n += 1
            if n > 20000:
                raise Undecided("loop bound")
            self.assign(st.target, v, sc, mod)
            try:
                self.exec_body(st.body, sc, mod)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.exec_body(st.orelse, sc, mod)

    def x_While(self, st, sc, mod):
        n = 0
        while True:
            n += 1
            if n > self.MAX_LOOP:
                raise Undecided(f"loop does not settle at {self.where()}")
            c = self.eval(st.test, sc, mod)
            self.node = st
            if not self.decide(c, st):
                self.exec_body(st.orelse, sc, mod)
                break
            try:
                self.exec_body(st.body, sc, mod)
            except _Break:
                break
            except _Continue:
                continue

    def x_Break(self, st, sc, mod):
        raise _Break()

    def x_Continue(self, st, sc, mod):
        raise _Continue()

    def x_Assert(self, st, sc, mod):
        c = self.eval(st.test, sc, mod)
        self.node = st
        hook = self.scenario.get("assert")
        if hook is not None:
            t = self.truthy(c)
            r = hook(t, st, mod)
            if r is not None:
                if not r:
                    raise self.err("AssertionError", ast.unparse(st.test))
                return
        self.in_assert = True
        try:
            ok = self.decide_assert(c)
        finally:
            self.in_assert = False
        if not ok:
            raise self.err("AssertionError", ast.unparse(st.test))

    def decide_assert(self, c):
        t = self.truthy(c)
        if isinstance(t, bool):
            return t
        # an undetermined assertion: assume it passes (the failing partition is
        # the business of the guard analysis, C18)
        self.decisions.append((repr(t)[:160], self.where(), True, "assert", t))
        i = len(self.decisions) - 1
        if i < len(self.prefix):
            return self.prefix[i]
        hook = self.scenario.get("decide")
        if hook is not None:
            r = hook(t, self.where())
            if r is not None:
                return r
        return True

    def x_Raise(self, st, sc, mod):
        if st.exc is None:
            cur = self.scenario.get("handling")
            if cur:
                raise cur[-1]
            raise self.err("RuntimeError", "no active exception")
        v = self.eval(st.exc, sc, mod)
        self.node = st
        self.raise_value(v)

    def raise_value(self, v):
        if isinstance(v, ExcClass):
            raise self.err(v.name, "")
        if isinstance(v, ExcVal):
            raise self.err(v.cls.name, str(v.args[0]) if v.args else "")
        if isinstance(v, PyClass):
            v = self.call(v, [], {})
        if isinstance(v, PyObj) and v.cls.is_exc():
            e = self.err(v.cls.is_exc(), "")
            e.mro = tuple(c.name for c in v.cls.mro) + e.mro
            e.kind = v.cls.name
            raise e
        raise self.err("TypeError", "exceptions must derive from BaseException")

    def x_Try(self, st, sc, mod):
        try:
            try:
                self.exec_body(st.body, sc, mod)
            except Raised as e:
                for h in st.handlers:
                    if self.exc_match(h.type, e, sc, mod):
                        if h.name:
                            sc.vars[h.name] = ExcVal(ExcClass(e.kind) if hasattr(_b, e.kind) else Native(e.kind), (e.msg,))
                        self.scenario.setdefault("handling", []).append(e)
                        try:
                            self.exec_body(h.body, sc, mod)
                        finally:
                            self.scenario["handling"].pop()
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, sc, mod)
        finally:
            self.exec_body(st.finalbody, sc, mod)

    def exc_match(self, t, e, sc, mod):
        if t is None:
            return True
        v = self.eval(t, sc, mod)
        vs = v if isinstance(v, tuple) else (v,)
        for c in vs:
            nm = getattr(c, "name", None)
            if nm in e.mro or nm == e.kind:
                return True
        return False

    def x_With(self, st, sc, mod):
        for it in st.items:
            v = self.eval(it.context_expr, sc, mod)
            if isinstance(v, PyObj):
                v = self.call(self.getattr(v, "__enter__"), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, sc, mod)
        self.exec_body(st.body, sc, mod)

    def x_Import(self, st, sc, mod):
        for al in st.names:
            m = self.import_module(al.name)
            if al.asname:
                sc.vars[al.asname] = m
            else:
                sc.vars[al.name.split(".")[0]] = self.import_module(al.name.split(".")[0])

    def x_ImportFrom(self, st, sc, mod):
        if st.level:
            base = mod.pkg.split(".")
            base = base[: len(base) - (st.level - 1)]
            name = ".".join(base + ([st.module] if st.module else []))
        else:
            name = st.module
        if name == "__future__":
            return
        m = self.import_module(name)
        for al in st.names:
            if al.name == "*":
                if isinstance(m, Module):
                    allv = m.scope.vars.get("__all__")
                    for k, v in list(m.scope.vars.items()):
                        if (allv and k in allv) or (not allv and not k.startswith("_")):
                            sc.vars[k] = v
                continue
            if isinstance(m, Module) and al.name not in m.scope.vars:
                try:
                    v = self.load(name + "." + al.name)
                except Raised:
                    raise self.err("ImportError", f"cannot import name {al.name!r} from {name!r}")
            else:
                try:
                    v = self.getattr(m, al.name)
                except Raised:
                    raise self.err("ImportError", f"cannot import name {al.name!r} from {name!r}")
            sc.vars[al.asname or al.name] = v

    def x_Global(self, st, sc, mod):
        sc.globals_.update(st.names)

    def x_Nonlocal(self, st, sc, mod):
        sc.nonlocals.update(st.names)

    def x_Delete(self, st, sc, mod):
        for t in st.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, sc, mod)
                i = self.eval_index(t.slice, sc, mod)
                self.note_write(o, "item deleted")
                try:
                    del o[i]
                except (KeyError, IndexError) as ex:
                    raise self.err(type(ex).__name__, str(ex))
            else:
                o = self.eval(t.value, sc, mod)
                self.note_write(o, f"attribute {t.attr} deleted")
                o.attrs.pop(t.attr, None)

    def x_FunctionDef(self, st, sc, mod):
        f = self.make_func(st, sc, mod)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, sc, mod)
        sc.vars[st.name] = v

    def decorate(self, d, v, sc, mod):
        # property setters
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.eval(d.value, sc, mod)
            if d.attr == "setter":
                return Prop(p.fget, v)
            return Prop(v, p.fset)
        dec = self.eval(d, sc, mod)
        return self.call(dec, [v], {})

    def make_func(self, node, sc, mod):
        a = node.args
        defaults = [self.eval(d, sc, mod) for d in a.defaults]
        kwd = {x.arg: self.eval(d, sc, mod) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        s = sc
        names = [getattr(node, "name", "<lambda>")]
        while s is not None and s.kind != "module":
            if s.kind == "class":
                names.insert(0, s.func)
            elif s.func is not None:
                names.insert(0, s.func.qual.split(".", 1)[-1] if isinstance(s.func, Func) else str(s.func))
                break
            s = s.parent
        qual = mod.name.replace(self.package + ".", "") + "." + ".".join(names)
        return Func(node, sc, mod, qual, defaults, kwd)

    def x_ClassDef(self, st, sc, mod):
        bases = [self.eval(b, sc, mod) for b in st.bases]
        cs = Scope(sc, kind="class", func=st.name)
        self.exec_body(st.body, cs, mod)
        cls = PyClass(st.name, bases, cs.vars, mod, mod.name.replace(self.package + ".", "") + "." + st.name)
        cls.node = st
        for v in cs.vars.values():
            f = v.f if isinstance(v, (StaticM, ClassM)) else (v.fget if isinstance(v, Prop) else v)
            if isinstance(f, Func) and f.cls is None:
                f.cls = cls
        v = cls
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, sc, mod)
        sc.vars[st.name] = v

    def x_Match(self, st, sc, mod):
        raise Undecided("match statement")

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, sc, mod):
        if isinstance(t, ast.Name):
            if t.id in sc.globals_:
                m = sc.module()
                m.vars[t.id] = v
                self.globals_written.append((t.id, self.where()))
            elif t.id in sc.nonlocals:
                s = sc.parent
                while s is not None and t.id not in s.vars:
                    s = s.parent
                (s or sc).vars[t.id] = v
            else:
                sc.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise self.err("ValueError", "not enough values to unpack")
                parts = vs[:i] + [vs[i : len(vs) - k]] + vs[len(vs) - k :]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, sc, mod)
                return
            if len(vs) != len(t.elts):
                raise self.err("ValueError", f"cannot unpack {len(vs)} values into {len(t.elts)} targets")
            for e, x in zip(t.elts, vs):
                self.assign(e, x, sc, mod)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc, mod)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc, mod)
            i = self.eval_index(t.slice, sc, mod)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc, mod)
        else:
            raise Undecided("assignment target")

    # ------------------------------------------------------------ expressions
    def eval(self, e, sc, mod):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__}")
        return m(e, sc, mod)

    def e_Constant(self, e, sc, mod):
        v = e.value
        if isinstance(v, float):
            if math.isinf(v) or math.isnan(v):
                return v
            return Rat.const(alg.frac(v))
        if isinstance(v, complex):
            raise Undecided("complex number")
        return v

    def load_name(self, name, sc, mod):
        try:
            return sc.lookup(name)
        except KeyError:
            pass
        if name in self.builtins:
            return self.builtins[name]
        raise self.err("NameError", f"name {name!r} is not defined")

    def e_Name(self, e, sc, mod):
        return self.load_name(e.id, sc, mod)

    def e_Tuple(self, e, sc, mod):
        return tuple(self.elts(e.elts, sc, mod))

    def e_List(self, e, sc, mod):
        return list(self.elts(e.elts, sc, mod))

    def e_Set(self, e, sc, mod):
        return set(self.elts(e.elts, sc, mod))

    def elts(self, es, sc, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.eval(x.value, sc, mod)))
            else:
                out.append(self.eval(x, sc, mod))
        return out

    def e_Dict(self, e, sc, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, sc, mod))
            else:
                kk = self.eval(k, sc, mod)
                d[self.key(kk)] = self.eval(v, sc, mod)
        return d

    def key(self, k):
        if isinstance(k, Arr):
            raise self.err("TypeError", "unhashable type: 'numpy.ndarray'")
        if isinstance(k, (list, dict, set)):
            raise self.err("TypeError", "unhashable type")
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        return k

    def e_BinOp(self, e, sc, mod):
        l = self.eval(e.left, sc, mod)
        r = self.eval(e.right, sc, mod)
        return self.binop(BINOPS[type(e.op)], l, r)

    def e_UnaryOp(self, e, sc, mod):
        v = self.eval(e.operand, sc, mod)
        return self.unop(type(e.op).__name__, v)

    def unop(self, op, v):
        if op == "Not":
            t = self.truthy(v)
            return bnot(t)
        if isinstance(v, Arr):
            return self.np_unop(op, v)
        if isinstance(v, PyObj):
            nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
            f = v.cls.find(nm)
            if f is None:
                raise self.err("TypeError", f"bad operand type for unary {op}")
            return self.call(Bound(f, v), [], {})
        if op == "USub":
            if isinstance(v, B):
                raise self.err("TypeError", "boolean negative")
            if isinstance(v, (int, float, Rat)):
                return -v
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, B):
                return bnot(v)
            if isinstance(v, bool):
                # numpy booleans negate, python booleans do not; scalars that
                # reach here come from reductions (numpy)
                return not v
            if isinstance(v, int):
                return ~v
        if isinstance(v, Opaque):
            raise Undecided(f"unary on {v!r}")
        raise self.err("TypeError", f"bad operand type for unary {op}: {self.tname(v)}")

    def e_BoolOp(self, e, sc, mod):
        isand = isinstance(e.op, ast.And)
        acc = []  # undetermined truth values so far
        for i, x in enumerate(e.values):
            v = self.eval(x, sc, mod)
            last = i == len(e.values) - 1
            if acc and not isinstance(v, (B, bool)):
                # the value itself is wanted: settle the conditions before it
                t = band(*acc) if isand else bor(*acc)
                t = self.decide(t, e) if isinstance(t, B) else t
                if t != isand:
                    return t
                acc = []
            if last and not acc:
                return v
            t = self.truthy(v)
            if isinstance(t, bool):
                if t != isand:  # short circuit
                    if not acc:
                        return v
                    acc.append(t)
                    break
                continue
            if not isinstance(v, B):
                # a number or object: it is the result if it decides
                if self.decide(t, e) != isand:
                    return v
                continue
            acc.append(t)
        return band(*acc) if isand else bor(*acc)

    def e_Compare(self, e, sc, mod):
        l = self.eval(e.left, sc, mod)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r, sc, mod)
            v = self.compare(CMPOPS[type(op)], l, rv)
            if len(e.ops) == 1:
                return v
            t = self.truthy(v)
            if t is False:
                return False
            out.append(t)
            l = rv
        return band(*out)

    def e_IfExp(self, e, sc, mod):
        c = self.eval(e.test, sc, mod)
        return self.eval(e.body if self.decide(c, e) else e.orelse, sc, mod)

    def e_Attribute(self, e, sc, mod):
        o = self.eval(e.value, sc, mod)
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, sc, mod):
        o = self.eval(e.value, sc, mod)
        i = self.eval_index(e.slice, sc, mod)
        return self.getitem(o, i)

    def eval_index(self, s, sc, mod):
        return self.eval(s, sc, mod)

    def e_Slice(self, e, sc, mod):
        f = lambda x: None if x is None else self.eval(x, sc, mod)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Lambda(self, e, sc, mod):
        return self.make_func(e, sc, mod)

    def e_JoinedStr(self, e, sc, mod):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, sc, mod)
                out.append(self.to_str(x))
        return "".join(out)

    def to_str(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, PyObj):
            for n in ("__str__", "__repr__"):
                f = x.cls.find(n)
                if f is not None:
                    return self.call(Bound(f, x), [], {})
            return f"<{x.cls.name}>"
        if isinstance(x, (list, tuple)):
            return "(" + ", ".join(self.to_str(y) for y in x) + ")"
        return repr(x) if not isinstance(x, (int, bool)) else str(x)

    def e_FormattedValue(self, e, sc, mod):
        return self.to_str(self.eval(e.value, sc, mod))

    def e_NamedExpr(self, e, sc, mod):
        v = self.eval(e.value, sc, mod)
        s = sc
        while s.kind == "comp":
            s = s.parent
        s.vars[e.target.id] = v
        return v

    def e_Starred(self, e, sc, mod):
        raise Undecided("starred expression")

    def e_ListComp(self, e, sc, mod):
        return list(self.comp(e.generators, sc, mod, lambda s: self.eval(e.elt, s, mod)))

    def e_SetComp(self, e, sc, mod):
        return set(self.comp(e.generators, sc, mod, lambda s: self.eval(e.elt, s, mod)))

    def e_GeneratorExp(self, e, sc, mod):
        return GenList(self.comp(e.generators, sc, mod, lambda s: self.eval(e.elt, s, mod)))

    def e_DictComp(self, e, sc, mod):
        return dict(self.comp(e.generators, sc, mod, lambda s: (self.key(self.eval(e.key, s, mod)), self.eval(e.value, s, mod))))

    def comp(self, gens, sc, mod, leaf):
        out = []

        def rec(i, s):
            if i == len(gens):
                out.append(leaf(s))
                return
            g = gens[i]
            for v in self.iterate(self.eval(g.iter, s, mod)):
                s2 = s
                self.assign(g.target, v, s2, mod)
                if all(self.decide(self.eval(c, s2, mod), c) for c in g.ifs):
                    rec(i + 1, s2)

        s = Scope(sc if sc.kind != "class" else sc, kind="comp", func=sc.func)
        rec(0, s)
        return out

    def e_Yield(self, e, sc, mod):
        v = self.eval(e.value, sc, mod) if e.value is not None else None
        s = sc
        while "__yield__" not in s.vars:
            s = s.parent
        s.vars["__yield__"].append(v)
        return None

    def e_YieldFrom(self, e, sc, mod):
        v = self.eval(e.value, sc, mod)
        sc.vars["__yield__"].extend(self.iterate(v))
        return None

    def e_Call(self, e, sc, mod):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            s = sc
            while s is not None and s.kind == "comp":
                s = s.parent
            f = s.func
            return Super(f.cls, s.vars[f.params[0]])
        f = self.eval(e.func, sc, mod)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.eval(a.value, sc, mod)))
            else:
                args.append(self.eval(a, sc, mod))
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.eval(k.value, sc, mod))
            else:
                if k.arg in kwargs:
                    raise self.err("TypeError", f"got multiple values for keyword argument {k.arg!r}")
                kwargs[k.arg] = self.eval(k.value, sc, mod)
        self.node = e
        return self.call(f, args, kwargs, node=e)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, PyClass):
            return self.construct(f, args, kwargs)
        if isinstance(f, ExcClass):
            return ExcVal(f, tuple(args))
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs, node)
        if isinstance(f, ClassM):
            raise Undecided("unbound classmethod")
        if isinstance(f, Native):
            c = f.attrs.get("__call__")
            if c is None:
                raise self.err("TypeError", f"{f!r} is not callable")
            return c(*args, **kwargs)
        if isinstance(f, PyObj):
            m = f.cls.find("__call__")
            if m is None:
                raise self.err("TypeError", f"'{f.cls.name}' object is not callable")
            return self.call(Bound(m, f), args, kwargs)
        if isinstance(f, Opaque):
            raise Undecided(f"call of {f.name}")
        if f is None or isinstance(f, (int, str, float, Rat, list, tuple, dict, Arr, B, Module)):
            raise self.err("TypeError", f"'{self.tname(f)}' object is not callable")
        if callable(f):
            saved = self.node
            try:
                return f(*args, **kwargs)
            except TypeError as ex:
                if "argument" in str(ex) and ("unexpected" in str(ex) or "positional" in str(ex) or "multiple values" in str(ex)):
                    sig = getattr(f, "_strict", None)
                    nm = getattr(f, "__name__", str(f))
                    if sig:
                        raise self.err("TypeError", f"{nm}: {ex}")
                    raise Undecided(f"call of modelled {nm} outside the model: {ex} at {self.where()}")
                raise
            finally:
                self.node = saved
        raise Undecided(f"call of {f!r}")

    def bind(self, f, args, kwargs):
        v = {}
        n = len(f.params)
        args = list(args)
        if len(args) > n and f.vararg is None:
            raise self.err("TypeError", f"{f.qual}() takes {n} positional arguments but {len(args)} were given")
        for p, a in zip(f.params, args):
            v[p] = a
        if f.vararg:
            v[f.vararg] = tuple(args[n:])
        extra = {}
        for k, a in kwargs.items():
            if k in f.params[f.posonly :] or k in f.kwonly:
                if k in v:
                    raise self.err("TypeError", f"{f.qual}() got multiple values for argument {k!r}")
                v[k] = a
            elif f.kwarg:
                extra[k] = a
            else:
                raise self.err("TypeError", f"{f.qual}() got an unexpected keyword argument {k!r}")
        if f.kwarg:
            v[f.kwarg] = extra
        nd = len(f.defaults)
        for i, p in enumerate(f.params):
            if p not in v:
                j = i - (n - nd)
                if j < 0:
                    raise self.err("TypeError", f"{f.qual}() missing required argument {p!r}")
                v[p] = f.defaults[j]
        for p in f.kwonly:
            if p not in v:
                if p not in f.kwdefaults:
                    raise self.err("TypeError", f"{f.qual}() missing required keyword-only argument {p!r}")
                v[p] = f.kwdefaults[p]
        return v

    def call_func(self, f, args, kwargs):
        vals = self.bind(f, args, kwargs)
        if len(self.stack) > 150:
            raise Undecided("call depth")
        sc = Scope(f.scope, func=f, locals_=f.locals_)
        if f.scope.kind == "class":
            sc.parent = f.scope.parent
        sc.vars.update(vals)
        self.funcs_seen.add(f.qual)
        if self.log_calls:
            self.calls.append((f, vals, list(args), dict(kwargs), self.where(), self.fname()))
        hook = self.scenario.get("call")
        if hook is not None:
            r = hook(self, f, vals)
            if r is not None:
                return r[0]
        saved_node = self.node
        self.stack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, sc, f.mod)
            if f.is_gen:
                sc.vars["__yield__"] = []
                try:
                    self.exec_body(f.node.body, sc, f.mod)
                except _Return:
                    pass
                return GenList(sc.vars["__yield__"])
            try:
                self.exec_body(f.node.body, sc, f.mod)
            except _Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.node = saved_node

    def construct(self, cls, args, kwargs):
        if cls.is_exc():
            o = PyObj(cls)
            o.attrs["args"] = tuple(args)
            return o
        if cls.is_abc():
            ab = cls.abstract_names()
            if ab:
                raise self.err("TypeError", f"Can't instantiate abstract class {cls.name} with abstract methods {', '.join(sorted(ab))}")
        enum = [b for c in cls.mro for b in c.bases if isinstance(b, Native) and b.name in ("Enum", "NamedTuple")]
        if enum:
            raise Undecided(f"{enum[0].name} class")
        new = cls.find("__new__")
        if new is not None:
            raise Undecided("__new__")
        o = PyObj(cls)
        init = cls.find("__init__")
        if init is not None:
            self.call(Bound(init, o), args, kwargs)
        elif cls.dataclass is not None:
            fields = cls.dataclass
            vals = {}
            if len(args) > len(fields):
                raise self.err("TypeError", f"{cls.name}.__init__() takes {len(fields)} arguments")
            for (n, _), a in zip(fields, args):
                vals[n] = a
            names = [n for n, _ in fields]
            for k, a in kwargs.items():
                if k not in names or k in vals:
                    raise self.err("TypeError", f"{cls.name}.__init__() got an unexpected keyword argument {k!r}")
                vals[k] = a
            for n, d in fields:
                if n not in vals:
                    if d is _MISSING:
                        raise self.err("TypeError", f"{cls.name}.__init__() missing argument {n!r}")
                    vals[n] = d
            o.attrs.update(vals)
            post = cls.find("__post_init__")
            if post is not None:
                self.call(Bound(post, o), [], {})
        elif args or kwargs:
            raise self.err("TypeError", f"{cls.name}() takes no arguments")
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=_b):
        try:
            return self._getattr(o, name)
        except Raised as e:
            if default is not _b and e.kind == "AttributeError":
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, PyObj):
            c = o.cls.find(name)
            if isinstance(c, Prop) and not (isinstance(c, CachedProp) and name in o.attrs):
                v = self.call(Bound(c.fget, o), [], {})
                if isinstance(c, CachedProp):
                    o.attrs[name] = v
                return v
            if name in o.attrs:
                return o.attrs[name]
            if c is not None or o.cls.has(name):
                return self.bind_attr(c, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            g = o.cls.find("__getattr__")
            if g is not None:
                return self.call(Bound(g, o), [name], {})
            raise self.err("AttributeError", f"'{o.cls.name}' object has no attribute {name!r}")
        if isinstance(o, PyClass):
            c = o.find(name)
            if c is not None or o.has(name):
                if isinstance(c, ClassM):
                    return Bound(c.f, o)
                if isinstance(c, StaticM):
                    return c.f
                return c
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            raise self.err("AttributeError", f"type object '{o.name}' has no attribute {name!r}")
        if isinstance(o, Super):
            mro = (o.obj.cls if isinstance(o.obj, PyObj) else o.obj).mro
            i = mro.index(o.cls)
            for c in mro[i + 1 :]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Prop):
                        return self.call(Bound(v.fget, o.obj), [], {})
                    if isinstance(o.obj, PyClass):
                        return Bound(v.f, o.obj) if isinstance(v, ClassM) else v
                    return self.bind_attr(v, o.obj, o.obj.cls)
            if name == "__init__":
                return lambda *a, **k: None
            raise self.err("AttributeError", f"'super' object has no attribute {name!r}")
        if isinstance(o, Module):
            if name in o.scope.vars:
                return o.scope.vars[name]
            sub = o.name + "." + name
            if o.pkg == o.name and os.path.exists(os.path.join(self.root, *sub.split("."))) or os.path.exists(os.path.join(self.root, *sub.split(".")) + ".py"):
                return self.load(sub)
            raise self.err("AttributeError", f"module '{o.name}' has no attribute {name!r}")
        if isinstance(o, Native):
            if name in o.attrs:
                return o.attrs[name]
            g = o.attrs.get("__getattr__")
            if g is not None:
                return g(name)
            raise Undecided(f"attribute {name} of {o!r}")
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, Bound) and name in ("__func__", "__self__", "__name__"):
            return {"__func__": o.func, "__self__": o.self_, "__name__": getattr(o.func, "name", "")}[name]
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            raise self.err("AttributeError", f"function has no attribute {name!r}")
        if isinstance(o, Opaque):
            return Opaque(o.name + "." + name)
        if isinstance(o, self.Con):
            return self.cp_con_attr(o, name)
        r = self.native_attr(o, name)
        if r is not NotImplemented:
            return r
        raise self.err("AttributeError", f"'{self.tname(o)}' object has no attribute {name!r}")

    def bind_attr(self, c, o, cls):
        if isinstance(c, Func):
            return Bound(c, o)
        if isinstance(c, StaticM):
            return c.f
        if isinstance(c, ClassM):
            return Bound(c.f, cls)
        if getattr(c, "_func", None) is not None:
            return lambda *a, **k: c(o, *a, **k)
        return c

    def setattr(self, o, name, v):
        if isinstance(o, PyObj):
            c = o.cls.find(name)
            if isinstance(c, Prop) and not isinstance(c, CachedProp):
                if c.fset is None:
                    raise self.err("AttributeError", f"can't set attribute {name!r}")
                return self.call(Bound(c.fset, o), [v], {})
            self.note_write(o, f"attribute {name} set")
            o.attrs[name] = v
            return
        if isinstance(o, PyClass):
            self.globals_written.append((f"{o.name}.{name}", self.where()))
            o.ns[name] = v
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, Module):
            self.globals_written.append((f"{o.name}.{name}", self.where()))
            o.scope.vars[name] = v
            return
        if isinstance(o, Arr):
            if name == "shape":
                self.note_write(o, "shape changed in place")
                o.a = o.a.reshape(v)
                return
            if name == "value" and o.k == "cp":
                self.note_write(o, "variable value set")
                return
        if isinstance(o, Native):
            hook = o.attrs.get("__setattr__")
            if hook is not None:
                return hook(name, v)
            o.attrs[name] = v
            return
        raise Undecided(f"attribute assignment on {self.tname(o)}")

    # ------------------------------------------------------------ misc
    def tname(self, v):
        if isinstance(v, PyObj):
            return v.cls.name
        if isinstance(v, Arr):
            return "numpy.ndarray" if v.k == "np" else "cvxpy.Expression"
        if isinstance(v, Rat):
            return "float"
        if isinstance(v, B):
            return "bool"
        if v is None:
            return "NoneType"
        return type(v).__name__

    def iterate(self, v):
        if isinstance(v, (list, tuple, set, frozenset, range, str, GenList)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Arr):
            if v.a.ndim == 0:
                raise self.err("TypeError", "iteration over a 0-d array")
            return [self.arr_item(v, i) for i in range(v.a.shape[0])]
        if isinstance(v, PyObj):
            f = v.cls.find("__iter__")
            if f is not None:
                return self.iterate(self.call(Bound(f, v), [], {}))
            f = v.cls.find("__getitem__")
            if f is not None:
                out = []
                for i in range(1000):
                    try:
                        out.append(self.call(Bound(f, v), [i], {}))
                    except Raised as e:
                        if e.kind == "IndexError":
                            return out
                        raise
            raise self.err("TypeError", f"'{v.cls.name}' object is not iterable")
        if isinstance(v, Opaque):
            raise Undecided(f"iteration over {v!r}")
        if isinstance(v, Native):
            it = v.attrs.get("__iter__")
            if it is not None:
                return list(it())
        if hasattr(v, "__next__") or type(v).__name__ in ("dict_keys", "dict_values", "dict_items", "zip", "map"):
            return list(v)
        raise self.err("TypeError", f"'{self.tname(v)}' object is not iterable")

    def compare(self, op, l, r):
        if op in ("is", "is not"):
            same = l is r or (isinstance(l, (bool, int, str)) and isinstance(r, (bool, int, str)) and type(l) is type(r) and l == r and not isinstance(l, str))
            return same if op == "is" else not same
        if op in ("in", "not in"):
            v = self.contains(r, l)
            return v if op == "in" else bnot(self.truthy(v))
        if isinstance(l, Arr) or isinstance(r, Arr):
            v = self.np_compare(op, l, r)
            if v is not NotImplemented:
                return v
        if isinstance(l, PyObj) or isinstance(r, PyObj):
            for a, b, o in ((l, r, op), (r, l, SWAP[op])):
                if isinstance(a, PyObj):
                    f = a.cls.find(f"__{CMPD[o]}__")
                    if f is None and o == "!=":
                        f2 = a.cls.find("__eq__")
                        if f2 is not None:
                            v = self.call(Bound(f2, a), [b], {})
                            if v is not NIMPL:
                                return bnot(self.truthy(v))
                    if f is not None:
                        v = self.call(Bound(f, a), [b], {})
                        if v is not NIMPL:
                            return v
            if op == "==":
                return l is r
            if op == "!=":
                return l is not r
            raise self.err("TypeError", f"'{op}' not supported between {self.tname(l)} and {self.tname(r)}")
        num = (int, float, Rat, Fraction)
        if isinstance(l, B) or isinstance(r, B):
            if op in ("==", "!="):
                lt, rt = self.truthy(l), self.truthy(r)
                v = bor(band(lt, rt), band(bnot(lt), bnot(rt)))
                return v if op == "==" else bnot(v)
            raise Undecided("ordering of truth values")
        if isinstance(l, num) and isinstance(r, num):
            return bcmp(op, l, r)
        if isinstance(l, (tuple, list)) and isinstance(r, (tuple, list)) and type(l) is type(r):
            if op in ("==", "!="):
                if len(l) != len(r):
                    return op == "!="
                v = band(*[self.truthy(self.compare("==", a, b)) for a, b in zip(l, r)])
                return v if op == "==" else bnot(v)
            if all(isinstance(x, int) for x in list(l) + list(r)):
                return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}[op]
            raise Undecided("ordering of sequences")
        if isinstance(l, Opaque) or isinstance(r, Opaque):
            return B("opq", f"{l!r}{op}{r!r}")
        if op == "==":
            try:
                return bool(l == r)
            except TypeError:
                return False
        if op == "!=":
            try:
                return bool(l != r)
            except TypeError:
                return True
        try:
            return {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op](l, r)
        except TypeError:
            raise self.err("TypeError", f"'{op}' not supported between instances of '{self.tname(l)}' and '{self.tname(r)}'")

    def contains(self, c, x):
        if isinstance(c, dict):
            return self.key(x) in c
        if isinstance(c, (list, tuple, set, frozenset, GenList)):
            if isinstance(c, (set, frozenset)):
                return x in c
            vs = [self.truthy(self.compare("==", y, x)) if y is not x else True for y in c]
            return bor(*vs) if vs else False
        if isinstance(c, range):
            return self.as_int(x) in c
        if isinstance(c, str):
            return x in c
        if isinstance(c, Arr):
            return bor(*[self.truthy(self.compare("==", y, x)) for y in c.a.reshape(-1)])
        if isinstance(c, PyObj):
            f = c.cls.find("__contains__")
            if f is not None:
                return self.call(Bound(f, c), [x], {})
            return self.contains(self.iterate(c), x)
        if isinstance(c, Native) and "__contains__" in c.attrs:
            return c.attrs["__contains__"](x)
        raise Undecided(f"membership in {self.tname(c)}")

    def binop(self, op, l, r):
        if isinstance(l, Arr) or isinstance(r, Arr):
            if isinstance(r, PyObj) or isinstance(l, PyObj):
                o = r if isinstance(r, PyObj) else l
                f = o.cls.find(("__r" if o is r else "__") + DUNDER[op] + "__")
                if f is not None and not (isinstance(l, Arr) and l.dt == "o"):
                    return self.call(Bound(f, o), [l if o is r else r], {})
            return self.np_binop(op, l, r)
        if isinstance(l, PyObj) or isinstance(r, PyObj):
            if isinstance(l, PyObj):
                f = l.cls.find(f"__{DUNDER[op]}__")
                if f is not None:
                    v = self.call(Bound(f, l), [r], {})
                    if v is not NIMPL:
                        return v
            if isinstance(r, PyObj):
                f = r.cls.find(f"__r{DUNDER[op]}__")
                if f is not None:
                    v = self.call(Bound(f, r), [l], {})
                    if v is not NIMPL:
                        return v
            raise self.err("TypeError", f"unsupported operand type(s) for {op}: '{self.tname(l)}' and '{self.tname(r)}'")
        num = (int, float, Rat, Fraction)
        if isinstance(l, num) and isinstance(r, num):
            return self.scalar(op, l, r)
        if isinstance(l, (B, bool)) and isinstance(r, (B, bool)):
            if op == "&":
                return band(l, r)
            if op == "|":
                return bor(l, r)
            if op == "^":
                return bor(band(l, bnot(r)), band(bnot(l), r))
            if op in ("+", "*"):
                return self.scalar(op, self.indicator(l), self.indicator(r))
        if isinstance(l, B):
            return self.binop(op, self.indicator(l), r)
        if isinstance(r, B):
            return self.binop(op, l, self.indicator(r))
        if isinstance(l, Opaque) or isinstance(r, Opaque):
            raise Undecided(f"operation on {l!r}, {r!r}")
        if op == "%" and isinstance(l, str):
            return l
        seq = (list, tuple, str)
        if op == "+" and isinstance(l, seq) and type(l) is type(r):
            return l + r
        if op == "*" and isinstance(l, seq) and isinstance(r, (int, Rat)):
            return l * self.as_int(r)
        if op == "*" and isinstance(r, seq) and isinstance(l, (int, Rat)):
            return r * self.as_int(l)
        if isinstance(l, (set, frozenset)) and isinstance(r, (set, frozenset)):
            return {"|": operator.or_, "&": operator.and_, "-": operator.sub, "^": operator.xor}[op](l, r)
        if isinstance(l, dict) and isinstance(r, dict) and op == "|":
            return {**l, **r}
        if isinstance(l, Native) or isinstance(r, Native):
            for o, nm, x in ((l, "__" + DUNDER[op] + "__", r), (r, "__r" + DUNDER[op] + "__", l)):
                if isinstance(o, Native) and nm in o.attrs:
                    return o.attrs[nm](x)
            if isinstance(l, Native) and l.attrs.get("__pathlike__"):
                return l
            raise Undecided(f"{op} on {l!r}, {r!r}")
        raise self.err("TypeError", f"unsupported operand type(s) for {op}: '{self.tname(l)}' and '{self.tname(r)}'")

    def indicator(self, b):
        if isinstance(b, bool):
            return int(b)
        hook = self.scenario.get("indicator")
        if hook is not None:
            v = hook(b)
            if v is not None:
                return v
        return int(self.decide(b))

    def scalar(self, op, l, r):
        """Python-level scalar arithmetic."""
        if isinstance(l, bool):
            l = int(l)
        if isinstance(r, bool):
            r = int(r)
        if isinstance(l, int) and isinstance(r, int):
            try:
                if op == "+":
                    return l + r
                if op == "-":
                    return l - r
                if op == "*":
                    return l * r
                if op == "//":
                    return l // r
                if op == "%":
                    return l % r
                if op == "**" and r >= 0:
                    return l**r
                if op == "/":
                    if r == 0:
                        raise ZeroDivisionError("division by zero")
                    return Rat.const(Fraction(l, r))
                if op == "&":
                    return l & r
                if op == "|":
                    return l | r
                if op == "^":
                    return l ^ r
                if op == "<<":
                    return l << r
                if op == ">>":
                    return l >> r
            except ZeroDivisionError as ex:
                raise self.err("ZeroDivisionError", str(ex))
        return sc_arith(op, l, r, self)

    def getitem(self, o, i):
        if isinstance(o, Arr):
            return self.np_getitem(o, i)
        if isinstance(o, dict):
            k = self.key(i)
            if k in o:
                return o[k]
            m = getattr(o, "default_factory", None)
            if m is not None:
                v = self.call(m, [], {})
                o[k] = v
                return v
            raise self.err("KeyError", repr(i)[:60])
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, slice):
                f = lambda x: None if x is None else self.as_int(x)
                return o[slice(f(i.start), f(i.stop), f(i.step))]
            if isinstance(i, (tuple, list)):
                raise self.err("TypeError", "list indices must be integers or slices")
            if isinstance(i, Rat) and not isinstance(i, bool):
                if not (i.is_const()):
                    raise Undecided("symbolic index")
            k = self.as_int(i)
            try:
                return o[k]
            except IndexError:
                raise self.err("IndexError", "index out of range")
        if isinstance(o, PyObj):
            f = o.cls.find("__getitem__")
            if f is None:
                raise self.err("TypeError", f"'{o.cls.name}' object is not subscriptable")
            return self.call(Bound(f, o), [i], {})
        if isinstance(o, Native):
            g = o.attrs.get("__getitem__")
            if g is not None:
                return g(i)
        if isinstance(o, Opaque):
            return Opaque(o.name + "[]")
        if isinstance(o, (int, Rat, float, B)) or o is None:
            raise self.err("TypeError", f"'{self.tname(o)}' object is not subscriptable")
        raise Undecided(f"subscript of {o!r}")

    def setitem(self, o, i, v):
        if isinstance(o, Arr):
            return self.np_setitem(o, i, v)
        if isinstance(o, dict):
            self.note_write(o, "dict item set")
            o[self.key(i)] = v
            return
        if isinstance(o, list):
            self.note_write(o, "list item set")
            if isinstance(i, slice):
                f = lambda x: None if x is None else self.as_int(x)
                o[slice(f(i.start), f(i.stop), f(i.step))] = list(self.iterate(v))
                return
            try:
                o[self.as_int(i)] = v
            except IndexError:
                raise self.err("IndexError", "list assignment index out of range")
            return
        if isinstance(o, PyObj):
            f = o.cls.find("__setitem__")
            if f is not None:
                return self.call(Bound(f, o), [i, v], {})
        if isinstance(o, tuple):
            raise self.err("TypeError", "'tuple' object does not support item assignment")
        raise Undecided(f"item assignment on {self.tname(o)}")


class GenList(list):
    """An exhausted-on-use generator, approximated by its list of values."""

    __hash__ = object.__hash__


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class _ModFrame:
    def __init__(self, mod):
        self.mod = mod
        self.qual = mod.name


_MISSING = object()


def bkey(t):
    """Structural key of a condition, None if it has an opaque part."""
    if t.op == "opq":
        return None
    out = [t.op]
    for a in t.args:
        if isinstance(a, B):
            k = bkey(a)
            if k is None:
                return None
            out.append(k)
        elif isinstance(a, Rat):
            out.append(a.fp())
        else:
            out.append(repr(a))
    return tuple(out)


def default_choice(t):
    """Generic outcome of an undetermined condition: equalities between distinct
    abstract values fail, their negations hold."""
    if isinstance(t, bool):
        return t
    if t.op == "close" or (t.op == "cmp" and t.args[0] == "=="):
        return False
    if t.op == "not":
        return not default_choice(t.args[0])
    if t.op == "and":
        return all(default_choice(x) for x in t.args)
    if t.op == "or":
        return any(default_choice(x) for x in t.args)
    if t.op == "cmp" and t.args[0] == "<=":
        return True
    if t.op == "cmp":
        return True
    return True


def is_equalityish(t):
    return all(l.op == "close" or (l.op == "cmp" and l.args[0] == "==") for l in _leaves(t))


def _leaves(t):
    if isinstance(t, B) and t.op in ("and", "or", "not"):
        for x in t.args:
            yield from _leaves(x)
    elif isinstance(t, B):
        yield t


def sc_arith(op, l, r, interp=None):
    """Arithmetic on numbers (numpy semantics: division by zero gives inf/nan)."""
    if isinstance(l, B):
        l = interp.indicator(l)
    if isinstance(r, B):
        r = interp.indicator(r)
    fl, fr = isinstance(l, float), isinstance(r, float)
    if fl and fr:
        try:
            return {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "**": operator.pow}[op](l, r)
        except (KeyError, ZeroDivisionError):
            return alg.NAN
    if op == "+":
        if fl or fr:
            return l if fl else r
        return alg.R(l) + alg.R(r)
    if op == "-":
        if fl or fr:
            return l if fl else -r
        return alg.R(l) - alg.R(r)
    if op == "*":
        if fl or fr:
            return alg.inf_mul(alg.R(r if fl else l), l if fl else r)
        return alg.R(l) * alg.R(r)
    if op == "/":
        if fr:
            return Rat.const(0) if math.isinf(r) else r
        if fl:
            if alg.R(r).is_zero():
                return l
            return alg.inf_mul(alg.R(r), l)
        rr = alg.R(r)
        if rr.is_zero():
            return alg.div0(alg.R(l))
        return alg.R(l) / rr
    if op == "**":
        if fl:
            return l ** float(alg.R(r).value()) if not fr and alg.R(r).is_const() else alg.NAN
        if fr:
            raise Undecided("infinite exponent")
        return alg.power(alg.R(l), alg.R(r) if not isinstance(r, int) else r)
    if op in ("//", "%"):
        if fl or fr:
            raise Undecided("floor division of non-finite")
        a, b = alg.R(l), alg.R(r)
        if a.is_const() and b.is_const() and not b.is_zero():
            x, y = Fraction(a.value()), Fraction(b.value())
            return Rat.const(x // y) if op == "//" else Rat.const(x % y)
        q = alg.fn("floor", [a / b], integer=True)
        return q if op == "//" else a - b * q
    raise Undecided(f"scalar operator {op}")
