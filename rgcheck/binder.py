"""Name resolution and call binding over the syntax tree: a flow-sensitive inference of
which class or function a name denotes, with calls followed into their bodies, that
checks every name, attribute and call whose meaning it can resolve."""
import ast
import builtins
import os

from .interp import ClassM, Func, PyClass, Prop, StaticM

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__builtins__", "__spec__", "__package__", "__loader__", "__path__", "__class__"}


class Unknown(frozenset):
    pass


TOP = frozenset([("top",)])


def join(*vs):
    out = set()
    for v in vs:
        out |= v
    return frozenset(out)


class UserMod:
    """A script: its functions and classes are followed like the library's."""

    def __init__(self, path, rel):
        self.path, self.rel = path, rel
        self.tree = ast.parse(open(path, encoding="utf8").read())
        self.env = {}


class Binder:
    def __init__(self, C):
        self.C, self.I = C, C.I
        self.problems = {}
        self.checked = {"calls": 0, "attributes": 0, "names": 0}
        self.unresolved = 0
        self.sites = set()
        self.concrete = {}
        for k in self.all_classes():
            for b in k.mro:
                self.concrete.setdefault(b, []).append(k)
        self.stack = []

    # ------------------------------------------------------------ the package
    def modules(self):
        return self.I.modules

    def all_classes(self):
        out = []
        for m in self.modules().values():
            for v in m.scope.vars.values():
                if isinstance(v, PyClass) and v.mod is m and v not in out:
                    out.append(v)
        return out

    def inst_attrs(self, k):
        """Attributes instances of a class may carry."""
        out = set()
        for b in k.mro:
            for m in b.ns.values():
                f = m
                for at in ("fget", "f", "func"):
                    while hasattr(f, at) and not isinstance(f, Func):
                        f = getattr(f, at)
                if not isinstance(f, Func) or not f.params:
                    continue
                s = f.params[0]
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        out.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                        out.add("*")
                    if isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__setattr__"):
                        out.add("*")
            out |= set(getattr(b, "fields", ()) or ())
            if b.dataclass is not None:
                out.add("*")
            if any(not isinstance(x, PyClass) and getattr(x, "name", "") not in ("object", "ABC", "abc.ABC") for x in b.bases):
                out.add("*")
            if "__getattr__" in b.ns or "__getattribute__" in b.ns or "__slots__" in b.ns:
                out.add("*")
        return out

    # ------------------------------------------------------------ values
    def of(self, v):
        """Type set of an object of the package's own module variables."""
        if isinstance(v, PyClass):
            return frozenset([("cls", v)])
        if isinstance(v, Func):
            return frozenset([("func", v)])
        if type(v).__name__ == "Module":
            return frozenset([("mod", v)])
        return TOP

    def problem(self, node, what):
        self.problems.setdefault((self.rel, node.lineno, what), self.where())

    def where(self):
        return self.stack[-1] if self.stack else "<module>"

    # ------------------------------------------------------------ attribute
    def attr(self, v, name, node):
        out = set()
        for t in v:
            if t[0] == "top":
                out.add(("top",))
            elif t[0] == "mod":
                m = t[1]
                self.checked["attributes"] += 1
                if name in m.scope.vars:
                    out |= self.of(m.scope.vars[name])
                elif f"{m.name}.{name}" in self.modules():
                    out.add(("mod", self.modules()[f"{m.name}.{name}"]))
                else:
                    self.problem(node, f"module {m.name} has no attribute {name}")
                    out.add(("top",))
            elif t[0] in ("inst", "cls"):
                k = t[1]
                self.checked["attributes"] += 1
                c = k.find(name)
                if c is None:
                    at = self.inst_attrs(k) if t[0] == "inst" else {"*"} if name.startswith("__") else set()
                    if name in at or "*" in at or name.startswith("__"):
                        out.add(("top",))
                    else:
                        self.problem(node, f"{'instances of ' if t[0] == 'inst' else ''}{k.name} ha{'ve' if t[0] == 'inst' else 's'} no attribute {name}")
                        out.add(("top",))
                elif isinstance(c, Func):
                    out.add(("bound", c, t) if t[0] == "inst" else ("func", c))
                elif isinstance(c, StaticM):
                    out |= self.of(c.f)
                elif isinstance(c, ClassM):
                    out.add(("bound", c.f, ("cls", k)))
                elif isinstance(c, Prop) and t[0] == "inst" and isinstance(c.fget, Func):
                    out |= self.enter(c.fget, [frozenset([t])], {}, node)
                else:
                    out.add(("top",))
            else:
                out.add(("top",))
        return frozenset(out)

    # ------------------------------------------------------------ calls
    def bind(self, f, args, kw, star, skip, node, label):
        """Parameters of a call or None after reporting why it cannot bind."""
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        nd = len(a.defaults)
        dflt = set(pos[len(pos) - nd :] if nd else []) | {k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        v = {}
        self.checked["calls"] += 1
        args = skip + args
        if len(args) > len(pos) and not a.vararg:
            self.problem(node, f"{label}() takes {len(pos)} positional arguments, {len(args)} given")
            return None
        for p, x in zip(pos, args):
            v[p] = x
        for k, x in kw.items():
            if k in v:
                self.problem(node, f"{label}() is given {k} twice")
                return None
            if k in pos[len(a.posonlyargs) :] or k in kwo:
                v[k] = x
            elif not a.kwarg:
                self.problem(node, f"{label}() has no parameter {k}")
                return None
        if not star:
            miss = [p for p in pos + kwo if p not in v and p not in dflt]
            if miss:
                self.problem(node, f"{label}() misses the argument{'s' if len(miss) > 1 else ''} {', '.join(miss)}")
                return None
        for p in pos + kwo:
            v.setdefault(p, TOP)
        if a.vararg:
            v[a.vararg.arg] = TOP
        if a.kwarg:
            rest = {k: x for k, x in kw.items() if k not in pos + kwo}
            v[a.kwarg.arg] = TOP if star == "kw" else frozenset([("kwdict", tuple(sorted(rest)))])
        return v

    def enter(self, f, args, kw, node, star=None, skip=()):
        """Result of calling a package function whose arguments bind."""
        v = self.bind(f.node, list(args), kw, star, list(skip), node, f.qual.split(".", 1)[-1] if "." in f.qual else f.qual)
        if v is None or isinstance(f.node, ast.Lambda):
            return TOP
        key = ("f", f.qual)
        if key in self.active or len(self.active) > 6:
            return TOP
        rel, cur = self.rel, self.mod
        self.active.append(key)
        self.rel, self.mod = os.path.relpath(f.mod.path, self.C.repo), ("lib", f.mod)
        self.stack.append(f.qual)
        try:
            return self.body(f.node, v)
        finally:
            self.rel, self.mod = rel, cur
            self.active.pop()
            self.stack.pop()

    def enter_user(self, node, mod, args, kw, call, star):
        v = self.bind(node, list(args), kw, star, [], call, node.name)
        if v is None:
            return TOP
        key = ("u", id(node))
        if key in self.active or len(self.active) > 6:
            return TOP
        self.active.append(key)
        self.stack.append(node.name)
        try:
            return self.body(node, v)
        finally:
            self.active.pop()
            self.stack.pop()

    def call(self, v, args, kw, node, star):
        out = set()
        for t in v:
            if t[0] == "cls":
                k = t[1]
                init = k.find("__init__")
                if k.find("__new__") is None:
                    ab = self.abstract_of(k)
                    if ab:
                        self.problem(node, f"{k.name} cannot be created: abstract {', '.join(sorted(ab))}")
                if isinstance(init, Func) and k.dataclass is None:
                    self.enter(init, args, kw, node, star, skip=[frozenset([("inst", k)])])
                elif init is None and k.dataclass is None and (args or kw) and not any(not isinstance(b, PyClass) and getattr(b, "name", "") not in ("object", "ABC", "abc.ABC") for c in k.mro for b in c.bases):
                    self.problem(node, f"{k.name}() takes no arguments")
                out.add(("inst", k))
            elif t[0] == "func":
                out |= self.enter(t[1], args, kw, node, star)
            elif t[0] == "bound":
                out |= self.enter(t[1], args, kw, node, star, skip=[frozenset([t[2]])])
            elif t[0] == "user":
                out |= self.enter_user(t[1], t[2], args, kw, node, star)
            else:
                self.unresolved += 1
                out.add(("top",))
        return frozenset(out)

    def abstract_of(self, k):
        names = set()
        for b in k.mro:
            for n, x in b.ns.items():
                f = x
                for at in ("fget", "f", "func"):
                    while hasattr(f, at) and not isinstance(f, Func):
                        f = getattr(f, at)
                if isinstance(f, Func) and f.abstract:
                    names.add(n)
        out = set()
        for n in names:
            f = k.find(n)
            for at in ("fget", "f", "func"):
                while hasattr(f, at) and not isinstance(f, Func):
                    f = getattr(f, at)
            if isinstance(f, Func) and f.abstract:
                out.add(n)
        return out

    # ------------------------------------------------------------ expressions
    def name(self, n, env, node):
        for e in reversed(env):
            if n in e:
                return e[n]
        kind, m = self.mod
        if kind == "lib":
            if n in m.scope.vars:
                return self.of(m.scope.vars[n])
        elif n in m.env:
            return m.env[n]
        if n in BUILTINS:
            return TOP
        self.checked["names"] += 1
        if not self.maybe(n, env):
            self.problem(node, f"name {n} is not defined")
        return TOP

    def maybe(self, n, env):
        """Bound somewhere the inference does not follow."""
        kind, m = self.mod
        t = m.tree if kind == "user" else getattr(m, "tree", None)
        if t is None:
            return True
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id == n or isinstance(x, ast.arg) and x.arg == n or isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == n or isinstance(x, ast.alias) and (x.asname or x.name.split(".")[0]) == n or isinstance(x, ast.alias) and x.name == "*" or isinstance(x, ast.ExceptHandler) and x.name == n or isinstance(x, (ast.Global, ast.Nonlocal)) and n in x.names:
                return True
        return False

    def ev(self, e, env):
        if e is None:
            return TOP
        if isinstance(e, ast.Name):
            return self.name(e.id, env, e)
        if isinstance(e, ast.Attribute):
            return self.attr(self.ev(e.value, env), e.attr, e)
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env)
            args, star = [], None
            for a in e.args:
                if isinstance(a, ast.Starred):
                    self.ev(a.value, env)
                    star = "pos"
                else:
                    args.append(self.ev(a, env))
            if star == "pos":
                args = []
            kws = [{}]
            for k in e.keywords:
                x = self.ev(k.value, env)
                if k.arg is not None:
                    for d in kws:
                        d[k.arg] = x
                    continue
                known = [t[1] for t in x if t[0] == "kwdict"]
                if len(known) != len(x):
                    star = star or "kw"
                    continue
                kws = [{**d, **{q: TOP for q in ks}} for d in kws for ks in known]
            self.sites.add((self.rel, e.lineno, e.col_offset))
            if isinstance(e.func, ast.Name) and e.func.id == "dict" and f == TOP and not e.args and star is None:
                return frozenset([("kwdict", tuple(sorted(kws[0])))])
            if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
                return TOP
            return join(*[self.call(f, args, d, e, star) for d in kws])
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return join(self.ev(e.body, env), self.ev(e.orelse, env))
        if isinstance(e, ast.BoolOp):
            return join(*[self.ev(x, env) for x in e.values])
        if isinstance(e, ast.Lambda):
            sub_ = {x.arg: TOP for x in e.args.posonlyargs + e.args.args + e.args.kwonlyargs}
            self.ev(e.body, env + [sub_])
            return TOP
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env = env + [{}]
            for g in e.generators:
                self.ev(g.iter, env)
                self.target(g.target, TOP, env)
                for c in g.ifs:
                    self.ev(c, env)
            for x in [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]:
                self.ev(x, env)
            return TOP
        if isinstance(e, ast.Dict):
            for x in e.keys + e.values:
                if x is not None:
                    self.ev(x, env)
            if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
                return frozenset([("kwdict", tuple(sorted(k.value for k in e.keys)))])
            return TOP
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.target(e.target, v, env)
            return v
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return TOP

    # ------------------------------------------------------------ statements
    def target(self, t, v, env):
        if isinstance(t, ast.Name):
            env[-1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, TOP, env)
        elif isinstance(t, ast.Starred):
            self.target(t.value, TOP, env)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            self.ev(t.value, env)
            if isinstance(t, ast.Subscript):
                self.ev(t.slice, env)
                # a dictionary that is written to is no longer a fixed set of keys
                if isinstance(t.value, ast.Name):
                    for sc in reversed(env):
                        if t.value.id in sc:
                            sc[t.value.id] = frozenset(x for x in sc[t.value.id] if x[0] != "kwdict") | TOP
                            break

    def body(self, node, v):
        env = [dict(v)]
        return self.block(node.body, env) or frozenset([("none",)])

    def block(self, stmts, env):
        """Union of the types returned, None if nothing is."""
        ret = None

        def add(r):
            nonlocal ret
            if r is not None:
                ret = r if ret is None else ret | r

        for s in stmts:
            if isinstance(s, ast.Return):
                add(self.ev(s.value, env) if s.value is not None else frozenset([("none",)]))
                return ret
            if isinstance(s, ast.Assign):
                v = self.ev(s.value, env)
                for t in s.targets:
                    self.target(t, v, env)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    self.target(s.target, self.ev(s.value, env), env)
            elif isinstance(s, ast.AugAssign):
                self.ev(s.value, env)
                if not isinstance(s.target, ast.Name):
                    self.target(s.target, TOP, env)
                else:
                    env[-1][s.target.id] = TOP
            elif isinstance(s, (ast.If, ast.While, ast.For, ast.AsyncFor)):
                if isinstance(s, ast.If) or isinstance(s, ast.While):
                    self.ev(s.test, env)
                    bodies = [s.body, s.orelse]
                else:
                    self.ev(s.iter, env)
                    bodies = [s.body, s.orelse]
                base = dict(env[-1])
                outs = []
                for i, b in enumerate(bodies):
                    e2 = env[:-1] + [dict(base)]
                    if isinstance(s, (ast.For, ast.AsyncFor)) and i == 0:
                        self.target(s.target, TOP, e2)
                    rounds = 1 if isinstance(s, ast.If) else 2
                    for _ in range(rounds):
                        add(self.block(b, e2))
                    if not (isinstance(s, ast.If) and b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                        outs.append(e2[-1])
                if not isinstance(s, ast.If):
                    outs.append(base)
                if outs:
                    new = {}
                    for k in set().union(*outs):
                        new[k] = join(*[o.get(k, TOP if k not in base else base[k]) for o in outs])
                    env[-1].clear()
                    env[-1].update(new)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    self.ev(i.context_expr, env)
                    if i.optional_vars is not None:
                        self.target(i.optional_vars, TOP, env)
                add(self.block(s.body, env))
            elif isinstance(s, ast.Try):
                guarded = any(h.type is None or any(isinstance(n, ast.Name) and n.id in ("AttributeError", "TypeError", "NameError", "Exception", "ImportError", "BaseException") for n in ast.walk(h.type)) for h in s.handlers)
                keep = dict(self.problems)
                add(self.block(s.body, env))
                if guarded:
                    self.problems = keep
                for h in s.handlers:
                    if h.name:
                        env[-1][h.name] = TOP
                    add(self.block(h.body, env))
                add(self.block(s.orelse, env))
                add(self.block(s.finalbody, env))
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                env[-1][s.name] = TOP
                sub_ = {x.arg: TOP for x in s.args.posonlyargs + s.args.args + s.args.kwonlyargs}
                for x in (s.args.vararg, s.args.kwarg):
                    if x:
                        sub_[x.arg] = TOP
                self.block(s.body, env + [sub_])
            elif isinstance(s, ast.ClassDef):
                env[-1][s.name] = TOP
            elif isinstance(s, ast.Import):
                for a in s.names:
                    env[-1][a.asname or a.name.split(".")[0]] = self.imported(a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                self.import_from(s, env[-1])
            elif isinstance(s, (ast.Expr, ast.Assert, ast.Raise, ast.Delete)):
                for x in ast.iter_child_nodes(s):
                    if isinstance(x, ast.expr):
                        self.ev(x, env)
                if isinstance(s, ast.Raise):
                    return ret if ret is not None else frozenset()
            # a bare pass, global, continue or break changes no type
        return ret

    def imported(self, name):
        m = self.modules().get(name)
        if m is not None:
            return frozenset([("mod", m)])
        if name.split(".")[0] == "rigeo":
            try:
                return frozenset([("mod", self.I.load(name))])
            except Exception:
                return TOP
        return TOP

    def import_from(self, s, env):
        kind, m = self.mod
        base = s.module or ""
        if s.level:
            if kind != "lib":
                for a in s.names:
                    env[a.asname or a.name] = TOP
                return
            pk = m.name.split(".")
            if not m.path.endswith("__init__.py"):
                pk = pk[:-1]
            pk = pk[: len(pk) - s.level + 1]
            base = ".".join(pk + ([s.module] if s.module else []))
        if base.split(".")[0] != "rigeo":
            for a in s.names:
                env[a.asname or a.name] = TOP
            return
        try:
            mod = self.modules().get(base) or self.I.load(base)
        except Exception:
            self.problem(s, f"there is no module {base}")
            for a in s.names:
                env[a.asname or a.name] = TOP
            return
        for a in s.names:
            if a.name == "*":
                for n, v in mod.scope.vars.items():
                    if not n.startswith("_"):
                        env[n] = self.of(v)
                continue
            if a.name in mod.scope.vars:
                env[a.asname or a.name] = self.of(mod.scope.vars[a.name])
            else:
                env[a.asname or a.name] = self.attr(frozenset([("mod", mod)]), a.name, s)

    # ------------------------------------------------------------ entry points
    def script(self, path):
        """Problems of a script, from its module body inwards."""
        rel = os.path.relpath(path, self.C.repo)
        m = UserMod(path, rel)
        self.rel, self.mod, self.active = rel, ("user", m), []
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef):
                m.env[n.name] = frozenset([("user", n, rel)])
            elif isinstance(n, ast.ClassDef):
                m.env[n.name] = TOP
        for n in m.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                continue
            env = [m.env]
            self.block([n], env)
        # functions nobody calls from the module body are still read
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                a = n.args
                v = {x.arg: TOP for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                self.stack.append(n.name)
                self.body(n, v)
                self.stack.pop()
        return m

    def library(self):
        """Every function and method, self being each class it can run on."""
        for m in self.modules().values():
            if not m.path or os.sep + "unused" + os.sep in m.path:
                continue
            self.rel, self.mod, self.active = os.path.relpath(m.path, self.C.repo), ("lib", m), []
            for v in list(m.scope.vars.values()):
                if isinstance(v, Func) and v.mod is m:
                    self.read(v, None, None)
                elif isinstance(v, PyClass) and v.mod is m:
                    for x in v.ns.values():
                        f = x
                        for at in ("fget", "f", "func"):
                            while hasattr(f, at) and not isinstance(f, Func):
                                f = getattr(f, at)
                        if isinstance(f, Func) and f.mod is m:
                            self.read(f, v, x)

    def read(self, f, k, x):
        if isinstance(f.node, ast.Lambda):
            return
        ps = f.params + f.kwonly + [y for y in (f.vararg, f.kwarg) if y]
        selves = [TOP]
        if k is not None and f.params and not isinstance(x, StaticM):
            tag = "cls" if isinstance(x, ClassM) else "inst"
            ks = [c for c in self.concrete.get(k, [k]) if not self.abstract_of(c)] or [k]
            if tag == "cls":
                ks = [k]
            # a method overridden in a subclass does not run on it
            ks = [c for c in ks if c is k or c.find(f.name) is x]
            selves = [frozenset([(tag, c)]) for c in ks]
        for s in selves:
            v = {p: TOP for p in ps}
            if s is not TOP:
                v[f.params[0]] = s
            self.stack.append(f.qual)
            self.active = [("f", f.qual)]
            self.body(f.node, v)
            self.active = []
            self.stack.pop()
