"""Compatibility lint over the syntax tree of every module the installed package loads
or documents: it parses with the grammar of the oldest supported Python, uses no newer
standard-library feature, imports only the standard library, declared dependencies and
its own existing modules and names, and uses no feature of numpy, scipy, cvxpy or
pycddlib that is missing from a version the declared ranges allow.  Every target of the
module reference exists."""
import ast
import io
import os
import re
import sys
import tokenize
import tomllib

from ..core import *

LOAD = False
LEVEL = "other"
RULE = "grammar of the oldest supported Python; imports resolve to the standard library, declared dependencies or own definitions; no attribute, argument or method from the tables of features newer than the lower bound or removed below the upper bound of its package; module reference targets exist"
ASSUMPTIONS = [
    "the tables of features by version (rgcheck/props/c23.py) describe the standard library, numpy, scipy, cvxpy and pycddlib",
    "modules under rigeo/unused that nothing loads or documents are not part of what the package needs",
    "methods are judged by name where no other type in use has a method of that name",
]

# import name of each distribution
IMPORT = {"numpy": "numpy", "scipy": "scipy", "cvxpy": "cvxpy", "pycddlib": "cdd", "tqdm": "tqdm", "mosek": "mosek"}

# standard-library names with the version that introduced them
STD = {
    "functools": {"cache": (3, 9)},
    "math": {"lcm": (3, 9), "nextafter": (3, 9), "ulp": (3, 9), "cbrt": (3, 11), "exp2": (3, 11), "sumprod": (3, 12), "fma": (3, 13)},
    "itertools": {"pairwise": (3, 10), "batched": (3, 12)},
    "statistics": {"covariance": (3, 10), "correlation": (3, 10), "linear_regression": (3, 10), "kde": (3, 13)},
    "random": {"randbytes": (3, 9), "binomialvariate": (3, 12)},
    "typing": {k: (3, 9) for k in ("Annotated",)} | {k: (3, 10) for k in ("TypeAlias", "ParamSpec", "Concatenate", "TypeGuard", "is_typeddict")} | {k: (3, 11) for k in ("Self", "Never", "LiteralString", "Required", "NotRequired", "Unpack", "TypeVarTuple", "assert_never", "assert_type", "reveal_type", "dataclass_transform")} | {k: (3, 12) for k in ("override", "TypeAliasType")},
    "enum": {"StrEnum": (3, 11), "verify": (3, 11), "member": (3, 11), "nonmember": (3, 11)},
    "types": {k: (3, 10) for k in ("NoneType", "EllipsisType", "NotImplementedType", "UnionType")} | {"GenericAlias": (3, 9)},
    "dataclasses": {"KW_ONLY": (3, 10)},
    "contextlib": {"aclosing": (3, 10), "chdir": (3, 11)},
    "operator": {"call": (3, 11)},
    "inspect": {"get_annotations": (3, 10), "getmembers_static": (3, 11)},
    "ast": {"unparse": (3, 9)},
    "os": {"waitstatus_to_exitcode": (3, 9), "process_cpu_count": (3, 13)},
    "sys": {"stdlib_module_names": (3, 10), "orig_argv": (3, 10), "exception": (3, 11)},
    "datetime": {"UTC": (3, 11)},
    "copy": {"replace": (3, 13)},
    "warnings": {"deprecated": (3, 13)},
    "collections": {},
    "string": {},
}
STDMOD = {"graphlib": (3, 9), "zoneinfo": (3, 9), "tomllib": (3, 11), "wsgiref.types": (3, 11), "importlib.resources.abc": (3, 11)}
BUILTIN = {"aiter": (3, 10), "anext": (3, 10), "EncodingWarning": (3, 10), "ExceptionGroup": (3, 11), "BaseExceptionGroup": (3, 11), "PythonFinalizationError": (3, 13)}
METHOD = {"removeprefix": (3, 9), "removesuffix": (3, 9), "bit_count": (3, 10), "add_note": (3, 11), "is_relative_to": (3, 9), "with_stem": (3, 9), "hardlink_to": (3, 10), "is_junction": (3, 12), "full_match": (3, 13)}
# (callable, keyword) -> version
KEYWORD = {
    ("builtins", "zip", "strict"): (3, 10), ("builtins", "map", "strict"): (3, 14),
    ("dataclasses", "dataclass", "slots"): (3, 10), ("dataclasses", "dataclass", "kw_only"): (3, 10), ("dataclasses", "dataclass", "match_args"): (3, 10),
    ("dataclasses", "dataclass", "weakref_slot"): (3, 11), ("dataclasses", "field", "kw_only"): (3, 10),
    ("itertools", "batched", "strict"): (3, 13), ("bisect", "bisect", "key"): (3, 10), ("bisect", "bisect_left", "key"): (3, 10), ("bisect", "bisect_right", "key"): (3, 10), ("bisect", "insort", "key"): (3, 10),
    ("random", "sample", "counts"): (3, 9), ("statistics", "fmean", "weights"): (3, 11),
}
# names removed from the standard library while open-ended ranges allow them
STDGONE = {"imp": (3, 12), "distutils": (3, 12), "asynchat": (3, 12), "asyncore": (3, 12), "smtpd": (3, 12), "cgi": (3, 13), "cgitb": (3, 13), "crypt": (3, 13), "imghdr": (3, 13), "pipes": (3, 13), "telnetlib": (3, 13), "uu": (3, 13), "xdrlib": (3, 13), "aifc": (3, 13), "audioop": (3, 13), "chunk": (3, 13), "nntplib": (3, 13), "sndhdr": (3, 13), "sunau": (3, 13), "formatter": (3, 10), "parser": (3, 10), "symbol": (3, 10), "lib2to3": (3, 13), "binhex": (3, 11)}
ABCS = {"Iterable", "Iterator", "Mapping", "MutableMapping", "Sequence", "MutableSequence", "Set", "MutableSet", "Callable", "Hashable", "Sized", "Container", "Collection", "Generator", "Reversible", "KeysView", "ValuesView", "ItemsView", "Awaitable", "Coroutine", "ByteString"}

# third-party: dotted name -> (first version with it or None, first version without it or None)
INF = None
def _rng(names, lo, hi):
    return {n: (lo, hi) for n in names.split()}


THIRD = {
    "numpy": (
        _rng("float int bool object complex str long unicode typeDict", None, (1, 24))
        | _rng("float_ complex_ unicode_ string_ longfloat singlecomplex cfloat clongfloat longcomplex Inf Infinity NaN infty NINF PINF NZERO PZERO product cumproduct sometrue alltrue asfarray round_ mat find_common_type issubclass_ issubsctype issctype maximum_sctype obj2sctype sctype2char sctypes cast source lookfor who msort set_numeric_ops fastCopyAndTranspose byte_bounds compare_chararrays DataSource deprecate disp nbytes safe_eval seterrobj geterrobj tracemalloc_domain recfromtxt recfromcsv add_newdoc add_docstring compat math", None, (2, 0))
        | _rng("trapz in1d row_stack", None, (2, 4))
        | _rng("acos acosh asin asinh atan atanh atan2 bitwise_left_shift bitwise_right_shift bitwise_invert bitwise_count concat permute_dims pow isdtype astype matrix_transpose trapezoid unique_all unique_counts unique_inverse unique_values vecdot linalg.cross linalg.diagonal linalg.matmul linalg.matrix_norm linalg.matrix_transpose linalg.outer linalg.svdvals linalg.tensordot linalg.trace linalg.vecdot linalg.vector_norm strings exceptions.VisibleDeprecationWarning long ulong", (2, 0), None)
        | _rng("cumulative_sum cumulative_prod unstack", (2, 1), None) | _rng("matvec vecmat", (2, 2), None)
        | _rng("exceptions dtypes", (1, 25), None)
    ),
    "scipy": (
        _rng("misc integrate.simps integrate.trapz integrate.cumtrapz special.sph_harm", None, (1, 14))
        | _rng("linalg.pinv2 linalg.triu linalg.tril linalg.tri stats.median_absolute_deviation interpolate.interp2d signal.hann signal.gaussian linalg.kron", None, (1, 13))
        | _rng("array zeros ones eye dot sqrt linspace arange asarray concatenate vstack hstack isclose allclose sin cos pi inf nan log exp sum prod abs mean einsum cross outer trace diag rand randn", None, (2, 0))
        | _rng("spatial.transform.RigidTransform", (1, 16), None) | _rng("differentiate optimize.elementwise", (1, 15), None)
        | _rng("stats.Covariance", (1, 10), None) | _rng("stats.make_distribution stats.Normal", (1, 15), None) | _rng("integrate.cubature", (1, 15), None)
        | _rng("stats.ecdf", (1, 11), None) | _rng("special.betaincc", (1, 11), None) | _rng("special.log_wright_bessel special.xlog1p", (1, 14), None)
    ),
    "cvxpy": (
        _rng("broadcast_to permute_dims swapaxes moveaxis einsum", (1, 7), None) | _rng("concatenate stack", (1, 6), None) | _rng("vec_to_upper_tri", (1, 3), None)
    ),
    "cdd": (
        _rng("matrix_from_array polyhedron_from_matrix copy_generators copy_inequalities copy_input copy_output copy_incidence copy_adjacency copy_input_incidence copy_input_adjacency linprog_from_array linprog_from_matrix linprog_solve matrix_canonicalize matrix_append_to matrix_copy matrix_rank matrix_redundancy_remove matrix_weak_redundancies redundant redundant_rows fourier_elimination block_elimination gmp LPSolverType DictColIndex", (3, 0), None)
    ),
}
# methods of third-party objects: name -> (package, since, until)
TMETHOD = {
    "newbyteorder": ("numpy", None, (2, 0)), "itemset": ("numpy", None, (2, 0)), "ptp": ("numpy", None, (2, 0)),
    "mT": ("numpy", (2, 0), None), "to_device": ("numpy", (2, 0), None), "bitwise_count": ("numpy", (2, 0), None), "spawn": ("numpy", (1, 25), None),
    "as_dcm": ("scipy", None, (1, 6)), "from_dcm": ("scipy", None, (1, 6)),
}
TKEY = {
    ("numpy", "array", "copy", False): ("since 2.0 copy=False raises if a copy is needed", (2, 0)),
    ("numpy", "reshape", "newshape", None): ("removed", (2, 4)), ("numpy", "percentile", "interpolation", None): ("removed", (2, 4)), ("numpy", "quantile", "interpolation", None): ("removed", (2, 4)),
}
TNEW = {
    ("numpy", "array", "device"): (2, 0), ("numpy", "asarray", "device"): (2, 0), ("numpy", "asarray", "copy"): (2, 0), ("numpy", "zeros", "device"): (2, 0), ("numpy", "ones", "device"): (2, 0), ("numpy", "eye", "device"): (2, 0), ("numpy", "linspace", "device"): (2, 0), ("numpy", "arange", "device"): (2, 0),
    ("numpy", "reshape", "shape"): (2, 1), ("numpy", "reshape", "copy"): (2, 1), ("numpy", "linalg.pinv", "rtol"): (2, 0), ("numpy", "linalg.matrix_rank", "rtol"): (2, 0), ("numpy", "var", "mean"): (2, 0), ("numpy", "std", "mean"): (2, 0), ("numpy", "std", "correction"): (2, 0), ("numpy", "var", "correction"): (2, 0), ("numpy", "unique", "sorted"): (2, 3), ("numpy", "vstack", "dtype"): (1, 24), ("numpy", "hstack", "dtype"): (1, 24), ("numpy", "stack", "dtype"): (1, 24), ("numpy", "unique", "equal_nan"): (1, 24), ("numpy", "zeros_like", "device"): (2, 0), ("numpy", "ones_like", "device"): (2, 0), ("numpy", "isin", "kind"): (1, 24), ("numpy", "in1d", "kind"): (1, 24), ("numpy", "cov", "dtype"): (1, 20), ("numpy", "astype", "device"): (2, 0),
    ("cvxpy", "Variable", "bounds"): (1, 5),
}


def version(s):
    return tuple(int(x) for x in re.findall(r"\d+", s)[:3])


def ranges(spec):
    """Lower and (exclusive) upper bound of a version specifier."""
    lo, hi = None, None
    for op, v in re.findall(r"(>=|<=|==|~=|<|>|!=)\s*([\d.*]+)", spec):
        v = version(v)
        if op in (">=", ">", "~=", "=="):
            lo = v
        if op == "<":
            hi = v
        if op == "==":
            hi = v + (1,)
        if op == "~=":
            hi = v[:-2] + (v[-2] + 1,) if len(v) > 1 else (v[0] + 1,)
    return lo, hi


class Mod:
    def __init__(self, C, path):
        self.path = path
        self.rel = os.path.relpath(path, C.repo)
        self.src = open(path, encoding="utf-8").read()
        self.tree = None
        self.err = None
        parts = os.path.relpath(path, os.path.join(C.repo, "src"))[:-3].split(os.sep)
        self.init = parts[-1] == "__init__"
        self.name = ".".join(parts[:-1] if self.init else parts)
        self.pkg = self.name if self.init else self.name.rpartition(".")[0]


def stars(mods, m, seen=()):
    """Names a module defines at its top level."""
    out = set()
    if m.name in seen or m.tree is None:
        return out

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def body(ss):
        for s in ss:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(s.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    out.add(a.asname or a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == "*":
                        t = mods.get(absname(m, s))
                        if t is not None:
                            out.update(n for n in public(mods, t, seen + (m.name,)))
                    else:
                        out.add(a.asname or a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    tgt(t)
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                tgt(s.target)
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                if isinstance(s, ast.For):
                    tgt(s.target)
                for f in ("body", "orelse", "finalbody"):
                    body(getattr(s, f, []) or [])
                for h in getattr(s, "handlers", []):
                    body(h.body)
                for w in getattr(s, "items", []):
                    if w.optional_vars is not None:
                        tgt(w.optional_vars)

    body(m.tree.body)
    return out


def public(mods, m, seen=()):
    ns = stars(mods, m, seen)
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets):
            try:
                return set(ast.literal_eval(s.value))
            except ValueError:
                pass
    return {n for n in ns if not n.startswith("_")}


def absname(m, s):
    if not s.level:
        return s.module or ""
    base = m.pkg.split(".") if m.pkg else []
    base = base[: len(base) - (s.level - 1)]
    return ".".join(base + ([s.module] if s.module else []))


def where(m, node):
    """file:line function"""
    best = ""
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= node.lineno <= (n.end_lineno or n.lineno):
            best = f"{best}.{n.name}" if best else n.name
    return f"{m.rel}:{node.lineno} {best or '<module>'}"


def under_guard(parents, n):
    """Inside a handler-protected try, an `if TYPE_CHECKING`, a version test, or a hasattr test."""
    c = n
    while c in parents:
        p = parents[c]
        if isinstance(p, ast.Try) and c in p.body and p.handlers:
            for h in p.handlers:
                ts = ast.dump(h.type) if h.type is not None else "BaseException"
                if any(x in ts for x in ("ImportError", "ModuleNotFoundError", "AttributeError", "Exception", "TypeError")):
                    return True
        if isinstance(p, (ast.If, ast.IfExp)):
            t = ast.dump(p.test)
            if any(x in t for x in ("TYPE_CHECKING", "version_info", "__version__", "'hasattr'", "lib_version")):
                return True
        c = p
    return False


def check(C):
    src = os.path.join(C.repo, "src", "rigeo")
    pp = tomllib.load(open(os.path.join(C.repo, "pyproject.toml"), "rb"))
    proj = pp["project"]
    PY, _ = ranges(proj.get("requires-python", ">=3.8"))
    PY = (PY + (0,))[:2]
    deps = {}
    for d in proj.get("dependencies", []):
        name, rest = re.match(r"\s*([A-Za-z0-9_.\-]+)(.*)", d).groups()
        imp = IMPORT.get(name.lower(), name.replace("-", "_"))
        extra = re.match(r"\[([^\]]*)\]", rest.strip())
        deps[imp] = ranges(re.sub(r"\[[^\]]*\]", "", rest))
        for x in (extra.group(1).split(",") if extra else ()):
            deps.setdefault(IMPORT.get(x.strip().lower(), x.strip().lower()), (None, None))
    mods = {}
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if f.endswith(".py"):
                m = Mod(C, os.path.join(d, f))
                try:
                    m.tree = ast.parse(m.src, m.path)
                except SyntaxError as e:
                    m.err = e
                mods[m.name] = m
    if "rigeo" not in mods:
        raise Anchor("src/rigeo/__init__.py")
    # modules the package loads or documents
    rst = os.path.join(C.repo, "docs", "src", "modules.rst")
    docs = []
    for d, _, fs in os.walk(os.path.join(C.repo, "docs", "src")):
        for f in sorted(fs):
            if f.endswith(".rst"):
                p = os.path.join(d, f)
                for i, l in enumerate(open(p, encoding="utf-8"), 1):
                    k = re.match(r"\s*\.\.\s+auto(module|class|function|method|exception|data|attribute)::\s*(\S+)", l)
                    if k:
                        docs.append((f"{os.path.relpath(p, C.repo)}:{i}", k.group(1), k.group(2).split("(")[0]))
    todo = ["rigeo"] + [t for _, k, t in docs if k == "module" and t in mods]
    used = []
    while todo:
        n = todo.pop()
        if n in used or n not in mods:
            continue
        used.append(n)
        if "." in n:
            todo.append(n.rpartition(".")[0])
        m = mods[n]
        if m.tree is None:
            continue
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                todo += [a.name for a in s.names]
            elif isinstance(s, ast.ImportFrom):
                b = absname(m, s)
                todo += [b] + [f"{b}.{a.name}" for a in s.names]
    used.sort()
    funcs = 0
    counts = {"imports": 0, "third_party_references": 0, "stdlib_references": 0, "calls": 0}

    for n in used:
        m = mods[n]
        cm = f"{m.rel}:1 {n}"
        # ---- grammar
        try:
            if m.err is not None:
                raise m.err
            ast.parse(m.src, m.path, feature_version=PY)
            C.ok("grammar", cm, f"parses as Python {PY[0]}.{PY[1]}")
        except SyntaxError as e:
            C.fail("grammar", f"{m.rel}:{e.lineno} {n}", f"does not parse as Python {PY[0]}.{PY[1]}: {e.msg}")
            continue
        parents = {c: p for p in ast.walk(m.tree) for c in ast.iter_child_nodes(p)}
        future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)
        C.functions |= {f"{m.rel}:{x.lineno} {x.name}" for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef)}
        syntax(C, m, PY, parents, future)

        # ---- imports
        binds = {}  # local name -> dotted third-party or stdlib target
        for s in ast.walk(m.tree):
            if not isinstance(s, (ast.Import, ast.ImportFrom)):
                continue
            w = where(m, s)
            guard = under_guard(parents, s)
            if isinstance(s, ast.Import):
                pairs = [(a.name, None, a.asname or a.name.split(".")[0], a.name if a.asname else a.name.split(".")[0]) for a in s.names]
            else:
                b = absname(m, s)
                pairs = [(b, a.name, a.asname or a.name, f"{b}.{a.name}") for a in s.names]
            for modname, attr, local, target in pairs:
                counts["imports"] += 1
                top = modname.split(".")[0]
                if top == "__future__":
                    continue
                if top == "rigeo":
                    t = mods.get(modname)
                    if t is None:
                        C.fail("import-resolves", w, f"imports {modname}, which does not exist")
                    elif attr not in (None, "*") and attr not in stars(mods, t) and f"{modname}.{attr}" not in mods:
                        C.fail("import-resolves", w, f"imports {attr} from {modname}, which does not define it")
                    else:
                        C.ok("import-resolves", w, target)
                    continue
                if modname in sys.stdlib_module_names or top in sys.stdlib_module_names:
                    v = STDMOD.get(modname) or STDMOD.get(top)
                    if v and v > PY and not guard:
                        C.fail("import-resolves", w, f"imports {modname}, new in Python {v[0]}.{v[1]}; {PY[0]}.{PY[1]} is supported")
                    elif top in STDGONE and not guard:
                        C.fail("import-resolves", w, f"imports {top}, removed in Python {STDGONE[top][0]}.{STDGONE[top][1]}")
                    else:
                        C.ok("import-resolves", w, modname)
                elif top in STDGONE and not guard:
                    C.fail("import-resolves", w, f"imports {top}, removed in Python {STDGONE[top][0]}.{STDGONE[top][1]}")
                elif top in deps:
                    C.ok("import-resolves", w, f"{modname} is a declared dependency")
                elif guard:
                    C.ok("import-resolves", w, f"{modname} is optional here")
                else:
                    C.fail("import-resolves", w, f"imports {modname}, which is neither the standard library, a declared dependency nor part of the package")
                if attr != "*":
                    binds.setdefault(local, []).append(target)
                if attr is not None and attr != "*" and not guard:
                    judge(C, m, s, target, PY, deps, counts)

        # ---- references
        assigned = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in ast.walk(m.tree) if isinstance(x, ast.arg)} | {x.name for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.ClassDef))}

        def dotted(x):
            if isinstance(x, ast.Name):
                if x.id in binds and x.id not in assigned:
                    return binds[x.id][0]
                if x.id in BUILTIN or (x.id in ("zip", "map", "int") and x.id not in assigned and x.id not in binds):
                    return "builtins." + x.id
                return None
            if isinstance(x, ast.Attribute):
                b = dotted(x.value)
                return f"{b}.{x.attr}" if b else None
            return None

        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in BUILTIN and x.id not in assigned and x.id not in binds:
                if BUILTIN[x.id] > PY and not under_guard(parents, x):
                    C.fail("python-feature", where(m, x), f"{x.id} is new in Python {vs(BUILTIN[x.id])}; {vs(PY)} is supported")
            if isinstance(x, ast.Attribute):
                t = dotted(x)
                if t is not None:
                    if not under_guard(parents, x):
                        judge(C, m, x, t, PY, deps, counts)
                elif not under_guard(parents, x):
                    method(C, m, x, PY, deps)
            if isinstance(x, ast.Call):
                counts["calls"] += 1
                t = dotted(x.func)
                if t is not None and not under_guard(parents, x):
                    keywords(C, m, x, t, PY, deps)
        C.ok("references", cm, "no feature outside the supported versions besides those reported")

    # ---- documentation
    for w, kind, t in docs:
        if kind == "module":
            if t in mods:
                C.ok("documented-exists", f"{w} {t}", t)
            elif t.split(".")[0] == "rigeo":
                C.fail("documented-exists", f"{w} {t}", f"the module reference documents {t}, which does not exist")
            continue
        if t.split(".")[0] != "rigeo":
            C.unk("documented-exists", f"{w} {t}", "not qualified with the package")
            continue
        parts = t.split(".")
        k = max((i for i in range(1, len(parts) + 1) if ".".join(parts[:i]) in mods), default=0)
        rest = parts[k:]
        m = mods[".".join(parts[:k])]
        if rest and rest[0] not in stars(mods, m):
            C.fail("documented-exists", f"{w} {t}", f"documents {t}, which {m.name} does not define")
        else:
            C.ok("documented-exists", f"{w} {t}", t)
    # __all__ of each module names what exists
    for n in used:
        m = mods[n]
        if m.tree is None:
            continue
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets):
                try:
                    names = ast.literal_eval(s.value)
                except ValueError:
                    continue
                have = stars(mods, m)
                for a in names:
                    if a in have or f"{m.name}.{a}" in mods:
                        C.ok("import-resolves", where(m, s), a)
                    else:
                        C.fail("import-resolves", where(m, s), f"__all__ names {a}, which {m.name} does not define")
    C.extra = {"modules": used, "not_part_of_the_package_interface": sorted(set(mods) - set(used)), "oldest_python": vs(PY), "dependencies": {k: [vs(a) if a else None, vs(b) if b else None] for k, (a, b) in deps.items()}, **counts}


def vs(v):
    return ".".join(map(str, v))


def syntax(C, m, PY, parents, future):
    """Constructs ast.parse(feature_version=...) does not reject."""
    new_generic = {"list", "dict", "tuple", "set", "frozenset", "type"}

    def evaluated(n):
        # is this annotation node evaluated at run time?
        c = n
        while c in parents:
            p = parents[c]
            if isinstance(p, ast.arg) and c is p.annotation:
                return not future
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)) and c is p.returns:
                return not future
            if isinstance(p, ast.AnnAssign) and c is p.annotation:
                # annotations of local variables are never evaluated
                q = p
                while q in parents and not isinstance(parents[q], (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    q = parents[q]
                local = q in parents and not isinstance(parents[q], ast.ClassDef)
                return not future and not local
            c = p
        return True

    annots = set()
    for x in ast.walk(m.tree):
        for a in ([x.annotation] if isinstance(x, (ast.arg, ast.AnnAssign)) and x.annotation is not None else []) + ([x.returns] if isinstance(x, ast.FunctionDef) and x.returns is not None else []):
            annots |= set(ast.walk(a))
    shadow = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in ast.walk(m.tree) if isinstance(x, ast.arg)}
    for x in ast.walk(m.tree):
        if PY < (3, 9) and isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in new_generic and x.value.id not in shadow and evaluated(x):
            C.fail("python-feature", where(m, x), f"{x.value.id}[...] is evaluated; Python {vs(PY)} cannot subscript it")
        if PY < (3, 9) and isinstance(x, ast.Subscript) and isinstance(x.value, (ast.Name, ast.Attribute)) and evaluated(x):
            nm = x.value.id if isinstance(x.value, ast.Name) else x.value.attr
            if nm in ABCS and any(isinstance(s, ast.ImportFrom) and s.module == "collections.abc" and any((a.asname or a.name) == nm for a in s.names) for s in ast.walk(m.tree)):
                C.fail("python-feature", where(m, x), f"collections.abc.{nm}[...] is evaluated; Python {vs(PY)} cannot subscript it")
        if PY < (3, 10) and x in annots and isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr) and evaluated(x):
            C.fail("python-feature", where(m, x), f"the union {ast.unparse(x)} is evaluated; Python {vs(PY)} has no union operator for types")
        if PY < (3, 10) and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "issubclass") and len(x.args) == 2 and isinstance(x.args[1], ast.BinOp) and isinstance(x.args[1].op, ast.BitOr):
            C.fail("python-feature", where(m, x), f"isinstance with the union {ast.unparse(x.args[1])} needs Python 3.10")
        if PY < (3, 9) and isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr) and any(isinstance(o, (ast.Dict, ast.DictComp)) for o in (x.left, x.right)):
            C.fail("python-feature", where(m, x), f"union of dictionaries needs Python 3.9")
        if PY < (3, 9) and isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            for d in x.decorator_list:
                e = d.func if isinstance(d, ast.Call) else d
                while isinstance(e, ast.Attribute):
                    e = e.value
                if not isinstance(e, ast.Name):
                    C.fail("python-feature", where(m, x), f"the decorator of {x.name} needs the grammar of Python 3.9")
        if PY < (3, 11) and isinstance(x, ast.Subscript):
            el = x.slice.elts if isinstance(x.slice, ast.Tuple) else []
            if any(isinstance(e, ast.Starred) for e in el):
                C.fail("python-feature", where(m, x), "a starred index needs the grammar of Python 3.11")
        if PY < (3, 11) and x.__class__.__name__ == "TryStar":
            C.fail("python-feature", where(m, x), "except* needs Python 3.11")
    # f-strings: reused quotes, backslashes, comments need Python 3.12
    if PY < (3, 12):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.JoinedStr) and not isinstance(parents.get(x), (ast.JoinedStr, ast.FormattedValue)):
                seg = ast.get_source_segment(m.src, x) or ""
                bad = fstring_new(seg)
                if bad:
                    C.fail("grammar", where(m, x), f"the f-string {bad}, which needs Python 3.12")


def fstring_new(seg):
    try:
        toks = list(tokenize.generate_tokens(io.StringIO("(" + seg + ")").readline))
    except (tokenize.TokenError, IndentationError, SyntaxError):
        return None
    stack, depth = [], []
    for t in toks:
        nm = tokenize.tok_name[t.type]
        if nm == "FSTRING_START":
            q = t.string.lstrip("fFrRbBuU")
            if stack and q[0] == stack[-1][0] and len(q) <= len(stack[-1]) :
                return "reuses its quotes inside a replacement field"
            stack.append(q)
        elif nm == "FSTRING_END":
            stack.pop()
        elif stack and nm == "STRING":
            q = t.string.lstrip("fFrRbBuU")
            if q[0] == stack[-1][0] and len(stack[-1]) == 1:
                return "reuses its quotes inside a replacement field"
            if "\\" in t.string:
                return "has a backslash inside a replacement field"
        elif stack and nm == "COMMENT":
            return "has a comment inside a replacement field"
    return None


def judge(C, m, node, target, PY, deps, counts):
    top, _, rest = target.partition(".")
    if top in THIRD and top in deps:
        counts["third_party_references"] += 1
        lo, hi = deps[top]
        since = until = None
        ent = THIRD[top].get(rest)
        if ent is None:
            return
        since, until = ent
        if since and (lo is None or lo < since):
            C.fail("library-feature", where(m, node), f"{target} exists only from {top} {vs(since)}; {top} {vs(lo) if lo else 'any'} is allowed")
        elif until and (hi is None or hi > until):
            C.fail("library-feature", where(m, node), f"{target} is gone from {top} {vs(until)}, which the declared range allows")
        return
    mod, _, name = target.rpartition(".")
    if top == "collections" and mod == "collections" and name in ABCS:
        C.fail("python-feature", where(m, node), f"collections.{name} was removed in Python 3.10")
        return
    if mod in STD:
        counts["stdlib_references"] += 1
        v = STD[mod].get(name)
        if v and v > PY:
            C.fail("python-feature", where(m, node), f"{target} is new in Python {vs(v)}; {vs(PY)} is supported")


def method(C, m, x, PY, deps):
    if x.attr in METHOD and METHOD[x.attr] > PY:
        C.fail("python-feature", where(m, x), f"the method {x.attr} is new in Python {vs(METHOD[x.attr])}; {vs(PY)} is supported")
    ent = TMETHOD.get(x.attr)
    if ent and ent[0] in deps:
        lo, hi = deps[ent[0]]
        if x.attr == "spawn" and not (isinstance(x.value, ast.Name) and "rng" in x.value.id.lower()):
            return
        if ent[1] and (lo is None or lo < ent[1]):
            C.fail("library-feature", where(m, x), f"the attribute {x.attr} exists only from {ent[0]} {vs(ent[1])}")
        elif ent[2] and (hi is None or hi > ent[2]):
            C.fail("library-feature", where(m, x), f"the method {x.attr} is gone from {ent[0]} {vs(ent[2])}, which the declared range allows")


def keywords(C, m, call, t, PY, deps):
    top, _, rest = t.partition(".")
    for k in call.keywords:
        if k.arg is None:
            continue
        v = KEYWORD.get((top, rest, k.arg))
        if v and v > PY:
            C.fail("python-feature", where(m, call), f"{t}({k.arg}=...) is new in Python {vs(v)}; {vs(PY)} is supported")
        if top not in deps:
            continue
        lo, hi = deps[top]
        v = TNEW.get((top, rest, k.arg))
        if v and (lo is None or lo < v):
            C.fail("library-feature", where(m, call), f"{t}({k.arg}=...) exists only from {top} {vs(v)}; {vs(lo) if lo else 'any'} is allowed")
        for val in (None, k.value.value if isinstance(k.value, ast.Constant) else None):
            e = TKEY.get((top, rest, k.arg, val))
            if e and (hi is None or hi > e[1]) and (val is None or (isinstance(k.value, ast.Constant) and k.value.value is val)):
                C.fail("library-feature", where(m, call), f"{t}({k.arg}=...): {e[0]} in {top} {vs(e[1])}, which the declared range allows")
