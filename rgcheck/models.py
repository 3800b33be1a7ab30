"""Transfer functions for builtins, the standard library and arrays."""
import builtins as _b
import inspect
import itertools
import math
from fractions import Fraction

import numpy as np

from . import alg
from .alg import Rat, INF, NAN
from .cond import B, band, bor, bnot, cmp as bcmp, close as bclose, truth
from .interp import (Arr, Bound, CachedProp, ClassM, ExcClass, ExcVal, Func, GenList, Interp, Module, NIMPL, Native, Opaque, Prop, PyClass, PyObj, Raised, StaticM, Super, Undecided, EXC_NAMES, _MISSING, sc_arith)

NUM = (int, float, Rat, Fraction)


# =============================================================== array helpers
def obj(a):
    """numpy object array from nested lists without interpreting elements."""
    x = np.empty(np.shape(a), dtype=object) if not isinstance(a, np.ndarray) else a
    if not isinstance(a, np.ndarray):
        x[...] = a
    return x


def fill(shape, v):
    x = np.empty(shape, dtype=object)
    x.fill(v)
    return x


def norm_el(v, dt):
    if dt == "f":
        if isinstance(v, (bool, int, Fraction)):
            return Rat.const(int(v) if isinstance(v, bool) else v)
        return v
    return v


class ArrMixin:
    """Methods added to Interp."""

    # ---- conversion
    def shape_of(self, x):
        if isinstance(x, Arr):
            return x.a.shape
        if isinstance(x, (list, tuple, GenList, range)):
            xs = list(x)
            if not xs:
                return (0,)
            ss = [self.shape_of(y) for y in xs]
            if any(s != ss[0] for s in ss):
                raise self.err("ValueError", "setting an array element with a sequence (inhomogeneous shape)")
            return (len(xs),) + ss[0]
        return ()

    def arr(self, x, dtype=None, copy=False):
        """np.asarray-like; always 'np' kind."""
        if isinstance(x, Arr):
            if x.k == "cp":
                if x.var is not None and x.var.get("const"):
                    return Arr(x.a, "f")
                raise Undecided("array of optimisation expressions")
            a, dt = (x.a.copy() if copy else x.a), x.dt
        elif isinstance(x, (set, dict)) or isinstance(x, (str,)) or x is None:
            a = np.empty((), dtype=object)
            a[()] = x
            dt = "o"
        elif isinstance(x, (list, tuple, range)):
            shp = self.shape_of(x)
            leaves, dts = [], set()

            def rec(y):
                if isinstance(y, Arr):
                    if y.k == "cp":
                        raise Undecided("array of optimisation expressions")
                    dts.add(y.dt)
                    for v in y.a.reshape(-1):
                        leaves.append(v)
                elif isinstance(y, (list, tuple, range)):
                    for z in y:
                        rec(z)
                else:
                    leaves.append(y)
                    dts.add(self.dt_of(y))

            rec(x)
            a = np.empty(len(leaves), dtype=object)
            dt = join_dt(dts)
            for i, v in enumerate(leaves):
                a[i] = norm_el(v, dt)
            a = a.reshape(shp)
            a = a.copy() if a.base is not None else a
        else:
            a = np.empty((), dtype=object)
            dt = self.dt_of(x)
            a[()] = x
        if dtype is not None:
            d2 = self.dtype(dtype)
            if d2 != dt:
                a = self.cast(a, dt, d2)
                dt = d2
        return Arr(a, dt)

    def dt_of(self, y):
        if isinstance(y, (bool, B)):
            return "b"
        if isinstance(y, int):
            return "i"
        if isinstance(y, (float, Rat, Fraction)):
            if isinstance(y, Rat) and integer_valued(y):
                return "i"
            return "f"
        return "o"

    def dtype(self, d):
        if d is None:
            return "f"
        if isinstance(d, Arr):
            raise Undecided("dtype")
        nm = d if isinstance(d, str) else getattr(d, "name", getattr(d, "__name__", str(d)))
        nm = str(nm)
        if nm in ("f", "i", "b", "o") and not isinstance(d, str):
            return nm
        nm = nm.split(".")[-1]
        if nm.startswith(("float", "f8", "f4", "double", "d", "longdouble")) or nm in ("floating", "f"):
            return "f"
        if nm.startswith(("int", "uint", "i8", "i4", "intp", "i")):
            return "i"
        if nm.startswith(("bool", "?", "b")):
            return "b"
        if nm in ("object", "O", "object_", "o"):
            return "o"
        raise Undecided(f"dtype {nm}")

    def cast(self, a, src, dst):
        def one(v):
            if dst == "o":
                return v
            if dst == "b":
                return self.truthy(v) if isinstance(v, NUM + (B, bool)) else bool(v)
            if isinstance(v, (B, bool)):
                v = self.indicator(v)
            if isinstance(v, str):
                try:
                    v = Rat.const(alg.frac(float(v))) if dst == "f" else int(v)
                except ValueError:
                    raise self.err("ValueError", "could not convert string")
            if dst == "f":
                return norm_el(v, "f")
            return self.trunc(v)

        return emap(one, a)

    def trunc(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Rat):
            if v.is_const():
                return int(Fraction(v.value()).__trunc__())
            if integer_valued(v):
                return v
            return alg.fn("trunc", [v], integer=True)
        if isinstance(v, float):
            raise self.err("OverflowError" if math.isinf(v) else "ValueError", "cannot convert float to integer")
        raise Undecided("integer conversion")

    def wrap(self, a, dt="f", k="np"):
        """Scalar for 0-d numpy results, Arr otherwise."""
        if isinstance(a, np.ndarray):
            if a.ndim == 0 and k == "np":
                return a[()]
            return Arr(a, dt, k)
        if k == "cp":
            x = np.empty((), dtype=object)
            x[()] = a
            return Arr(x, dt, k)
        return a

    def arr_item(self, v, i):
        x = v.a[i]
        if v.k == "cp":
            return self.cp_wrap(x)
        if isinstance(x, np.ndarray):
            return Arr(x, v.dt, v.k)
        return x

    def cp_wrap(self, x):
        if not isinstance(x, np.ndarray):
            y = np.empty((), dtype=object)
            y[()] = x
            x = y
        return Arr(x, "f", "cp")

    # ---- operators
    def np_operand(self, x):
        if isinstance(x, Arr):
            return x
        if isinstance(x, (list, tuple, GenList)):
            return self.arr(list(x))
        if isinstance(x, NUM + (B, bool, PyObj)):
            a = np.empty((), dtype=object)
            a[()] = x
            return Arr(a, self.dt_of(x))
        if isinstance(x, Opaque):
            raise Undecided(f"array operation with {x!r}")
        raise self.err("TypeError", f"unsupported operand for array operation: {self.tname(x)}")

    def bcast(self, f, xs):
        try:
            bs = np.broadcast_arrays(*xs)
        except ValueError as ex:
            raise self.err("ValueError", f"operands could not be broadcast together: {ex}")
        out = np.empty(bs[0].shape, dtype=object)
        flat = [b.reshape(-1) for b in bs]
        o = out.reshape(-1)
        for i in range(o.size):
            o[i] = f(*[x[i] for x in flat])
        return o.reshape(out.shape)

    def np_binop(self, op, l, r):
        L, R_ = self.np_operand(l), self.np_operand(r)
        cp = L.k == "cp" or R_.k == "cp"
        if cp:
            return self.cp_binop(op, L, R_)
        if op == "@":
            return self.matmul(L, R_)
        if "o" in (L.dt, R_.dt):
            return self.wrap(self.bcast(lambda a, b: self.binop(op, a, b), (L.a, R_.a)), "o")
        if op in ("&", "|", "^"):
            if L.dt == "b" and R_.dt == "b":
                return self.wrap(self.bcast(lambda a, b: self.binop(op, a, b), (L.a, R_.a)), "b")
            if "f" in (L.dt, R_.dt):
                raise self.err("TypeError", f"ufunc for {op} not supported for floats")
            return self.wrap(self.bcast(lambda a, b: self.binop(op, a, b), (L.a, R_.a)), "i")
        if op == "-" and L.dt == "b" and R_.dt == "b":
            raise self.err("TypeError", "numpy boolean subtract is not supported")
        if op in ("+", "*") and L.dt == "b" and R_.dt == "b":
            return self.wrap(self.bcast((lambda a, b: bor(a, b)) if op == "+" else (lambda a, b: band(a, b)), (L.a, R_.a)), "b")
        dt = "f" if "f" in (L.dt, R_.dt) or op == "/" else "i"
        if dt == "i" and op == "**":
            neg = [x for x in R_.a.reshape(-1) if isinstance(x, int) and x < 0]
            if neg:
                raise self.err("ValueError", "Integers to negative integer powers are not allowed.")

        def f(a, b):
            if isinstance(a, B):
                a = self.indicator(a)
            if isinstance(b, B):
                b = self.indicator(b)
            if dt == "i":
                if isinstance(a, bool):
                    a = int(a)
                if isinstance(b, bool):
                    b = int(b)
                if isinstance(a, int) and isinstance(b, int):
                    if op in ("//", "%") and b == 0:
                        return 0
                    return self.scalar(op, a, b)
                return sc_arith(op, a, b, self)
            v = sc_arith(op, a, b, self)
            return norm_el(v, "f")

        return self.wrap(self.bcast(f, (L.a, R_.a)), dt)

    def np_unop(self, op, v):
        if v.k == "cp":
            if op == "USub":
                return Arr(emap(lambda x: sc_arith("*", -1, x, self), v.a), "f", "cp")
            return v
        if op == "USub":
            if v.dt == "b":
                raise self.err("TypeError", "numpy boolean negative is not supported")
            return self.wrap(emap(lambda x: self.unop(op, x), v.a), v.dt)
        if op == "UAdd":
            return Arr(v.a.copy(), v.dt)
        if op == "Invert":
            if v.dt == "f":
                raise self.err("TypeError", "ufunc 'invert' not supported for floats")
            if v.dt == "b":
                return self.wrap(emap(bnot, v.a), "b")
            return self.wrap(emap(lambda x: ~x, v.a), v.dt)
        raise Undecided(op)

    def np_inplace(self, op, cur, v):
        r = self.np_binop(op, cur, v)
        a, dt = (r.a, r.dt) if isinstance(r, Arr) else (r, self.dt_of(r))
        if isinstance(r, Arr) and r.k == "cp":
            raise Undecided("in-place with optimisation expression")
        if cur.dt == "i" and dt == "f":
            raise self.err("TypeError", f"Cannot cast ufunc output from float64 to int64 (in-place {op}=)")
        self.note_write(cur, f"array changed in place by {op}=")
        try:
            cur.a[...] = a
        except ValueError as ex:
            raise self.err("ValueError", str(ex))

    def np_compare(self, op, l, r):
        if r is None or l is None or isinstance(l, str) or isinstance(r, str):
            return NotImplemented if op not in ("==", "!=") else Arr(fill((l if isinstance(l, Arr) else r).a.shape, op == "!="), "b")
        if isinstance(l, (dict, Module, PyClass, Func)) or isinstance(r, (dict, Module, PyClass, Func)):
            return op == "!="
        L, R_ = self.np_operand(l), self.np_operand(r)
        if L.k == "cp" or R_.k == "cp":
            return self.cp_compare(op, L, R_)
        if op in ("==", "!="):
            try:
                np.broadcast_shapes(L.a.shape, R_.a.shape)
            except ValueError:
                return op == "!="
        f = lambda a, b: self.truthy(self.compare(op, a, b))
        return self.wrap(self.bcast(f, (L.a, R_.a)), "b")

    def matmul(self, L, R_):
        a, b = L.a, R_.a
        if a.ndim == 0 or b.ndim == 0:
            raise self.err("ValueError", "matmul: input operand does not have enough dimensions")
        if a.shape[-1] != b.shape[-2 if b.ndim > 1 else 0]:
            raise self.err("ValueError", f"matmul: shapes {a.shape} and {b.shape} not aligned")
        if a.ndim > 2 or b.ndim > 2:
            a2 = a if a.ndim > 1 else a[None, :]
            b2 = b if b.ndim > 1 else b[:, None]
            try:
                bs = np.broadcast_shapes(a2.shape[:-2], b2.shape[:-2])
            except ValueError as ex:
                raise self.err("ValueError", str(ex))
            a3 = np.broadcast_to(a2, bs + a2.shape[-2:])
            b3 = np.broadcast_to(b2, bs + b2.shape[-2:])
            out = np.empty(bs + (a2.shape[-2], b2.shape[-1]), dtype=object)
            for idx in np.ndindex(*bs):
                out[idx] = self.mm2(a3[idx], b3[idx])
            if a.ndim == 1:
                out = out[..., 0, :]
            if b.ndim == 1:
                out = out[..., 0]
            return self.wrap(out, "f")
        a2 = a if a.ndim == 2 else a[None, :]
        b2 = b if b.ndim == 2 else b[:, None]
        out = self.mm2(a2, b2)
        if a.ndim == 1:
            out = out[0]
        if b.ndim == 1:
            out = out[..., 0]
        dt = "i" if L.dt in "ib" and R_.dt in "ib" else "f"
        if dt == "f" and isinstance(out, np.ndarray):
            out = emap(lambda v: norm_el(v, "f"), out)
        return self.wrap(out, dt) if isinstance(out, np.ndarray) else (norm_el(out, dt))

    def mm2(self, a, b):
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = self.dot_(a[i, :], b[:, j])
        return out

    def dot_(self, x, y):
        s = 0
        for p, q in zip(x, y):
            if isinstance(p, Rat) and p.num.is_zero() and not isinstance(q, float):
                continue
            if isinstance(q, Rat) and q.num.is_zero() and not isinstance(p, float):
                continue
            s = sc_arith("+", s, sc_arith("*", p, q, self), self)
        return s if isinstance(s, (Rat, float)) else (s if isinstance(x[0] if len(x) else 0, int) and isinstance(y[0] if len(y) else 0, int) else Rat.const(s))

    # ---- indexing
    def idx(self, o, i):
        """Index usable on the underlying container."""
        if isinstance(i, tuple):
            return tuple(self.idx1(o, x) for x in i)
        return self.idx1(o, i)

    def idx1(self, o, i):
        if i is None or i is Ellipsis:
            return i
        if isinstance(i, slice):
            f = lambda x: None if x is None else self.as_int(x)
            return slice(f(i.start), f(i.stop), f(i.step))
        if isinstance(i, bool):
            return i
        if isinstance(i, B):
            return self.decide(i)
        if isinstance(i, int):
            return i
        if isinstance(i, Rat):
            if i.is_const() and not integer_valued(i) or not i.is_const():
                if i.is_const():
                    raise self.err("IndexError", "only integers and slices are valid indices")
                return self.as_int(i)
            return self.as_int(i)
        if isinstance(i, (list, tuple)):
            i = self.arr(list(i))
        if isinstance(i, Arr):
            if i.k == "cp":
                raise Undecided("optimisation expression used as index")
            if i.dt == "b":
                return emap(lambda b: self.decide(b), i.a).astype(bool)
            if i.dt == "i" or i.a.size == 0:
                if i.a.ndim == 0:
                    return self.as_int(i.a[()])
                return np.vectorize(self.as_int, otypes=[int])(i.a) if i.a.size else np.zeros(i.a.shape, dtype=int)
            if i.dt == "f":
                raise self.err("IndexError", "arrays used as indices must be of integer (or boolean) type")
        if isinstance(i, str):
            raise self.err("IndexError", "only integers, slices are valid indices")
        raise Undecided(f"index {i!r}")

    def np_getitem(self, o, i):
        ix = self.idx(o, i)
        try:
            x = o.a[ix]
        except IndexError as ex:
            raise self.err("IndexError", str(ex))
        if o.k == "cp":
            r = self.cp_wrap(x)
            return r
        if isinstance(x, np.ndarray):
            return Arr(x, o.dt)
        return x

    def np_setitem(self, o, i, v):
        if o.k == "cp":
            raise self.err("TypeError", "'Expression' object does not support item assignment")
        ix = self.idx(o, i)
        self.note_write(o, "array elements assigned")
        if isinstance(v, Arr):
            if v.k == "cp":
                raise self.err("ValueError", "setting an array element with an expression")
            a, dt = v.a, v.dt
        elif isinstance(v, (list, tuple, range)):
            t = self.arr(list(v))
            a, dt = t.a, t.dt
        else:
            a, dt = v, self.dt_of(v)
        if o.dt != dt and o.dt != "o":
            if isinstance(a, np.ndarray):
                a = self.cast(a, dt, o.dt)
            else:
                x = np.empty((), dtype=object)
                x[()] = a
                a = self.cast(x, dt, o.dt)[()]
        hook = self.scenario.get("setitem")
        if hook is not None:
            hook(o, ix, a)
        try:
            o.a[ix] = a
        except (ValueError, IndexError) as ex:
            raise self.err(type(ex).__name__, str(ex))


def integer_valued(v):
    if not isinstance(v, Rat) or v.den:
        return False
    if v.is_const():
        return False
    for m, c in v.num.t.items():
        if Fraction(c).denominator != 1:
            return False
        for a, e in m:
            A = alg.ATOMS[a]
            if not (A.integer or (isinstance(A.info, dict) and A.info.get("integer"))):
                return False
    return True


def join_dt(dts):
    for d in ("o", "f", "i", "b"):
        if d in dts:
            return d
    return "f"


def emap(f, a):
    out = np.empty(a.shape, dtype=object)
    o, s = out.reshape(-1), a.reshape(-1)
    for i in range(s.size):
        o[i] = f(s[i])
    return o.reshape(a.shape) if a.ndim else _zero_d(o[0])


def _zero_d(v):
    x = np.empty((), dtype=object)
    x[()] = v
    return x


for _n, _f in list(vars(ArrMixin).items()):
    if callable(_f) and not _n.startswith("__"):
        setattr(Interp, _n, _f)


# =============================================================== builtins
def install(I):
    from . import models_np, models_cp, models_cdd

    bi = {}

    def reg(f, name=None):
        bi[name or f.__name__.rstrip("_")] = f
        return f

    for n in EXC_NAMES:
        bi[n] = ExcClass(n)
    bi["True"], bi["False"], bi["None"] = True, False, None
    bi["NotImplemented"] = NIMPL
    bi["Ellipsis"] = Ellipsis

    @reg
    def len_(x):
        if isinstance(x, Arr):
            if x.a.ndim == 0:
                raise I.err("TypeError", "len() of unsized object")
            return x.a.shape[0]
        if isinstance(x, PyObj):
            f = x.cls.find("__len__")
            if f is None:
                raise I.err("TypeError", f"object of type '{x.cls.name}' has no len()")
            return I.call(Bound(f, x), [], {})
        if isinstance(x, (list, tuple, dict, set, frozenset, str, range)):
            return len(x)
        if isinstance(x, Native) and "__len__" in x.attrs:
            return x.attrs["__len__"]()
        if isinstance(x, Opaque):
            raise Undecided("len of opaque")
        if type(x).__name__ in ("dict_keys", "dict_values", "dict_items"):
            return len(x)
        raise I.err("TypeError", f"object of type '{I.tname(x)}' has no len()")

    @reg
    def range_(*a):
        vals = []
        for x in a:
            if isinstance(x, Rat) and x.is_const() and not isinstance(x, bool):
                # floats are rejected by range, numpy integers are not
                if Fraction(x.value()).denominator != 1:
                    raise I.err("TypeError", "'float' object cannot be interpreted as an integer")
            vals.append(I.as_int(x))
        try:
            return range(*vals)
        except ValueError as ex:
            raise I.err("ValueError", str(ex))

    @reg
    def zip_(*a, strict=False):
        ls = [I.iterate(x) for x in a]
        if strict and len({len(l) for l in ls}) > 1:
            raise I.err("ValueError", "zip() arguments have different lengths")
        return GenList(zip(*ls))

    @reg
    def enumerate_(x, start=0):
        return GenList(enumerate(I.iterate(x), I.as_int(start)))

    @reg
    def sum_(x, start=0):
        s = start
        for v in I.iterate(x):
            s = I.binop("+", s, v)
        return s

    def _mm(name):
        def f(*a, key=None, default=_MISSING):
            xs = I.iterate(a[0]) if len(a) == 1 else list(a)
            if not xs:
                if default is not _MISSING:
                    return default
                raise I.err("ValueError", f"{name}() arg is an empty sequence")
            if key is not None:
                best, bk = xs[0], I.call(key, [xs[0]], {})
                for x in xs[1:]:
                    k = I.call(key, [x], {})
                    if I.decide(I.compare(">" if name == "max" else "<", k, bk)):
                        best, bk = x, k
                return best
            if all(isinstance(x, int) for x in xs):
                return (max if name == "max" else min)(xs)
            if all(isinstance(x, NUM) for x in xs):
                return (alg.maxv if name == "max" else alg.minv)(xs)
            best = xs[0]
            for x in xs[1:]:
                if I.decide(I.compare(">" if name == "max" else "<", x, best)):
                    best = x
            return best

        return f

    bi["min"], bi["max"] = _mm("min"), _mm("max")

    @reg
    def abs_(x):
        if isinstance(x, Arr):
            if x.k == "cp":
                return I.cp_fn("abs", x)
            return I.wrap(emap(lambda v: abs(v) if isinstance(v, int) else alg.absv(v), x.a), x.dt)
        if isinstance(x, int):
            return abs(x)
        if isinstance(x, (Rat, float)):
            return alg.absv(x)
        if isinstance(x, PyObj) and x.cls.find("__abs__"):
            return I.call(Bound(x.cls.find("__abs__"), x), [], {})
        raise I.err("TypeError", "bad operand type for abs()")

    def int_(x=0, base=None):
        if isinstance(x, str):
            try:
                return int(x) if base is None else int(x, base)
            except ValueError as ex:
                raise I.err("ValueError", str(ex))
        if isinstance(x, Arr):
            if x.a.size != 1:
                raise I.err("TypeError", "only length-1 arrays can be converted to Python scalars")
            x = x.a.reshape(-1)[0]
        if isinstance(x, B):
            return int(I.decide(x))
        if isinstance(x, (list, tuple)) or x is None:
            raise I.err("TypeError", "int() argument must be a number")
        return I.trunc(x)

    def float_(x=0):
        if isinstance(x, str):
            try:
                v = float(x)
            except ValueError as ex:
                raise I.err("ValueError", str(ex))
            return v if math.isinf(v) or math.isnan(v) else Rat.const(alg.frac(v))
        if isinstance(x, Arr):
            if x.a.size != 1:
                raise I.err("TypeError", "only length-1 arrays can be converted to Python scalars")
            x = x.a.reshape(-1)[0]
        if isinstance(x, (bool, int)):
            return Rat.const(int(x))
        if isinstance(x, (Rat, float)):
            return x
        if isinstance(x, B):
            return Rat.const(int(I.decide(x)))
        raise I.err("TypeError", "float() argument must be a number")

    def bool_(x=False):
        return I.truthy(x)

    def str_(x=""):
        return I.to_str(x)

    def list_(x=()):
        return list(I.iterate(x))

    def tuple_(x=()):
        return tuple(I.iterate(x))

    def set_(x=()):
        return set(I.iterate(x))

    def frozenset_(x=()):
        return frozenset(I.iterate(x))

    def dict_(x=(), **k):
        d = {}
        if isinstance(x, dict):
            d.update(x)
        else:
            for kv in I.iterate(x):
                kk, vv = I.iterate(kv)
                d[I.key(kk)] = vv
        d.update(k)
        return d

    types = {}

    def mktype(name, ctor, test):
        t = Native(name, {"__call__": ctor, "__name__": name}, test=test)
        types[name] = t
        bi[name] = t
        return t

    mktype("int", int_, lambda v: isinstance(v, int) or (isinstance(v, Rat) and integer_valued(v) and False))
    mktype("float", float_, lambda v: isinstance(v, (float, Rat)) and not (isinstance(v, Rat) and integer_valued(v)))
    mktype("bool", bool_, lambda v: isinstance(v, (bool, B)))
    mktype("str", str_, lambda v: isinstance(v, str))
    mktype("list", list_, lambda v: isinstance(v, list) and not isinstance(v, GenList))
    mktype("tuple", tuple_, lambda v: isinstance(v, tuple))
    mktype("set", set_, lambda v: isinstance(v, set))
    mktype("frozenset", frozenset_, lambda v: isinstance(v, frozenset))
    mktype("dict", dict_, lambda v: isinstance(v, dict))
    mktype("complex", lambda *a: (_ for _ in ()).throw(Undecided("complex")), lambda v: False)
    mktype("bytes", lambda *a: (_ for _ in ()).throw(Undecided("bytes")), lambda v: False)
    types["dict"].attrs["fromkeys"] = lambda it, v=None: {I.key(k): v for k in I.iterate(it)}
    types["str"].attrs["join"] = lambda s, it: s.join(I.to_str(x) for x in I.iterate(it))
    bi["object"] = Native("object", {"__call__": lambda: Native("obj")}, test=lambda v: True)
    I.types = types

    def isinst(v, c):
        if isinstance(c, tuple):
            return any(isinst(v, x) for x in c)
        if isinstance(c, PyClass):
            return isinstance(v, PyObj) and c in v.cls.mro
        if isinstance(c, ExcClass):
            return isinstance(v, ExcVal) and c.name in I.exc_mro(v.kind)
        if isinstance(c, Native):
            t = getattr(c, "test", None)
            if t is not None:
                return bool(t(v))
        if isinstance(v, Opaque) or isinstance(c, Opaque):
            raise Undecided("isinstance with opaque")
        raise Undecided(f"isinstance against {c!r}")

    I.isinst = isinst
    bi["isinstance"] = isinst

    @reg
    def issubclass_(a, b):
        bs = b if isinstance(b, tuple) else (b,)
        return any(isinstance(a, PyClass) and x in a.mro for x in bs)

    def type_(v, *rest):
        if rest:
            raise Undecided("dynamic class")
        if isinstance(v, PyObj):
            return v.cls
        if isinstance(v, (bool, B)):
            return types["bool"]
        if isinstance(v, int):
            return types["int"]
        if isinstance(v, (float, Rat)):
            return types["float"]
        if isinstance(v, Arr):
            return I.np_types["ndarray"] if v.k == "np" else I.cp_types["Expression"]
        for n in ("str", "list", "tuple", "dict", "set"):
            if types[n].test(v):
                return types[n]
        if v is None:
            return bi["NoneType"]
        raise Undecided("type()")

    bi["NoneType"] = Native("NoneType", test=lambda v: v is None)
    bi["type"] = Native("type", {"__call__": type_}, test=lambda v: isinstance(v, PyClass))

    @reg
    def hasattr_(o, n):
        try:
            I.getattr(o, n)
            return True
        except Raised as e:
            if e.kind == "AttributeError":
                return False
            raise

    @reg
    def getattr_(o, n, *d):
        if d:
            return I.getattr(o, n, d[0])
        return I.getattr(o, n)

    @reg
    def setattr_(o, n, v):
        I.setattr(o, n, v)

    @reg
    def callable_(o):
        return isinstance(o, (Func, Bound, PyClass, ExcClass)) or callable(o) or (isinstance(o, Native) and "__call__" in o.attrs) or (isinstance(o, PyObj) and o.cls.find("__call__") is not None)

    @reg
    def iter_(x):
        return PyIter(I.iterate(x))

    @reg
    def next_(it, *d):
        if isinstance(it, GenList):
            if it:
                return it.pop(0)
        elif isinstance(it, PyIter):
            if it.i < len(it.xs):
                it.i += 1
                return it.xs[it.i - 1]
        else:
            raise I.err("TypeError", f"'{I.tname(it)}' object is not an iterator")
        if d:
            return d[0]
        raise I.err("StopIteration", "")

    @reg
    def map_(f, *its):
        return GenList(I.call(f, list(a), {}) for a in zip(*[I.iterate(x) for x in its]))

    @reg
    def filter_(f, it):
        return GenList(x for x in I.iterate(it) if I.decide(I.call(f, [x], {}) if f is not None else x))

    @reg
    def any_(it):
        return bor(*[I.truthy(x) for x in I.iterate(it)]) if I.iterate(it) else False

    @reg
    def all_(it):
        return band(*[I.truthy(x) for x in I.iterate(it)])

    @reg
    def sorted_(it, key=None, reverse=False):
        xs = I.iterate(it)
        ks = [I.call(key, [x], {}) if key is not None else x for x in xs]
        ks = [conc(k) for k in ks]
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
        return [xs[i] for i in order]

    def conc(k):
        if isinstance(k, tuple):
            return tuple(conc(x) for x in k)
        if isinstance(k, Rat):
            if k.is_const():
                return Fraction(k.value())
            raise Undecided("ordering of abstract values")
        if isinstance(k, (int, str, float)):
            return k
        raise Undecided("ordering of abstract values")

    @reg
    def reversed_(x):
        return GenList(reversed(I.iterate(x)))

    @reg
    def print_(*a, **k):
        return None

    @reg
    def input_(*a):
        I.events.append(("io", "input", I.where()))
        raise Undecided("input()")

    @reg
    def open_(*a, **k):
        I.events.append(("io", "open", I.where()))
        return Opaque("file")

    @reg
    def round_(x, n=None):
        if isinstance(x, int):
            return x
        if isinstance(x, Rat) and x.is_const():
            v = round(Fraction(x.value()), n) if n is not None else round(Fraction(x.value()))
            return int(v) if n is None else Rat.const(v)
        return alg.fn("round", [x], integer=True)

    @reg
    def divmod_(a, b):
        return (I.binop("//", a, b), I.binop("%", a, b))

    @reg
    def pow_(a, b, m=None):
        return I.binop("**", a, b)

    bi["repr"] = lambda x: I.to_str(x)
    bi["id"] = lambda x: id(x)
    bi["hash"] = lambda x: hash(x)
    bi["vars"] = lambda o: o.attrs
    bi["slice"] = Native("slice", {"__call__": lambda *a: slice(*a)}, test=lambda v: isinstance(v, slice))
    bi["property"] = Native("property", {"__call__": lambda fget=None, fset=None, fdel=None, doc=None: Prop(fget, fset)}, test=lambda v: isinstance(v, Prop))
    bi["staticmethod"] = Native("staticmethod", {"__call__": StaticM}, test=lambda v: False)
    bi["classmethod"] = Native("classmethod", {"__call__": ClassM}, test=lambda v: False)
    bi["super"] = lambda c, o: Super(c, o)
    bi["dir"] = lambda o: sorted(set(o.attrs) | {k for c in o.cls.mro for k in c.ns}) if isinstance(o, PyObj) else []
    bi["globals"] = lambda: I.stack[-1].mod.scope.vars
    bi["chr"], bi["ord"] = chr, ord
    I.builtins = bi

    # -------------------------------------------------------- attributes of native values
    def native_attr(o, name):
        if isinstance(o, GenList):
            return NotImplemented
        if isinstance(o, list):
            def mut(f, what):
                def g(*a, **k):
                    I.note_write(o, f"list.{what}()")
                    return f(*a, **k)

                return g

            m = {
                "append": mut(o.append, "append"),
                "extend": mut(lambda x: o.extend(I.iterate(x)), "extend"),
                "insert": mut(lambda i, x: o.insert(I.as_int(i), x), "insert"),
                "pop": mut(lambda i=-1: _pop(o, i), "pop"),
                "clear": mut(o.clear, "clear"),
                "reverse": mut(o.reverse, "reverse"),
                "sort": mut(lambda key=None, reverse=False: o.__setitem__(slice(None), sorted_(list(o), key, reverse)), "sort"),
                "remove": mut(lambda x: o.remove(x), "remove"),
                "copy": lambda: list(o),
                "index": lambda x: o.index(x),
                "count": lambda x: sum(1 for y in o if I.decide(I.compare("==", x, y))),
            }
            return m.get(name, NotImplemented)
        if isinstance(o, tuple):
            if hasattr(o, "_fields") and name in o._fields:
                return getattr(o, name)
            m = {"index": lambda x: o.index(x), "count": lambda x: sum(1 for y in o if y == x)}
            return m.get(name, NotImplemented)
        if isinstance(o, dict):
            def mut(f, what):
                def g(*a, **k):
                    I.note_write(o, f"dict.{what}()")
                    return f(*a, **k)

                return g

            def pop(k, *d):
                kk = I.key(k)
                if kk in o:
                    return o.pop(kk)
                if d:
                    return d[0]
                raise I.err("KeyError", repr(k))

            m = {
                "items": lambda: GenList(o.items()),
                "keys": lambda: GenList(o.keys()) if False else o.keys(),
                "values": lambda: GenList(o.values()),
                "get": lambda k, d=None: o.get(I.key(k), d),
                "copy": lambda: dict(o),
                "update": mut(lambda *a, **k: o.update(*[x if isinstance(x, dict) else dict_(x) for x in a], **k), "update"),
                "pop": mut(pop, "pop"),
                "popitem": mut(lambda: o.popitem(), "popitem"),
                "clear": mut(o.clear, "clear"),
                "setdefault": mut(lambda k, d=None: o.setdefault(I.key(k), d), "setdefault"),
            }
            return m.get(name, NotImplemented)
        if isinstance(o, (set, frozenset)):
            if name in ("add", "update", "discard", "remove", "clear", "pop"):
                def g(*a):
                    I.note_write(o, f"set.{name}()")
                    return getattr(o, name)(*[x if name in ("add", "discard", "remove") else I.iterate(x) for x in a])

                return g
            if name in ("union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "symmetric_difference"):
                return lambda *a: getattr(o, name)(*[set(I.iterate(x)) for x in a])
            if name == "copy":
                return lambda: set(o)
            return NotImplemented
        if isinstance(o, str):
            if hasattr(o, name):
                def g(*a, **k):
                    if name == "join":
                        return o.join(I.to_str(x) for x in I.iterate(a[0]))
                    if name == "format":
                        return o
                    return getattr(o, name)(*a, **k)

                return g
            return NotImplemented
        if isinstance(o, range):
            if name in ("start", "stop", "step"):
                return getattr(o, name)
            return NotImplemented
        if isinstance(o, (int, float, Rat, B, Fraction)):
            if name == "is_integer":
                if isinstance(o, int):
                    return lambda: True
                if isinstance(o, Rat):
                    if not o.is_const() and not o.den and all(alg.ATOMS[a].kind == "sqrt" and alg.ATOMS[a].info.is_const() for a in o.atoms()):
                        return lambda: False  # irrational
                    return lambda: Fraction(o.value()).denominator == 1 if o.is_const() else B("opq", f"is_integer({o!r})")
                return lambda: False
            if name in ("real",):
                return o
            if name in ("imag",):
                return 0
            if name == "conjugate":
                return lambda: o
            # numpy scalars have array attributes
            if name == "shape":
                return ()
            if name == "ndim":
                return 0
            if name == "size":
                return 1
            if name == "dtype":
                return I.np_dtype(I.dt_of(o))
            if name in ("T",):
                return o
            if name == "value":
                return NotImplemented
            if name in ("item", "copy"):
                return lambda *a: o
            if name in ("all", "any"):
                return lambda axis=None: I.truthy(o)
            if name in ("sum", "min", "max", "mean", "prod"):
                return lambda axis=None: o
            if name == "astype":
                return lambda d, **k: I.cast(_zero_d(o), I.dt_of(o), I.dtype(d))[()]
            if name in ("squeeze", "flatten", "ravel", "reshape"):
                return lambda *a, **k: I.arr_attr(I.arr(o), name)(*a, **k)
            return NotImplemented
        if isinstance(o, slice) and name in ("start", "stop", "step"):
            return getattr(o, name)
        if isinstance(o, ExcVal):
            if name == "args":
                return o.args
        if type(o).__name__ == "dict_keys":
            return NotImplemented
        if isinstance(o, Prop):
            if name == "fget":
                return o.fget
        if isinstance(o, ExcClass) and name == "__name__":
            return o.name
        if callable(o) and name == "__name__":
            return getattr(o, "__name__", "f")
        if callable(o) and name in getattr(o, "_attrs", {}):
            return o._attrs[name]
        if isinstance(o, PyIter):
            return NotImplemented
        if o is None or o is NIMPL:
            return NotImplemented
        raise Undecided(f"attribute {name} of {type(o).__name__}")

    def _pop(o, i):
        try:
            return o.pop(I.as_int(i))
        except IndexError:
            raise I.err("IndexError", "pop from empty list")

    I.native_attr = native_attr

    # -------------------------------------------------------- standard library
    def mod(name, **attrs):
        I.natives[name] = Native(name, attrs)
        return I.natives[name]

    def lst(f):
        return lambda *a, **k: GenList(f(*[I.iterate(x) for x in a], **k))

    mod(
        "itertools",
        product=lambda *a, repeat=1: GenList(itertools.product(*[I.iterate(x) for x in a], repeat=I.as_int(repeat))),
        combinations=lambda it, r: GenList(itertools.combinations(I.iterate(it), I.as_int(r))),
        combinations_with_replacement=lambda it, r: GenList(itertools.combinations_with_replacement(I.iterate(it), I.as_int(r))),
        permutations=lambda it, r=None: GenList(itertools.permutations(I.iterate(it), None if r is None else I.as_int(r))),
        chain=_with_attrs(lambda *a: GenList(itertools.chain(*[I.iterate(x) for x in a])), from_iterable=lambda it: GenList(itertools.chain(*[I.iterate(x) for x in I.iterate(it)]))),
        islice=lambda it, *a: GenList(itertools.islice(I.iterate(it), *[None if x is None else I.as_int(x) for x in a])),
        repeat=lambda x, n=None: GenList([x] * I.as_int(n)) if n is not None else _und("infinite repeat"),
        accumulate=lambda it, func=None: GenList(itertools.accumulate(I.iterate(it), (lambda a, b: I.binop("+", a, b)) if func is None else (lambda a, b: I.call(func, [a, b], {})))),
        zip_longest=lambda *a, fillvalue=None: GenList(itertools.zip_longest(*[I.iterate(x) for x in a], fillvalue=fillvalue)),
        starmap=lambda f, it: GenList(I.call(f, list(I.iterate(a)), {}) for a in I.iterate(it)),
        count=lambda *a: _und("itertools.count"),
    )

    def mcomb(n, k):
        n, k = I.as_int(n), I.as_int(k)
        try:
            return math.comb(n, k)
        except ValueError as ex:
            raise I.err("ValueError", str(ex))

    def msqrt(x):
        r = alg.sqrt(x if isinstance(x, float) else alg.R(x))
        if isinstance(r, float) and math.isnan(r):
            raise I.err("ValueError", "math domain error")
        return r

    def mfac(n):
        return math.factorial(I.as_int(n))

    mod(
        "math",
        comb=mcomb,
        sqrt=msqrt,
        factorial=mfac,
        pi=alg.PI,
        inf=INF,
        nan=NAN,
        isclose=lambda a, b, rel_tol=Rat.const(Fraction(1, 10**9)), abs_tol=0: bclose(a, b, rel_tol, abs_tol),
        ceil=lambda x: _ceil(I, x),
        floor=lambda x: _floor(I, x),
        prod=lambda it, start=1: _prod(I, it, start),
        isfinite=lambda x: not isinstance(x, float),
        isinf=lambda x: isinstance(x, float) and math.isinf(x),
        isnan=lambda x: isinstance(x, float) and math.isnan(x),
        gamma=lambda x: _gamma(I, x),
        hypot=lambda *a: alg.sqrt(sum((alg.R(x) * alg.R(x) for x in a), Rat.const(0))),
        cos=lambda x: _trig("cos", x),
        sin=lambda x: _trig("sin", x),
        tan=lambda x: _trig("tan", x),
        acos=lambda x: alg.fn("acos", [x]),
        fabs=lambda x: alg.absv(x),
        pow=lambda a, b: I.binop("**", a, b),
        isqrt=lambda n: math.isqrt(I.as_int(n)),
        gcd=lambda *a: math.gcd(*[I.as_int(x) for x in a]),
        exp=lambda x: alg.fn("exp", [x], lo=0),
        log=lambda x, *b: alg.fn("log", [x, *b]),
        fsum=lambda it: sum_(it),
    )
    nt = Native("numbers", {})
    nt.attrs["Integral"] = Native("Integral", test=lambda v: isinstance(v, int) or (isinstance(v, Rat) and integer_valued(v)))
    nt.attrs["Number"] = Native("Number", test=lambda v: isinstance(v, NUM))
    nt.attrs["Real"] = Native("Real", test=lambda v: isinstance(v, NUM))
    I.natives["numbers"] = nt

    def is_iterable(v):
        if isinstance(v, (list, tuple, set, dict, str, range, frozenset)) or type(v).__name__ == "dict_keys":
            return True
        if isinstance(v, Arr):
            return True
        if isinstance(v, PyObj):
            return v.cls.find("__iter__") is not None
        return False

    abc_attrs = {
        "Iterable": Native("Iterable", test=is_iterable),
        "Sequence": Native("Sequence", test=lambda v: isinstance(v, (list, tuple, str, range)) and not isinstance(v, GenList)),
        "Mapping": Native("Mapping", test=lambda v: isinstance(v, dict)),
        "Callable": Native("Callable", test=callable_),
        "Iterator": Native("Iterator", test=lambda v: isinstance(v, (GenList, PyIter))),
        "Sized": Native("Sized", test=lambda v: isinstance(v, (list, tuple, set, dict, str, Arr))),
        "Hashable": Native("Hashable", test=lambda v: not isinstance(v, (list, dict, set, Arr))),
    }
    I.natives["collections"] = Native("collections", {"abc": Native("collections.abc", abc_attrs), "defaultdict": lambda f=None, *a: _DD(f, *a), "OrderedDict": dict_, "Counter": lambda it=(): _counter(I, it), "namedtuple": lambda *a: _und("namedtuple"), "deque": lambda it=(), maxlen=None: list(I.iterate(it))})
    I.natives["collections.abc"] = I.natives["collections"].attrs["abc"]

    def clock(n):
        def f(*a):
            I.rng_events.append(("clock", n, I.where(), I.fname()))
            return alg.fn("clock", [], key=(n, I.where()))

        return f

    mod("time", time=clock("time"), perf_counter=clock("perf_counter"), monotonic=clock("monotonic"), time_ns=clock("time_ns"), sleep=lambda *a: None, process_time=clock("process_time"))

    def abstractmethod(f):
        g = f.fget if isinstance(f, Prop) else (f.f if isinstance(f, (ClassM, StaticM)) else f)
        g.abstract = True
        return f

    mod("abc", ABC=Native("ABC"), abstractmethod=abstractmethod, ABCMeta=Native("ABCMeta"), abstractproperty=lambda f: Prop(abstractmethod(f)))

    def dataclass(cls=None, **kw):
        if cls is None:
            return lambda c: dataclass(c, **kw)
        fields = []
        for c in reversed(cls.mro):
            for n in c.ns.get("__annotations__", []):
                d = c.ns.get(n, _MISSING)
                if isinstance(d, Native) and d.name == "field":
                    d = d.default
                fields = [f for f in fields if f[0] != n] + [(n, d)]
            # annotation-only names are recorded by x_AnnAssign
        cls.dataclass = fields
        return cls

    def field(default=_MISSING, default_factory=_MISSING, **k):
        return Native("field", default=default if default is not _MISSING else (_MISSING if default_factory is _MISSING else I.call(default_factory, [], {})))

    mod("dataclasses", dataclass=dataclass, field=field, replace=lambda o, **k: _dreplace(I, o, k), asdict=lambda o: dict(o.attrs), astuple=lambda o: tuple(o.attrs.values()))

    def reduce(f, it, *init):
        xs = I.iterate(it)
        if init:
            acc = init[0]
        else:
            if not xs:
                raise I.err("TypeError", "reduce() of empty iterable with no initial value")
            acc, xs = xs[0], xs[1:]
        for x in xs:
            acc = I.call(f, [acc, x], {})
        return acc

    def partial(f, *a, **k):
        return lambda *b, **kk: I.call(f, list(a) + list(b), {**k, **kk})

    def ident(f=None, **k):
        return f if f is not None else (lambda g: g)

    def lru(f=None, **k):
        if f is None or not isinstance(f, (Func, Bound)):
            return lambda g: lru_wrap(g)
        return lru_wrap(f)

    def lru_wrap(f):
        cache = {}

        def g(*a, **k):
            for x in list(a) + list(k.values()):
                if isinstance(x, (Arr, list, dict)):
                    raise I.err("TypeError", "unhashable type")
            key = (tuple(I.key(x) for x in a), tuple(sorted(k.items())))
            if key not in cache:
                cache[key] = I.call(f, list(a), k)
            return cache[key]

        g._func = f
        g._cache = cache
        return g

    mod("functools", reduce=reduce, partial=partial, lru_cache=lru, cache=lru, wraps=lambda f: (lambda g: g), cached_property=lambda f: CachedProp(f), total_ordering=lambda c: c, singledispatch=lambda f: f)
    mod("warnings", warn=lambda *a, **k: None, filterwarnings=lambda *a, **k: None, simplefilter=lambda *a, **k: None, catch_warnings=lambda **k: Native("ctx"))
    mod("contextlib", contextmanager=lambda f: f, suppress=lambda *a: Native("ctx"), nullcontext=lambda x=None: x)
    mod("copy", copy=lambda x: _copy(I, x), deepcopy=lambda x: _copy(I, x, True))
    mod("operator", add=lambda a, b: I.binop("+", a, b), mul=lambda a, b: I.binop("*", a, b), sub=lambda a, b: I.binop("-", a, b), matmul=lambda a, b: I.binop("@", a, b), or_=lambda a, b: I.binop("|", a, b), and_=lambda a, b: I.binop("&", a, b), itemgetter=lambda *i: (lambda o: I.getitem(o, i[0]) if len(i) == 1 else tuple(I.getitem(o, j) for j in i)), attrgetter=lambda n: (lambda o: I.getattr(o, n)), neg=lambda a: I.unop("USub", a), truediv=lambda a, b: I.binop("/", a, b), iadd=lambda a, b: I.inplace("+", a, b))

    def pathlike(*a, **k):
        return Native("Path", {"__pathlike__": True, "__getattr__": lambda n: (lambda *a, **k: Native("Path", {"__pathlike__": True}))})

    mod("pathlib", Path=Native("Path", {"__call__": pathlike}, test=lambda v: False))
    tvar = Native("typing", {"__getattr__": lambda n: Native(n, {"__getitem__": lambda i: Native("typing")}, test=lambda v: True)})
    I.natives["typing"] = tvar
    mod("enum", Enum=Native("Enum"))
    mod("types", MappingProxyType=lambda d: d)
    mod("sys", version_info=(3, 12, 3), maxsize=2**63 - 1)
    mod("os", **{"__getattr__": lambda n: Opaque("os." + n)})
    fr = Native("Fraction", {"__call__": lambda a, b=1: Rat.const(Fraction(I.as_int(a), I.as_int(b)))}, test=lambda v: isinstance(v, Rat))
    mod("fractions", Fraction=fr)

    def pyrand(n):
        def f(*a, **k):
            I.rng_events.append(("global", "random." + n, I.where(), I.fname()))
            I.counter += 1
            if n == "seed":
                return None
            return alg.new(f"grand{I.counter}", 0, 1, unit=(0, 0, 0))

        return f

    I.natives["random"] = Native("random", {"__getattr__": lambda n: pyrand(n)})
    I.natives["secrets"] = Native("secrets", {"__getattr__": lambda n: pyrand(n)})

    models_np.install(I)
    models_cp.install(I)
    models_cdd.install(I)


class PyIter:
    def __init__(self, xs):
        self.xs, self.i = list(xs), 0

    def __iter__(self):
        return iter(self.xs[self.i :])

    def __next__(self):
        self.i += 1
        if self.i > len(self.xs):
            raise StopIteration
        return self.xs[self.i - 1]


class _DD(dict):
    def __init__(self, f=None, *a):
        super().__init__(*a)
        self.default_factory = f

    __hash__ = object.__hash__


def _counter(I, it):
    d = _DD(Native("int", {"__call__": lambda: 0}))
    for x in I.iterate(it):
        d[I.key(x)] = d.get(I.key(x), 0) + 1
    return d


def _with_attrs(f, **k):
    f._attrs = k
    return f


def _und(m):
    raise Undecided(m)


def _dreplace(I, o, k):
    return I.construct(o.cls, [], {**o.attrs, **k})


def _copy(I, x, deep=False):
    if isinstance(x, Arr):
        return Arr(x.a.copy(), x.dt, x.k, x.var)
    if isinstance(x, list):
        return [_copy(I, y, deep) for y in x] if deep else list(x)
    if isinstance(x, dict):
        return {k: (_copy(I, v, deep) if deep else v) for k, v in x.items()}
    if isinstance(x, PyObj):
        o = PyObj(x.cls)
        for k, v in x.attrs.items():
            o.attrs[k] = _copy(I, v, deep) if deep else v
        return o
    if isinstance(x, tuple) and deep:
        return tuple(_copy(I, y, deep) for y in x)
    return x


def _ceil(I, x):
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        raise I.err("OverflowError", "cannot convert float infinity to integer")
    if x.is_const():
        return math.ceil(Fraction(x.value()))
    return alg.fn("ceil", [x], integer=True)


def _floor(I, x):
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        raise I.err("OverflowError", "cannot convert float infinity to integer")
    if x.is_const():
        return math.floor(Fraction(x.value()))
    return alg.fn("floor", [x], integer=True)


def _prod(I, it, start):
    s = start
    for v in I.iterate(it):
        s = I.binop("*", s, v)
    return s


def _gamma(I, x):
    """Gamma at positive integers and half-integers, exactly."""
    if isinstance(x, int):
        v = Fraction(x)
    elif isinstance(x, Rat) and x.is_const():
        v = Fraction(x.value())
    else:
        raise Undecided("gamma of a symbolic argument")
    if v.denominator == 1 and v > 0:
        return Rat.const(math.factorial(int(v) - 1))
    if v.denominator == 2 and v > 0:
        r = alg.sqrt(alg.PI)
        k = Fraction(1, 2)
        while k < v:
            r = r * Rat.const(k)
            k += 1
        return r
    raise Undecided("gamma")


def _trig(name, x):
    x = alg.R(x)
    if x.is_zero():
        return Rat.const(1 if name == "cos" else 0)
    return alg.fn(name, [x], -1 if name != "tan" else -INF, 1 if name != "tan" else INF)
