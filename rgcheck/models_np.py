"""Transfer functions for numpy (and scipy.linalg / scipy.special)."""
import itertools
import math
from fractions import Fraction

import numpy as np

from . import alg
from .alg import Rat, INF, NAN
from .cond import B, band, bor, bnot, cmp as bcmp, close as bclose
from .interp import Arr, Func, GenList, Native, Opaque, PyClass, PyObj, Raised, Undecided, sc_arith
from .models import NUM, emap, fill, integer_valued, join_dt, norm_el, _gamma, _trig, _zero_d

EPS8 = Rat.const(Fraction(1, 10**8))
EPS5 = Rat.const(Fraction(1, 10**5))


def simp(r):
    """Collapse a value whose canonical form is a small constant (e.g. det R = 1)."""
    if isinstance(r, Rat) and not r.is_const():
        if r.is_zero():
            return Rat.const(0)
        if (r - 1).is_zero():
            return Rat.const(1)
        if (r + 1).is_zero():
            return Rat.const(-1)
    return r


def ff(v):
    return norm_el(v, "f")


def install(I):
    ns = {}

    def reg(f, name=None):
        ns[name or f.__name__.rstrip("_")] = f
        return f

    A = lambda x: I.arr(x) if not (isinstance(x, Arr) and x.k == "np") else x

    def out_(a, dt):
        return I.wrap(a, dt)

    def ishape(s):
        if s is None:
            return ()
        if isinstance(s, (tuple, list)):
            return tuple(I.as_int(x) for x in s)
        if isinstance(s, Arr) and s.a.ndim == 1:
            return tuple(I.as_int(x) for x in s.a)
        if isinstance(s, Arr) and s.dt == "f":
            raise I.err("TypeError", "'float' object cannot be interpreted as an integer")
        return (sint(s),)

    def sint(s):
        if isinstance(s, (list, tuple, str)) or s is None:
            raise I.err("TypeError", "integer expected")
        k = I.as_int(s)
        return k

    def chk_shape(s):
        t = ishape(s)
        if any(k < 0 for k in t):
            raise I.err("ValueError", "negative dimensions are not allowed")
        return t

    def ax(axis, nd):
        if axis is None:
            return None
        if isinstance(axis, (tuple, list)):
            return tuple(ax(x, nd) for x in axis)
        k = I.as_int(axis)
        if not -nd <= k < nd:
            raise I.err("AxisError", f"axis {k} is out of bounds for array of dimension {nd}")
        return k % nd

    # ---------------------------------------------------------------- creation
    @reg
    def array(x, dtype=None, copy=True, ndmin=0, order=None):
        if copy is False:
            I.events.append(("np.array copy=False", I.where()))
        r = I.arr(x, dtype, copy=copy is not False) if not isinstance(x, GenList) else Arr(_zero_d(x), "o")
        while r.a.ndim < I.as_int(ndmin):
            r = Arr(r.a[None], r.dt)
        return r

    @reg
    def asarray(x, dtype=None, order=None):
        return I.arr(x, dtype)

    ns["asanyarray"] = ns["ascontiguousarray"] = ns["asfarray"] = asarray

    @reg
    def asfortranarray(x):
        return I.arr(x)

    def const_arr(v):
        def f(shape, dtype=None, order=None):
            dt = I.dtype(dtype)
            return Arr(fill(chk_shape(shape), norm_el(v if dt != "b" else bool(v), dt)), dt)

        return f

    ns["zeros"], ns["ones"] = const_arr(0), const_arr(1)

    def empty(shape, dtype=None, order=None):
        dt = I.dtype(dtype)
        a = np.empty(chk_shape(shape), dtype=object)
        o = a.reshape(-1)
        for i in range(o.size):
            I.counter += 1
            o[i] = alg.new(f"uninit{I.counter}", info={"uninit": True}) if dt != "b" else B("opq", "uninit")
        return Arr(a, dt)

    ns["empty"] = empty

    @reg
    def full(shape, v, dtype=None):
        x = A(v)
        dt = I.dtype(dtype) if dtype is not None else x.dt
        a = I.cast(x.a, x.dt, dt) if dt != x.dt else x.a
        t = np.empty(chk_shape(shape), dtype=object)
        t[...] = a if a.ndim else a[()]
        return Arr(t, dt)

    def like(v):
        def f(x, dtype=None, shape=None):
            x = A(x)
            dt = x.dt if dtype is None else I.dtype(dtype)
            return Arr(fill(x.a.shape if shape is None else chk_shape(shape), norm_el(v if dt != "b" else bool(v), dt)), dt)

        return f

    ns["zeros_like"], ns["ones_like"] = like(0), like(1)
    ns["empty_like"] = lambda x, dtype=None: empty(A(x).a.shape, dtype or A(x).dt)
    ns["full_like"] = lambda x, v, dtype=None: full(A(x).a.shape, v, dtype or Native(A(x).dt))

    @reg
    def eye(n, m=None, k=0, dtype=None):
        n = sint(n)
        m = n if m is None else sint(m)
        k = I.as_int(k)
        dt = I.dtype(dtype)
        a = np.empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                a[i, j] = norm_el(int(j - i == k), dt)
        return Arr(a, dt)

    ns["identity"] = lambda n, dtype=None: eye(n, dtype=dtype)

    @reg
    def arange(*a, dtype=None):
        a = list(a)
        if all(isinstance(x, int) or (isinstance(x, Rat) and x.is_const()) for x in a):
            fl = any(not isinstance(x, int) for x in a)
            v = [Fraction(x.value()) if isinstance(x, Rat) else x for x in a]
            lo, hi, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
            if st == 0:
                raise I.err("ValueError", "Maximum allowed size exceeded")
            n = max(0, math.ceil(Fraction(hi - lo) / st))
            if n > 5000:
                raise Undecided("large arange")
            xs = [Rat.const(lo + st * i) if fl else lo + st * i for i in range(n)]
            r = I.arr(xs)
            if not xs:
                r = Arr(np.empty(0, dtype=object), "f" if fl else "i")
            return r if dtype is None else I.arr(r, dtype)
        if len(a) == 1:
            return arange(I.as_int(a[0]), dtype=dtype)
        raise Undecided("arange with abstract bounds")

    @reg
    def linspace(start, stop, num=50, endpoint=True, dtype=None, axis=0, retstep=False):
        n = sint(num)
        if n < 0:
            raise I.err("ValueError", "Number of samples must be non-negative")
        s, e = A(start), A(stop)
        d = (n - 1) if endpoint else n
        rows = []
        for i in range(n):
            t = Rat.const(Fraction(i, d)) if d else Rat.const(0)
            rows.append(I.bcast(lambda p, q: ff(sc_arith("+", p, sc_arith("*", t, sc_arith("-", q, p, I), I), I)), (s.a, e.a)))
        if n:
            a = np.stack(rows)
        else:
            a = np.empty((0,) + np.broadcast_shapes(s.a.shape, e.a.shape), dtype=object)
        return Arr(a, "f")

    @reg
    def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
        arrs = [A(x) for x in xs]
        out = np.meshgrid(*[x.a for x in arrs], indexing=indexing)
        return [Arr(o, x.dt) for o, x in zip(out, arrs)]

    @reg
    def diag(x, k=0):
        x = A(x)
        k = I.as_int(k)
        if x.a.ndim == 1:
            n = x.a.shape[0] + abs(k)
            a = fill((n, n), norm_el(0, x.dt) if x.dt != "b" else False)
            for i, v in enumerate(x.a):
                a[(i, i + k) if k >= 0 else (i - k, i)] = v
            return Arr(a, x.dt)
        if x.a.ndim == 2:
            return Arr(np.diagonal(x.a, k).copy(), x.dt)
        raise I.err("ValueError", "Input must be 1- or 2-d.")

    ns["diagflat"] = lambda x, k=0: diag(Arr(A(x).a.reshape(-1), A(x).dt), k)

    @reg
    def diagonal(x, offset=0, axis1=0, axis2=1):
        return Arr(np.diagonal(A(x).a, I.as_int(offset), I.as_int(axis1), I.as_int(axis2)), A(x).dt)

    @reg
    def tri(n, m=None, k=0, dtype=None):
        return Arr(emap(lambda v: Rat.const(int(v)), np.tri(sint(n), None if m is None else sint(m), I.as_int(k)).astype(object)), "f")

    def tri_part(up):
        def f(x, k=0):
            x = A(x)
            k = I.as_int(k)
            a = x.a.copy()
            for idx in np.ndindex(*a.shape):
                i, j = idx[-2:]
                if (j - i < k) if up else (j - i > k):
                    a[idx] = norm_el(0, x.dt)
            return Arr(a, x.dt)

        return f

    ns["triu"], ns["tril"] = tri_part(True), tri_part(False)

    def ints(a):
        a = np.asarray(a)
        out = np.empty(a.shape, dtype=object)
        for idx in np.ndindex(*a.shape):
            out[idx] = int(a[idx])
        return Arr(out, "i")

    ns["triu_indices"] = lambda n, k=0, m=None: tuple(ints(x) for x in np.triu_indices(sint(n), I.as_int(k), None if m is None else sint(m)))
    ns["tril_indices"] = lambda n, k=0, m=None: tuple(ints(x) for x in np.tril_indices(sint(n), I.as_int(k), None if m is None else sint(m)))
    ns["triu_indices_from"] = lambda x, k=0: tuple(ints(v) for v in np.triu_indices_from(A(x).a, I.as_int(k)))
    ns["tril_indices_from"] = lambda x, k=0: tuple(ints(v) for v in np.tril_indices_from(A(x).a, I.as_int(k)))
    ns["diag_indices"] = lambda n, ndim=2: tuple(ints(x) for x in np.diag_indices(sint(n), I.as_int(ndim)))
    ns["diag_indices_from"] = lambda x: tuple(ints(v) for v in np.diag_indices_from(A(x).a))
    ns["indices"] = lambda d: ints(np.indices(ishape(d)))
    ns["ndindex"] = lambda *s: GenList(np.ndindex(*(ishape(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else ishape(s))))
    ns["ndenumerate"] = lambda x: GenList(np.ndenumerate(A(x).a))

    def ix_(*xs):
        return tuple(ints(v) for v in np.ix_(*[[I.as_int(y) for y in I.iterate(x)] for x in xs]))

    ns["ix_"] = ix_

    # ---------------------------------------------------------------- structure
    def struct(f, name=None):
        """Shape manipulation applied to the container."""

        def g(x, *a, **k):
            x = A(x)
            conv = lambda v: tuple(conv(y) for y in v) if isinstance(v, (tuple, list)) else (None if v is None else (I.as_int(v) if not isinstance(v, (str, Arr)) else (v if isinstance(v, str) else np.array([I.as_int(y) for y in v.a.reshape(-1)]).reshape(v.a.shape))))
            try:
                r = f(x.a, *[conv(v) for v in a], **{kk: conv(v) for kk, v in k.items()})
            except np.exceptions.AxisError if hasattr(np, "exceptions") else ValueError as ex:
                raise I.err("AxisError", str(ex))
            except (ValueError, IndexError, TypeError) as ex:
                raise I.err(type(ex).__name__, str(ex))
            if isinstance(r, list):
                return [Arr(v, x.dt) for v in r]
            if isinstance(r, np.ndarray) and r.ndim == 0:
                return Arr(r, x.dt)
            return Arr(r, x.dt) if isinstance(r, np.ndarray) else r

        return g

    for nm in ("squeeze", "expand_dims", "transpose", "swapaxes", "moveaxis", "ravel", "tile", "repeat", "roll", "flip", "rot90", "broadcast_to", "split", "array_split", "delete", "take", "fliplr", "flipud", "hsplit", "vsplit", "rollaxis", "resize", "trim_zeros"):
        ns[nm] = struct(getattr(np, nm))

    def reshape(x, shape, order="C", **k):
        x = A(x)
        try:
            return Arr(np.reshape(x.a, ishape(shape) if not isinstance(shape, int) else shape, order=order), x.dt)
        except ValueError as ex:
            raise I.err("ValueError", str(ex))

    ns["reshape"] = reshape

    def atleast(n):
        def f(*xs):
            out = []
            for x in xs:
                x = A(x)
                out.append(Arr({1: np.atleast_1d, 2: np.atleast_2d, 3: np.atleast_3d}[n](x.a), x.dt))
            return out[0] if len(out) == 1 else out

        return f

    for n in (1, 2, 3):
        ns[f"atleast_{n}d"] = atleast(n)

    def joiner(f):
        def g(xs, *a, dtype=None, **k):
            if isinstance(xs, Arr):
                xs = [I.arr_item(xs, i) for i in range(xs.a.shape[0])]
            elif isinstance(xs, GenList):
                raise I.err("TypeError", "arrays to stack must be passed as a sequence type such as list or tuple")
            xs = [A(x) for x in I.iterate(xs)]
            dt = join_dt({x.dt for x in xs if x.a.size} or {x.dt for x in xs})
            kk = {n: (None if v is None else I.as_int(v)) for n, v in k.items()}
            aa = [None if v is None else I.as_int(v) for v in a]
            try:
                r = f([x.a for x in xs], *aa, **kk)
            except ValueError as ex:
                raise I.err("ValueError", str(ex))
            r = emap(lambda v: I.indicator(v) if dt in "fi" and isinstance(v, (B, bool)) else v, r) if dt in "fi" else r
            if dt == "f":
                r = emap(ff, r)
            return Arr(r, dt)

        return g

    for nm in ("concatenate", "vstack", "hstack", "stack", "column_stack", "dstack"):
        ns[nm] = joiner(getattr(np, nm))
    ns["row_stack"] = ns["vstack"]
    ns["concat"] = ns["concatenate"]

    @reg
    def block(xs):
        def leaves(x):
            if isinstance(x, list):
                for y in x:
                    yield from leaves(y)
            else:
                yield A(x)

        dt = join_dt({x.dt for x in leaves(xs)})

        def rec(x):
            if isinstance(x, list):
                return [rec(y) for y in x]
            return A(x).a

        try:
            r = np.block(rec(xs))
        except ValueError as ex:
            raise I.err("ValueError", str(ex))
        return Arr(emap(ff, r) if dt == "f" else r, dt)

    @reg
    def append(x, v, axis=None):
        x, v = A(x), A(v)
        if axis is None:
            return ns["concatenate"]([Arr(x.a.reshape(-1), x.dt), Arr(v.a.reshape(-1), v.dt)])
        return ns["concatenate"]([x, v], axis=axis)

    @reg
    def insert(x, i, v, axis=None):
        x, v = A(x), A(v)
        r = np.insert(x.a, [I.as_int(y) for y in A(i).a.reshape(-1)] if A(i).a.ndim else I.as_int(i), v.a if v.a.ndim else v.a[()], axis=axis)
        dt = join_dt({x.dt, v.dt})
        return Arr(emap(ff, r) if dt == "f" else r, dt)

    # ---------------------------------------------------------------- ufuncs
    def put_out(r, out, where):
        if out is None:
            if where is not True:
                w = emap(lambda b: I.decide(b), A(where).a).astype(bool)
                ra = r.a if isinstance(r, Arr) else _zero_d(r)
                if not np.all(w):
                    base = empty(np.broadcast_shapes(ra.shape, w.shape))
                    base.a[np.broadcast_to(w, base.a.shape)] = np.broadcast_to(ra, base.a.shape)[np.broadcast_to(w, base.a.shape)]
                    return base
            return r
        if isinstance(out, tuple):
            out = out[0]
        ra, dt = (r.a, r.dt) if isinstance(r, Arr) else (_zero_d(r), I.dt_of(r))
        if out.dt == "i" and dt == "f":
            raise I.err("TypeError", "Cannot cast ufunc output from float64 to int64")
        I.note_write(out, "written through out=")
        if where is True:
            out.a[...] = ra
        else:
            w = emap(lambda b: I.decide(b), A(where).a).astype(bool)
            w = np.broadcast_to(w, out.a.shape)
            out.a[w] = np.broadcast_to(ra, out.a.shape)[w]
        return out

    def lazy_where(f2, x, y, where):
        """Elements where the mask is off are not computed."""
        x, y, w = A(x), A(y), A(where)
        wd = emap(lambda b: I.decide(b), w.a).astype(bool)
        shp = np.broadcast_shapes(x.a.shape, y.a.shape, wd.shape)
        xa, ya, wa = [np.broadcast_to(v, shp) for v in (x.a, y.a, wd)]
        r = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            r[i] = f2(xa[i], ya[i]) if wa[i] else Rat.const(0)
        return Arr(r, "f"), Arr(emap(bool, wd.astype(object)), "b")

    def ufunc2(op, red_init=None):
        def call(x, y):
            if any(isinstance(v, Arr) and v.k == "cp" for v in (x, y)):
                raise Undecided("numpy ufunc on optimisation expression")
            r = op(A(x), A(y))
            return r

        def f(x, y, out=None, where=True, dtype=None, casting=None):
            if where is not True and not (isinstance(where, bool)):
                # compute only the selected elements
                r, w = lazy_where(lambda p, q: _one(op(Arr(_zero_d(p), I.dt_of(p)), Arr(_zero_d(q), I.dt_of(q)))), x, y, where)
                return put_out(r, out, w)
            return put_out(call(x, y), out, where)

        def reduce(x, axis=0, keepdims=False, initial=None):
            x = A(x)
            return red(x, axis, keepdims, lambda vs: _fold(op, vs, red_init), x.dt)

        def outer(x, y):
            x, y = A(x), A(y)
            return op(Arr(x.a.reshape(x.a.shape + (1,) * y.a.ndim), x.dt), y)

        def accumulate(x, axis=0):
            x = A(x)
            out = []
            acc = None
            for i in range(x.a.shape[0]):
                v = I.arr_item(x, i)
                acc = v if acc is None else op(A(acc), A(v))
                out.append(acc)
            return I.arr(out)

        f._attrs = {"reduce": reduce, "outer": outer, "accumulate": accumulate}
        return f

    def _one(v):
        return v.a[()] if isinstance(v, Arr) else v

    def _fold(op, vs, init):
        if not vs:
            if init is None:
                raise I.err("ValueError", "zero-size array to reduction operation")
            return init
        s = vs[0]
        for v in vs[1:]:
            s = _one(op(Arr(_zero_d(s), I.dt_of(s)), Arr(_zero_d(v), I.dt_of(v))))
        return s

    for nm, op, init in (("add", "+", 0), ("subtract", "-", None), ("multiply", "*", 1), ("divide", "/", None), ("true_divide", "/", None), ("power", "**", None), ("floor_divide", "//", None), ("mod", "%", None), ("remainder", "%", None), ("matmul", "@", None), ("float_power", "**", None)):
        ns[nm] = ufunc2((lambda o: lambda x, y: I.np_binop(o, x, y))(op), init)
    for nm, op in (("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">="), ("equal", "=="), ("not_equal", "!=")):
        ns[nm] = ufunc2((lambda o: lambda x, y: I.np_compare(o, x, y))(op))
    ns["logical_and"] = ufunc2(lambda x, y: I.wrap(I.bcast(lambda a, b: band(I.truthy(a), I.truthy(b)), (x.a, y.a)), "b"), True)
    ns["logical_or"] = ufunc2(lambda x, y: I.wrap(I.bcast(lambda a, b: bor(I.truthy(a), I.truthy(b)), (x.a, y.a)), "b"), False)
    ns["logical_xor"] = ufunc2(lambda x, y: I.wrap(I.bcast(lambda a, b: I.binop("^", I.truthy(a), I.truthy(b)), (x.a, y.a)), "b"))
    ns["bitwise_and"] = ufunc2(lambda x, y: I.np_binop("&", x, y))
    ns["bitwise_or"] = ufunc2(lambda x, y: I.np_binop("|", x, y))

    def mm(name):
        pick = alg.maxv if name == "max" else alg.minv
        pyp = max if name == "max" else min

        def f(a, b):
            if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
                return bor(a, b) if name == "max" else band(a, b)
            if isinstance(a, int) and isinstance(b, int):
                return pyp(a, b)
            a = I.indicator(a) if isinstance(a, B) else a
            b = I.indicator(b) if isinstance(b, B) else b
            if isinstance(a, float) and isinstance(b, float):
                return NAN if math.isnan(a) or math.isnan(b) else pyp(a, b)
            if isinstance(a, float) or isinstance(b, float):
                n, o = (a, b) if isinstance(a, float) else (b, a)
                if math.isnan(n):
                    return NAN
                return n if (n > 0) == (name == "max") else ff(o)
            return pick([a, b])

        return f

    ns["maximum"] = ufunc2(lambda x, y: I.wrap(I.bcast(mm("max"), (x.a, y.a)), join_dt({x.dt, y.dt})))
    ns["minimum"] = ufunc2(lambda x, y: I.wrap(I.bcast(mm("min"), (x.a, y.a)), join_dt({x.dt, y.dt})))
    ns["fmax"], ns["fmin"] = ns["maximum"], ns["minimum"]
    ns["hypot"] = ufunc2(lambda x, y: I.wrap(I.bcast(lambda a, b: alg.sqrt(alg.R(a) * alg.R(a) + alg.R(b) * alg.R(b)), (x.a, y.a)), "f"))
    ns["arctan2"] = ufunc2(lambda x, y: I.wrap(I.bcast(lambda a, b: alg.fn("atan2", [a, b]), (x.a, y.a)), "f"))

    def ufunc1(f1, dt=None):
        def f(x, out=None, where=True, dtype=None):
            if isinstance(x, PyObj):
                raise Undecided("ufunc on object")
            if isinstance(x, Arr) and x.k == "cp":
                raise Undecided("numpy ufunc on optimisation expression")
            x = A(x)
            g = lambda v: f1(I.indicator(v) if isinstance(v, (B, bool)) and dt != "b" else v)
            if where is not True:
                w = emap(lambda b: I.decide(b), A(where).a).astype(bool)
                r = np.empty(np.broadcast_shapes(x.a.shape, w.shape), dtype=object)
                xb, wb = np.broadcast_to(x.a, r.shape), np.broadcast_to(w, r.shape)
                for i in np.ndindex(*r.shape):
                    r[i] = g(xb[i]) if wb[i] else Rat.const(0)
                return put_out(Arr(r, dt or x.dt), out, Arr(emap(bool, w.astype(object)), "b"))
            r = I.wrap(emap(g, x.a), dt or x.dt)
            return put_out(r, out, where)

        return f

    def absval(v):
        return abs(v) if isinstance(v, int) else alg.absv(v)

    ns["abs"] = ns["absolute"] = ns["fabs"] = ufunc1(absval)

    def cabs(x, *a, **k):
        if isinstance(x, Arr) and x.k == "cp":
            return I.cp_fn("abs", x)
        return ns["absolute"](x, *a, **k)

    ns["abs"] = cabs

    def sqrt1(v):
        if isinstance(v, int):
            v = Rat.const(v)
        return alg.sqrt(v)

    ns["sqrt"] = ufunc1(sqrt1, "f")
    ns["square"] = lambda x, **k: I.binop("*", x if isinstance(x, NUM) else A(x), x if isinstance(x, NUM) else A(x))
    ns["negative"] = lambda x, **k: I.unop("USub", x if isinstance(x, NUM) else A(x))
    ns["positive"] = lambda x: x
    ns["reciprocal"] = lambda x: I.binop("/", 1, x)
    ns["cbrt"] = ufunc1(lambda v: alg.power(alg.R(v), Fraction(1, 3)), "f")
    for nm in ("cos", "sin", "tan"):
        ns[nm] = ufunc1((lambda n: lambda v: _trig(n, v))(nm), "f")
    ns["exp"] = ufunc1(lambda v: Rat.const(1) if alg.R(v).is_zero() else alg.fn("exp", [v], lo=0), "f")

    def log1(v):
        if alg.R(v).is_zero():
            return -INF
        if (alg.R(v) - 1).is_zero():
            return Rat.const(0)
        return alg.fn("log", [v])

    ns["log"] = ufunc1(log1, "f")
    for nm in ("arccos", "arcsin", "arctan", "tanh", "sinh", "cosh", "log2", "log10", "log1p", "expm1"):
        ns[nm] = ufunc1((lambda n: lambda v: alg.fn(n, [v]))(nm), "f")
    ns["degrees"] = ufunc1(lambda v: alg.R(v) * 180 / alg.PI, "f")
    ns["radians"] = ns["deg2rad"] = ufunc1(lambda v: alg.R(v) * alg.PI / 180, "f")

    def rnd(name):
        def f(v):
            if isinstance(v, int) or isinstance(v, float):
                return v
            if integer_valued(v):
                return v
            if v.is_const():
                x = Fraction(v.value())
                return Rat.const({"ceil": math.ceil, "floor": math.floor, "rint": round, "trunc": math.trunc}[name](x))
            return alg.fn(name, [v], integer=True)

        return f

    for nm in ("ceil", "floor", "rint", "trunc"):
        ns[nm] = ufunc1(rnd(nm), "f")
    ns["fix"] = ns["trunc"]

    def round_(x, decimals=0):
        d = I.as_int(decimals)

        def f(v):
            if isinstance(v, (int, float)) or not v.is_const():
                return v if isinstance(v, (int, float)) else alg.fn("round", [v], key=d)
            return Rat.const(round(Fraction(v.value()), d))

        return ufunc1(f)(x)

    ns["round"] = ns["around"] = ns["round_"] = round_

    def sign1(v):
        if isinstance(v, float):
            return 1.0 if v > 0 else -1.0
        if I.decide(bcmp("==", v, 0)):
            return Rat.const(0)
        return Rat.const(1 if I.decide(bcmp(">", v, 0)) else -1)

    ns["sign"] = ufunc1(sign1)
    ns["logical_not"] = ufunc1(lambda v: bnot(I.truthy(v)), "b")
    ns["invert"] = lambda x: I.unop("Invert", A(x))
    isfin = lambda v: not isinstance(v, float)
    ns["isfinite"] = ufunc1(isfin, "b")
    ns["isnan"] = ufunc1(lambda v: isinstance(v, float) and math.isnan(v), "b")
    ns["isinf"] = ufunc1(lambda v: isinstance(v, float) and math.isinf(v), "b")
    ns["real"] = ns["conj"] = ns["conjugate"] = ns["real_if_close"] = lambda x, *a: x
    ns["imag"] = lambda x: ns["zeros_like"](x)
    ns["iscomplexobj"] = lambda x: False
    ns["isreal"] = ufunc1(lambda v: True, "b")

    def nan_to_num(x, copy=True, nan=0, posinf=None, neginf=None):
        def f(v):
            if isinstance(v, float):
                if math.isnan(v):
                    return ff(nan)
                w = posinf if v > 0 else neginf
                return ff(w) if w is not None else Rat.const(Fraction(10) ** 308 * (1 if v > 0 else -1))
            return v

        return ufunc1(f)(x)

    ns["nan_to_num"] = nan_to_num

    def isclose(a, b, rtol=EPS5, atol=EPS8, equal_nan=False):
        if any(isinstance(v, Arr) and v.k == "cp" for v in (a, b)):
            raise Undecided("isclose on optimisation expression")
        x, y = A(a), A(b)
        rt, at = A(rtol), A(atol)
        g = lambda v: I.indicator(v) if isinstance(v, (B, bool)) else v
        if "o" in (x.dt, y.dt) and not all(isinstance(v, NUM + (B,)) for v in list(x.a.reshape(-1)) + list(y.a.reshape(-1))):
            raise I.err("TypeError", "ufunc 'isfinite' not supported for the input types")
        return I.wrap(I.bcast(lambda p, q, r, t: bclose(g(p), g(q), r, t, equal_nan), (x.a, y.a, rt.a, at.a)), "b")

    reg(isclose)

    @reg
    def allclose(a, b, rtol=EPS5, atol=EPS8, equal_nan=False):
        r = isclose(a, b, rtol, atol, equal_nan)
        if isinstance(r, Arr):
            return band(*[I.truthy(v) for v in r.a.reshape(-1)])
        return r

    @reg
    def array_equal(a, b, equal_nan=False):
        x, y = A(a), A(b)
        if x.a.shape != y.a.shape:
            return False
        return band(*[I.truthy(I.compare("==", p, q)) for p, q in zip(x.a.reshape(-1), y.a.reshape(-1))])

    @reg
    def clip(x, lo=None, hi=None, out=None, **k):
        r = x
        if lo is not None:
            r = ns["maximum"](r, lo)
        if hi is not None:
            r = ns["minimum"](r, hi)
        return put_out(r, out, True)

    @reg
    def where(c, *xy):
        if not xy:
            return nonzero(c)
        c, x, y = A(c), A(xy[0]), A(xy[1])
        dt = join_dt({x.dt, y.dt})
        f = lambda p, q, r: norm_el(q if I.decide(p) else r, dt)
        return I.wrap(I.bcast(f, (c.a, x.a, y.a)), dt)

    @reg
    def select(conds, choices, default=0):
        r = A(default)
        for c, v in reversed(list(zip(conds, choices))):
            r = A(where(c, v, r))
        return r

    # ---------------------------------------------------------------- reductions
    def red(x, axis, keepdims, f, dt):
        if axis is None:
            v = f(list(x.a.reshape(-1)))
            if keepdims:
                return Arr(fill((1,) * x.a.ndim, v), dt)
            return v
        axes = ax(axis, x.a.ndim)
        axes = axes if isinstance(axes, tuple) else (axes,)
        rest = [i for i in range(x.a.ndim) if i not in axes]
        a = np.transpose(x.a, rest + list(axes)).reshape([x.a.shape[i] for i in rest] + [-1 if x.a.size else int(np.prod([x.a.shape[i] for i in axes]))])
        out = np.empty(a.shape[:-1], dtype=object)
        for idx in np.ndindex(*out.shape):
            out[idx] = f(list(a[idx]))
        if keepdims:
            out = out.reshape([1 if i in axes else x.a.shape[i] for i in range(x.a.ndim)])
        return I.wrap(out, dt)

    def add_all(vs, dt):
        s = 0 if dt != "f" else Rat.const(0)
        for v in vs:
            s = I.binop("+", s, v) if not isinstance(v, (B, bool)) else I.binop("+", s, I.indicator(v))
        return s

    @reg
    def sum_(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if isinstance(x, GenList):
            s = 0
            for v in x:
                s = I.binop("+", s, v)
            return s
        x = A(x)
        if where is not True:
            m = np.broadcast_to(A(where).a, x.a.shape)
            x = Arr(I.bcast(lambda v, b: v if I.decide(b) else norm_el(0, x.dt), (x.a, m)), x.dt)
        dt = "i" if x.dt == "b" else x.dt
        r = red(x, axis, keepdims, lambda vs: add_all(vs, dt), dt)
        if initial is not None:
            r = I.binop("+", r, initial)
        return put_out(r, out, True)

    ns["nansum"] = sum_

    @reg
    def prod(x, axis=None, dtype=None, keepdims=False):
        x = A(x)
        dt = "i" if x.dt == "b" else x.dt

        def f(vs):
            s = 1 if dt != "f" else Rat.const(1)
            for v in vs:
                s = I.binop("*", s, v)
            return s

        return red(x, axis, keepdims, f, dt)

    @reg
    def mean(x, axis=None, dtype=None, keepdims=False):
        x = A(x)

        def f(vs):
            if not vs:
                return NAN
            return ff(sc_arith("/", add_all(vs, x.dt), len(vs), I))

        return red(x, axis, keepdims, f, "f")

    @reg
    def median(x, axis=None, keepdims=False):
        x = A(x)

        def f(vs):
            if not vs:
                return NAN
            if len(vs) > 3:
                vs = [vs[j] for j in order(vs)]
                vs = vs[(len(vs) - 1) // 2: len(vs) // 2 + 1]
            if len(vs) == 3:
                rs = [alg.R(v) for v in vs]
                return rs[0] + rs[1] + rs[2] - alg.maxv(rs) - alg.minv(rs)
            return ff(sc_arith("/", add_all(vs, x.dt), len(vs), I))

        return red(x, axis, keepdims, f, "f")

    @reg
    def average(x, axis=None, weights=None, returned=False):
        if weights is None:
            return mean(x, axis)
        x, w = A(x), A(weights)
        if w.a.shape != x.a.shape:
            k = ax(0 if axis is None else axis, x.a.ndim)
            shp = [1] * x.a.ndim
            shp[k] = w.a.size
            w = Arr(np.broadcast_to(w.a.reshape(shp), x.a.shape), w.dt)
        return I.binop("/", sum_(I.np_binop("*", x, w), axis), sum_(w, axis))

    @reg
    def var(x, axis=None, ddof=0, keepdims=False):
        x = A(x)
        m = mean(x, axis, keepdims=True)
        d = I.np_binop("-", x, m)
        d = A(d)
        n = x.a.size if axis is None else x.a.shape[ax(axis, x.a.ndim)]
        return I.binop("/", sum_(I.np_binop("*", d, d), axis, keepdims=keepdims), n - I.as_int(ddof))

    ns["std"] = lambda x, axis=None, ddof=0: ns["sqrt"](var(x, axis, ddof))

    @reg
    def cov(x, y=None, rowvar=True, bias=False, ddof=None, aweights=None):
        raise Undecided("np.cov")

    def extremum(name):
        def f(x, axis=None, out=None, keepdims=False, initial=None):
            if isinstance(x, Arr) and x.k == "cp":
                raise Undecided("numpy extremum of an optimisation expression")
            x = A(x)

            def g(vs):
                if initial is not None:
                    vs = vs + [initial]
                if not vs:
                    raise I.err("ValueError", "zero-size array to reduction operation has no identity")
                if all(isinstance(v, int) and not isinstance(v, bool) for v in vs):
                    return (max if name == "max" else min)(vs)
                if any(isinstance(v, (B, bool)) for v in vs):
                    return (bor if name == "max" else band)(*vs)
                if any(isinstance(v, float) and math.isnan(v) for v in vs):
                    return NAN
                if all(isinstance(v, float) for v in vs):
                    return (max if name == "max" else min)(vs)
                return (alg.maxv if name == "max" else alg.minv)(vs)

            return red(x, axis, keepdims, g, x.dt)

        return f

    ns["max"] = ns["amax"] = ns["nanmax"] = extremum("max")
    ns["min"] = ns["amin"] = ns["nanmin"] = extremum("min")
    ns["ptp"] = lambda x, axis=None: I.binop("-", ns["max"](x, axis), ns["min"](x, axis))

    def anyall(name):
        f0 = bor if name == "any" else band

        def f(x, axis=None, out=None, keepdims=False):
            x = A(x)
            return red(x, axis, keepdims, lambda vs: f0(*[I.truthy(v) if not isinstance(v, PyObj) else True for v in vs]), "b")

        return f

    ns["any"], ns["all"] = anyall("any"), anyall("all")
    ns["sometrue"], ns["alltrue"] = ns["any"], ns["all"]

    def arg(name):
        def f(x, axis=None):
            x = A(x)

            def g(vs):
                if not vs:
                    raise I.err("ValueError", "attempt to get argmax of an empty sequence")
                b = 0
                for i in range(1, len(vs)):
                    p, q = vs[i], vs[b]
                    if isinstance(p, (B, bool)):
                        # True > False
                        c = band(p, bnot(q)) if name == "argmax" else band(bnot(p), q)
                    else:
                        c = I.compare(">" if name == "argmax" else "<", p, q)
                    if I.decide(c):
                        b = i
                return b

            return red(x, axis, False, g, "i")

        return f

    ns["argmax"], ns["argmin"] = arg("argmax"), arg("argmin")

    @reg
    def cumsum(x, axis=None, dtype=None):
        return _cum(x, axis, "+")

    ns["cumprod"] = lambda x, axis=None: _cum(x, axis, "*")

    def _cum(x, axis, op):
        x = A(x)
        a = x.a.reshape(-1).copy() if axis is None else np.moveaxis(x.a.copy(), ax(axis, x.a.ndim), 0)
        for i in range(1, a.shape[0]):
            if a.ndim == 1:
                a[i] = I.binop(op, a[i - 1], a[i])
            else:
                a[i] = I.bcast(lambda p, q: I.binop(op, p, q), (a[i - 1], a[i]))
        if axis is not None:
            a = np.moveaxis(a, 0, ax(axis, x.a.ndim))
        return Arr(a, "i" if x.dt == "b" else x.dt)

    @reg
    def diff(x, n=1, axis=-1):
        x = A(x)
        a = np.moveaxis(x.a, ax(axis, x.a.ndim), -1)
        for _ in range(I.as_int(n)):
            a = I.bcast(lambda p, q: I.binop("-", p, q), (a[..., 1:], a[..., :-1]))
        return Arr(np.moveaxis(a, -1, ax(axis, x.a.ndim)), x.dt)

    def nonzero(x):
        x = A(x)
        m = emap(lambda v: I.decide(v), x.a).astype(bool)
        return tuple(ints(v) for v in np.nonzero(m))

    reg(nonzero)
    ns["flatnonzero"] = lambda x: nonzero(Arr(A(x).a.reshape(-1), A(x).dt))[0]
    ns["argwhere"] = lambda x: Arr(np.transpose([v.a for v in nonzero(x)]).reshape(-1, A(x).a.ndim), "i")

    @reg
    def count_nonzero(x, axis=None, keepdims=False):
        x = A(x)
        return red(x, axis, keepdims, lambda vs: add_all([I.indicator(I.truthy(v)) for v in vs], "i"), "i")

    def order(vs):
        idx = []
        for i, v in enumerate(vs):
            j = len(idx)
            while j > 0 and I.decide(I.compare("<", v, vs[idx[j - 1]])):
                j -= 1
            idx.insert(j, i)
        return idx

    @reg
    def argsort(x, axis=-1, kind=None):
        x = A(x)
        a = np.moveaxis(x.a, ax(axis, x.a.ndim), -1)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-1]):
            out[i] = order(list(a[i]))
        return Arr(np.moveaxis(out, -1, ax(axis, x.a.ndim)), "i")

    @reg
    def sort(x, axis=-1, kind=None):
        x = A(x)
        a = np.moveaxis(x.a, ax(axis, x.a.ndim), -1)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-1]):
            vs = list(a[i])
            out[i] = [vs[j] for j in order(vs)]
        return Arr(np.moveaxis(out, -1, ax(axis, x.a.ndim)), x.dt)

    @reg
    def unique(x, axis=None, return_index=False, return_inverse=False, return_counts=False):
        x = A(x)
        if axis is not None or return_index or return_inverse or return_counts:
            raise Undecided("np.unique options")
        vs = []
        for v in x.a.reshape(-1):
            if not any(I.decide(I.compare("==", v, w)) for w in vs):
                vs.append(v)
        return Arr(I.arr([vs[j] for j in order(vs)]).a, x.dt)

    @reg
    def searchsorted(x, v, side="left"):
        x = A(x)

        def f(t):
            k = 0
            for y in x.a:
                if I.decide(I.compare("<" if side == "left" else "<=", y, t)):
                    k += 1
                else:
                    break
            return k

        v = A(v)
        return I.wrap(emap(f, v.a), "i")

    # ---------------------------------------------------------------- products
    @reg
    def dot(x, y):
        if any(isinstance(v, Arr) and v.k == "cp" for v in (x, y)):
            return I.np_binop("@", x, y)
        x, y = A(x), A(y)
        if x.a.ndim == 0 or y.a.ndim == 0:
            return I.np_binop("*", x, y)
        if x.a.ndim > 2 or y.a.ndim > 2:
            raise Undecided("dot of high-rank arrays")
        return I.matmul(x, y)

    @reg
    def inner(x, y):
        x, y = A(x), A(y)
        if x.a.ndim == 0 or y.a.ndim == 0:
            return I.np_binop("*", x, y)
        return I.matmul(x, Arr(y.a.T, y.dt) if y.a.ndim > 1 else y)

    ns["vdot"] = lambda x, y: I.matmul(Arr(A(x).a.reshape(-1), A(x).dt), Arr(A(y).a.reshape(-1), A(y).dt))

    @reg
    def outer(x, y, out=None):
        x, y = A(x), A(y)
        return I.np_binop("*", Arr(x.a.reshape(-1, 1), x.dt), Arr(y.a.reshape(1, -1), y.dt))

    @reg
    def trace(x, offset=0, axis1=0, axis2=1):
        if isinstance(x, Arr) and x.k == "cp":
            raise Undecided("np.trace of an optimisation expression")
        x = A(x)
        if x.a.ndim < 2:
            raise I.err("ValueError", "diag requires an array of at least two dimensions")
        d = np.diagonal(x.a, I.as_int(offset), I.as_int(axis1), I.as_int(axis2))
        return sum_(Arr(d, x.dt), axis=-1)

    @reg
    def cross(x, y, axis=-1):
        x, y = A(x), A(y)
        if x.a.shape[-1] != 3 or y.a.shape[-1] != 3:
            if x.a.shape[-1] not in (2, 3) or y.a.shape[-1] not in (2, 3):
                raise I.err("ValueError", "incompatible dimensions for cross product")
            raise Undecided("2-d cross product")
        c = lambda z, i: Arr(z.a[..., i], z.dt)
        m = lambda p, q: A(I.np_binop("*", p, q))
        parts = []
        for i, j in ((1, 2), (2, 0), (0, 1)):
            parts.append(A(I.np_binop("-", m(c(x, i), c(y, j)), m(c(x, j), c(y, i)))))
        return ns["stack"](parts, axis=-1)

    @reg
    def kron(x, y):
        x, y = A(x), A(y)
        if x.a.ndim != 2 or y.a.ndim != 2:
            raise Undecided("kron of non-matrices")
        t = I.np_binop("*", Arr(x.a[:, None, :, None], x.dt), Arr(y.a[None, :, None, :], y.dt))
        return Arr(t.a.reshape(x.a.shape[0] * y.a.shape[0], -1), t.dt)

    @reg
    def tensordot(x, y, axes=2):
        x, y = A(x), A(y)
        if isinstance(axes, (tuple, list)):
            a, b = axes
            a = [I.as_int(v) for v in (a if isinstance(a, (tuple, list)) else [a])]
            b = [I.as_int(v) for v in (b if isinstance(b, (tuple, list)) else [b])]
        else:
            n = I.as_int(axes)
            a, b = list(range(x.a.ndim - n, x.a.ndim)), list(range(n))
        a = [v % x.a.ndim for v in a]
        b = [v % y.a.ndim for v in b]
        ra = [i for i in range(x.a.ndim) if i not in a]
        rb = [i for i in range(y.a.ndim) if i not in b]
        k = int(np.prod([x.a.shape[i] for i in a]))
        xa = np.transpose(x.a, ra + a).reshape(-1, k)
        yb = np.transpose(y.a, b + rb).reshape(k, -1)
        r = I.mm2(xa, yb).reshape([x.a.shape[i] for i in ra] + [y.a.shape[i] for i in rb])
        return I.wrap(emap(ff, r), "f")

    @reg
    def einsum(spec, *xs, optimize=None, **k):
        spec = spec.replace(" ", "")
        if "." in spec:
            raise Undecided("einsum ellipsis")
        if "->" in spec:
            ins, outs = spec.split("->")
        else:
            ins = spec
            allc = ins.replace(",", "")
            outs = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
        ins = ins.split(",")
        xs = [A(x) for x in xs]
        dims = {}
        for s, x in zip(ins, xs):
            if len(s) != x.a.ndim:
                raise I.err("ValueError", "einstein sum subscripts do not match the operand's number of dimensions")
            for c, d in zip(s, x.a.shape):
                if dims.setdefault(c, d) != d:
                    raise I.err("ValueError", "operands could not be broadcast together in einsum")
        summed = [c for c in dims if c not in outs]
        out = np.empty([dims[c] for c in outs], dtype=object)
        for oi in np.ndindex(*out.shape):
            env = dict(zip(outs, oi))
            s = Rat.const(0)
            for si in itertools.product(*[range(dims[c]) for c in summed]):
                env.update(zip(summed, si))
                t = Rat.const(1)
                for sp, x in zip(ins, xs):
                    t = sc_arith("*", t, x.a[tuple(env[c] for c in sp)], I)
                s = sc_arith("+", s, t, I)
            out[oi] = s
        return I.wrap(out, "f")

    # ---------------------------------------------------------------- misc
    def isscalar(x):
        return isinstance(x, NUM + (B, bool, str)) or isinstance(x, Fraction)

    reg(isscalar)
    ns["ndim"] = lambda x: len(I.shape_of(x)) if not isinstance(x, Arr) else x.a.ndim
    ns["shape"] = lambda x: I.shape_of(x)

    def size(x, axis=None):
        s = I.shape_of(x)
        return int(np.prod(s)) if axis is None else s[I.as_int(axis)]

    reg(size)
    ns["copy"] = lambda x, **k: I.arr(x, copy=True)
    ns["fill_diagonal"] = lambda x, v, wrap=False: _fill_diag(x, v)

    def _fill_diag(x, v):
        I.note_write(x, "diagonal filled in place")
        va = A(v)
        for i in range(min(x.a.shape)):
            x.a[i, i] = norm_el(va.a[()] if va.a.ndim == 0 else va.a.reshape(-1)[i], x.dt)

    def copyto(dst, src, where=True):
        return put_out(A(src), dst, where)

    reg(copyto)

    def putmask(x, m, v):
        I.setitem(x, A(m), v)

    reg(putmask)
    ns["broadcast_arrays"] = lambda *xs: [Arr(b, A(x).dt) for b, x in zip(np.broadcast_arrays(*[A(x).a for x in xs]), xs)]

    def broadcast_shapes(*ss):
        try:
            return np.broadcast_shapes(*[ishape(s) for s in ss])
        except ValueError as ex:
            raise I.err("ValueError", str(ex))

    reg(broadcast_shapes)
    ns["fromiter"] = lambda it, dtype=None, count=-1: I.arr(list(I.iterate(it)), dtype)
    ns["vectorize"] = lambda f, **k: (lambda *xs: _vec(f, xs))

    def _vec(f, xs):
        xs = [A(x) for x in xs]
        r = I.bcast(lambda *v: I.call(f, list(v), {}), [x.a for x in xs])
        return I.wrap(r, join_dt({I.dt_of(v) for v in r.reshape(-1)})) if r.ndim else r[()]

    @reg
    def apply_along_axis(f, axis, x, *a, **k):
        x = A(x)
        m = np.moveaxis(x.a, ax(axis, x.a.ndim), -1)
        out = {}
        for i in np.ndindex(*m.shape[:-1]):
            out[i] = A(I.call(f, [Arr(m[i].copy(), x.dt)] + list(a), k)).a
        first = next(iter(out.values()))
        r = np.empty(m.shape[:-1] + first.shape, dtype=object)
        for i, v in out.items():
            r[i] = v if v.ndim else v[()]
        if first.ndim:
            r = np.moveaxis(r, -1, ax(axis, x.a.ndim))
        return I.wrap(r, "f")

    for nm in ("set_printoptions", "seterr", "savez", "save", "savetxt"):
        ns[nm] = lambda *a, **k: None
    ns["errstate"] = lambda **k: Native("ctx")
    ns["printoptions"] = lambda **k: Native("ctx")
    for nm in ("load", "loadtxt", "genfromtxt"):
        ns[nm] = lambda *a, **k: Opaque("np.load")
    ns["inf"], ns["nan"], ns["pi"], ns["newaxis"] = INF, NAN, alg.PI, None
    ns["Inf"] = ns["Infinity"] = ns["infty"] = INF
    ns["e"] = alg.fn("exp", [Rat.const(1)], lo=0)

    eps_atom = Rat.const(Fraction(1, 2**52))
    ns["finfo"] = lambda t=None: Native("finfo", {"eps": eps_atom, "max": Rat.const(Fraction(10) ** 308), "tiny": Rat.const(Fraction(1, 10**307)), "min": Rat.const(-Fraction(10) ** 308), "resolution": Rat.const(Fraction(1, 10**15))})
    ns["iinfo"] = lambda t=None: Native("iinfo", {"max": 2**63 - 1, "min": -(2**63)})

    # types
    def ctor(dt):
        def f(x=0):
            a = A(x)
            r = I.cast(a.a, a.dt, dt)
            return r[()] if r.ndim == 0 else Arr(r, dt)

        return f

    tests = {
        "ndarray": lambda v: isinstance(v, Arr) and v.k == "np",
        "generic": lambda v: False,
        "number": lambda v: isinstance(v, NUM),
        "integer": lambda v: (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, Rat) and integer_valued(v)),
        "floating": lambda v: isinstance(v, (float, Rat)),
        "bool_": lambda v: isinstance(v, (bool, B)),
        "float64": lambda v: isinstance(v, (float, Rat)),
        "float32": lambda v: False,
        "int64": lambda v: isinstance(v, int) and not isinstance(v, bool),
        "int32": lambda v: False,
        "intp": lambda v: isinstance(v, int),
        "object_": lambda v: False,
        "uint8": lambda v: False,
        "complex128": lambda v: False,
        "complexfloating": lambda v: False,
        "int_": lambda v: isinstance(v, int),
        "double": lambda v: isinstance(v, (float, Rat)),
        "dtype": lambda v: isinstance(v, Native) and v.name in ("float64", "int64", "bool", "object"),
        "RandomState": lambda v: False,
    }
    np_types = {}
    for n, t in tests.items():
        c = {"__name__": n}
        if n.startswith(("float", "double")):
            c["__call__"] = ctor("f")
        elif n.startswith("int"):
            c["__call__"] = ctor("i")
        elif n.startswith("bool"):
            c["__call__"] = ctor("b")
        np_types[n] = Native(n, c, test=t)
        ns[n] = np_types[n]
    I.np_types = np_types
    dts = {}

    def np_dtype(dt):
        if dt not in dts:
            nm = {"f": "float64", "i": "int64", "b": "bool", "o": "object"}[dt]
            dts[dt] = Native(nm, {"kind": {"o": "O"}.get(dt, dt), "name": nm, "type": np_types.get(nm)}, test=lambda v: False)
        return dts[dt]

    I.np_dtype = np_dtype
    np_types["dtype"].attrs["__call__"] = lambda d: np_dtype(I.dtype(d))

    def issubdtype(d, t):
        k = I.dtype(d)
        n = getattr(t, "name", str(t))
        return {"floating": k == "f", "integer": k == "i", "number": k in "fi", "bool_": k == "b", "float64": k == "f", "int64": k == "i", "float": k == "f", "int": k == "i", "object_": k == "o", "inexact": k == "f"}.get(n, False)

    reg(issubdtype)
    ns["result_type"] = lambda *xs: np_dtype(join_dt({A(x).dt if not isinstance(x, Native) else I.dtype(x) for x in xs}))
    ns["promote_types"] = lambda a, b: np_dtype(join_dt({I.dtype(a), I.dtype(b)}))
    ns["inexact"] = ns["floating"]
    ns["signedinteger"] = ns["integer"]

    # ---------------------------------------------------------------- linalg
    la = {}

    def square(x, what):
        x = A(x)
        if x.a.ndim != 2 or x.a.shape[0] != x.a.shape[1]:
            raise I.err("LinAlgError", f"{what}: last 2 dimensions of the array must be square")
        return x

    def minor(a, i, j):
        return np.delete(np.delete(a, i, 0), j, 1)

    def det_(a):
        n = a.shape[0]
        if n == 0:
            return Rat.const(1)
        if n == 1:
            return ff(a[0, 0])
        if n > 6:
            raise Undecided("determinant of a large abstract matrix")
        # expand along the row with most zeros
        z = lambda v: (isinstance(v, Rat) and v.is_zero()) or (isinstance(v, int) and v == 0)
        i = max(range(n), key=lambda r: sum(z(v) for v in a[r]))
        s = Rat.const(0)
        for j in range(n):
            if z(a[i, j]):
                continue
            t = sc_arith("*", a[i, j], det_(minor(a, i, j)), I)
            s = sc_arith("+" if (i + j) % 2 == 0 else "-", s, t, I)
        return s

    def has_nonfinite(a):
        return any(isinstance(v, float) for v in a.reshape(-1))

    def det(x):
        x = square(x, "det")
        return simp(det_(x.a))

    def inv_(x):
        a = x.a
        n = a.shape[0]
        if has_nonfinite(a):
            return emap(lambda v: NAN, a)
        hook = I.scenario.get("inv")
        if hook is not None:
            r = hook(a)
            if r is not None:
                return r
        if n > 5:
            raise Undecided("inverse of a large abstract matrix")
        d = simp(det_(a))
        if d.is_zero():
            raise I.err("LinAlgError", "Singular matrix")
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                c = det_(minor(a, i, j)) if n > 1 else Rat.const(1)
                out[j, i] = c / d if (i + j) % 2 == 0 else -c / d
        return out

    def inv(x):
        x = square(x, "inv")
        return Arr(inv_(x), "f")

    def solve(a, b):
        a = square(a, "solve")
        b = A(b)
        if b.a.shape[0] != a.a.shape[0]:
            raise I.err("ValueError", "solve: mismatch in core dimension")
        I.records.append(("solve", a, b, I.where()))
        return I.matmul(inv(a), b)

    def norm(x, ord=None, axis=None, keepdims=False):
        if isinstance(x, Arr) and x.k == "cp":
            raise Undecided("np.linalg.norm of an optimisation expression")
        x = A(x)
        if ord in ("fro",):
            ord = None
        if isinstance(ord, Rat) and ord.is_const():
            ord = int(ord.value()) if Fraction(ord.value()).denominator == 1 else ord
        if x.a.ndim == 2 and axis is None and ord is not None:
            raise Undecided("matrix norm")
        sq = lambda v: alg.R(v) * alg.R(v)

        def f(vs):
            if any(isinstance(v, float) for v in vs):
                return NAN if any(isinstance(v, float) and math.isnan(v) for v in vs) else INF
            if ord is None or ord == 2:
                return alg.sqrt(sum((sq(v) for v in vs), Rat.const(0)))
            if ord == 1:
                return sum((alg.absv(alg.R(v)) for v in vs), Rat.const(0))
            if isinstance(ord, float) and ord == INF:
                return alg.maxv([alg.absv(alg.R(v)) for v in vs])
            if isinstance(ord, float) and ord == -INF:
                return alg.minv([alg.absv(alg.R(v)) for v in vs])
            raise Undecided("norm order")

        return red(x, axis, keepdims, f, "f")

    def el_unit(a):
        try:
            us = {alg.unit(v) for v in a.reshape(-1) if isinstance(v, Rat)} - {None}
            return us.pop() if len(us) == 1 else None
        except alg.UnitError:
            return None

    def mkey(a):
        return tuple(v.fp() if isinstance(v, Rat) else (repr(v),) for v in [ff(t) for t in a.reshape(-1)])

    EIG = I.eig_cache = {}

    def eig(x, what):
        x = square(x, what)
        if has_nonfinite(x.a):
            raise I.err("LinAlgError", "Array must not contain infs or NaNs")
        hook = I.scenario.get("eig")
        if hook is not None:
            r = hook(x)
            if r is not None:
                w, V = r
                I.records.append(("eigh", x, w, V, I.where()))
                return w, V
        n = x.a.shape[0]
        key = (n, mkey(x.a))
        if key not in EIG:
            k = len(EIG)
            u = el_unit(x.a)
            w = np.empty(n, dtype=object)
            for i in range(n):
                w[i] = alg.new(f"eig{k}_{i}", unit=u, info={"eig": key})
            V = np.empty((n, n), dtype=object)
            V[...] = alg.Rotation(f"V{k}_", n, derived=True).matrix() if n > 1 else [[Rat.const(1)]]
            EIG[key] = (w, V)
        w, V = EIG[key]
        W, VV = Arr(w.copy(), "f"), Arr(V.copy(), "f")
        I.records.append(("eigh", x, W, VV, I.where()))
        return W, VV

    la["eigh"] = lambda x, UPLO="L": eig(x, "eigh")
    la["eig"] = lambda x: eig(x, "eig")
    la["eigvals"] = lambda x: eig(x, "eigvals")[0]
    la["eigvalsh"] = lambda x, UPLO="L": eig(x, "eigvalsh")[0]
    la["det"], la["inv"], la["solve"], la["norm"] = det, inv, solve, norm

    def slogdet(x):
        d = det(x)
        return (ns["sign"](d), ns["log"](ns["abs"](d)))

    la["slogdet"] = slogdet

    def lstsq(a, b, rcond=None):
        a, b = A(a), A(b)
        I.records.append(("lstsq", a, b, I.where()))
        I.events.append(("rcond", "lstsq", rcond))
        if a.a.ndim != 2:
            raise I.err("LinAlgError", "lstsq: 2-dimensional array required")
        if a.a.shape[0] != b.a.shape[0]:
            raise I.err("LinAlgError", "Incompatible dimensions")
        if has_nonfinite(a.a) or has_nonfinite(b.a):
            raise I.err("LinAlgError", "SVD did not converge")
        hook = I.scenario.get("inv")
        r = hook(a.a) if hook is not None and a.a.shape[0] == a.a.shape[1] else None
        if r is not None:
            x = I.matmul(Arr(r, "f"), b)
        elif a.a.shape[0] == a.a.shape[1] and a.a.shape[0] <= 4 and not simp(det_(a.a)).is_zero():
            x = I.matmul(inv(a), b)
        else:
            At = Arr(a.a.T, a.dt)
            N = I.matmul(At, a)
            if N.a.shape[0] > 4 or simp(det_(N.a)).is_zero():
                raise Undecided("rank-deficient least squares")
            x = I.matmul(I.matmul(inv(N), At), b)
        return (x, Opaque("residuals"), Opaque("rank"), Opaque("sv"))

    la["lstsq"] = lstsq

    def pinv(a, rcond=None, hermitian=False, rtol=None):
        a = A(a)
        if a.a.shape[0] == a.a.shape[1] and a.a.shape[0] <= 4 and not has_nonfinite(a.a) and not simp(det_(a.a)).is_zero():
            return inv(a)
        raise Undecided("pseudo-inverse")

    la["pinv"] = pinv

    def cholesky(x, lower=True):
        x = square(x, "cholesky")
        n = x.a.shape[0]
        L = fill((n, n), Rat.const(0))
        for i in range(n):
            for j in range(i + 1):
                s = alg.R(x.a[i, j])
                for k in range(j):
                    s = s - L[i, k] * L[j, k]
                L[i, j] = alg.sqrt(s) if i == j else s / L[j, j]
        return Arr(L, "f")

    la["cholesky"] = cholesky
    la["matrix_rank"] = lambda x, *a, **k: _rank(x)

    def _rank(x):
        x = A(x)
        M = emap(lambda v: v, x.a)
        if not all(isinstance(ff(v), Rat) and ff(v).is_const() for v in M.reshape(-1)):
            raise Undecided("rank of an abstract matrix")
        return int(np.linalg.matrix_rank(np.array([[float(ff(v).value()) for v in r] for r in np.atleast_2d(M)])))

    def matrix_power(x, n):
        n = I.as_int(n)
        x = square(x, "matrix_power")
        if n < 0:
            x, n = inv(x), -n
        r = eye(x.a.shape[0])
        for _ in range(n):
            r = I.matmul(r, x)
        return r

    la["matrix_power"] = matrix_power

    def multi_dot(xs):
        r = xs[0]
        for x in xs[1:]:
            r = I.np_binop("@", r, x)
        return r

    la["multi_dot"] = multi_dot

    def svd(x, full_matrices=True, compute_uv=True, **k):
        x = A(x)
        n, m = x.a.shape
        r = min(n, m)
        key = ("svd", n, m, mkey(x.a))
        if key not in EIG:
            k0 = len(EIG)
            u = el_unit(x.a)
            s = np.empty(r, dtype=object)
            for i in range(r):
                s[i] = alg.new(f"sv{k0}_{i}", 0, unit=u, strict=True, info={"eig": key})
            U = np.empty((n, n), dtype=object)
            U[...] = alg.Rotation(f"U{k0}_", n, derived=True).matrix() if n > 1 else [[Rat.const(1)]]
            V = np.empty((m, m), dtype=object)
            V[...] = alg.Rotation(f"W{k0}_", m, derived=True).matrix() if m > 1 else [[Rat.const(1)]]
            EIG[key] = (U, s, V)
        U, s, V = EIG[key]
        I.records.append(("svd", x, Arr(U, "f"), Arr(s, "f"), Arr(V, "f")))
        if not compute_uv:
            return Arr(s.copy(), "f")
        if not full_matrices:
            return (Arr(U[:, :r].copy(), "f"), Arr(s.copy(), "f"), Arr(V[:r].copy(), "f"))
        return (Arr(U.copy(), "f"), Arr(s.copy(), "f"), Arr(V.copy(), "f"))

    la["svd"] = svd
    la["LinAlgError"] = Native("LinAlgError")
    ns["linalg"] = Native("numpy.linalg", {**la, "__getattr__": lambda n: _missing("numpy.linalg", np.linalg, n)})

    def _missing(label, mod, n):
        if hasattr(mod, n):
            raise Undecided(f"{label}.{n} is not modelled")
        raise I.err("AttributeError", f"module '{label}' has no attribute {n!r}")

    # ---------------------------------------------------------------- random
    def draw_atom(gen, lo=-INF, hi=INF, what="u", info=None, integer=False):
        gen.pos += 1
        key = ("draw", gen.prov, gen.pos, str(lo), str(hi), what)
        return Rat.atom(alg._intern(key, lambda: alg.Atom(f"{what}<{gen.prov[0]}:{gen.pos}>", "var", lo, hi, unit=(0, 0, 0), info={"draw": (gen.prov, gen.pos), "law": what, **(info or {})}, integer=integer)))

    def note(gen, what):
        I.rng_events.append(("draw", gen.prov, what, I.where(), I.fname(), gen.pos))

    def gshape(size):
        t = chk_shape(size) if size is not None else None
        if t is not None and int(np.prod(t)) > 3000:
            raise Undecided("large sample")
        return t

    def sampler(gen, what, one, size, *params):
        """one(p...) -> element; params broadcast."""
        note(gen, what)
        ps = [A(p) for p in params]
        shp = gshape(size)
        b = np.broadcast_shapes(*[p.a.shape for p in ps]) if ps else ()
        if shp is None:
            shp = b
        try:
            bs = [np.broadcast_to(p.a, shp) for p in ps]
        except ValueError as ex:
            raise I.err("ValueError", f"shape mismatch in {what}: {ex}")
        out = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            out[i] = one(*[x[i] for x in bs])
        return out

    def make_gen(prov):
        g = Native("Generator", prov=prov, pos=0)
        at = g.attrs

        def uniform(low=0, high=1, size=None):
            def one(lo, hi):
                lo, hi = alg.R(lo), alg.R(hi)
                if lo.is_const() and hi.is_const():
                    return draw_atom(g, lo.value(), hi.value())
                return lo + (hi - lo) * draw_atom(g, 0, 1)

            r = sampler(g, "uniform", one, size, low, high)
            return I.wrap(r, "f")

        def random(size=None, dtype=None, out=None):
            return I.wrap(sampler(g, "random", lambda: draw_atom(g, 0, 1), size), "f")

        def normal(loc=0, scale=1, size=None):
            return I.wrap(sampler(g, "normal", lambda l, s: alg.R(l) + alg.R(s) * draw_atom(g, what="z"), size, loc, scale), "f")

        def standard_normal(size=None, dtype=None):
            return normal(0, 1, size)

        def pos(what):
            def f(*p, size=None, **k):
                p = list(p)
                if what in ("standard_exponential", "lognormal", "standard_gamma", "exponential", "chisquare", "gamma"):
                    nparam = {"standard_exponential": 0, "exponential": 1, "standard_gamma": 1, "chisquare": 1, "gamma": 2, "lognormal": 2}[what]
                    if len(p) > nparam and size is None:
                        size = p[nparam]
                return I.wrap(sampler(g, what, lambda: draw_atom(g, 0, what="e", info={"strict": True, "law": what}), size), "f")

            return f

        def mvn(mean, cov, size=None, **k):
            note(g, "multivariate_normal")
            m, c = A(mean), A(cov)
            if c.a.ndim != 2 or c.a.shape != (m.a.shape[0],) * 2:
                raise I.err("ValueError", "mean and cov must have same length")
            I.records.append(("mvn", m, c))
            shp = gshape(size) or ()
            out = np.empty(shp + m.a.shape, dtype=object)
            # one square root of the covariance shared by all samples
            isdiag = all(i == j or ff(c.a[i, j]).is_zero() for i in range(len(m.a)) for j in range(len(m.a)))
            for i in np.ndindex(*shp):
                z = [draw_atom(g, what="z") for _ in m.a]
                for j in range(len(m.a)):
                    if isdiag:
                        out[i + (j,)] = alg.R(m.a[j]) + alg.sqrt(alg.R(c.a[j, j])) * z[j]
                    else:
                        out[i + (j,)] = alg.R(m.a[j]) + alg.fn("mvn", [*[alg.R(v) for v in c.a.reshape(-1)], *z], key=j)
            return Arr(out, "f")

        def multinomial(n, pvals, size=None):
            note(g, "multinomial")
            p = A(pvals)
            n = I.as_int(n)
            I.records.append(("multinomial", p, n, I.where()))
            if n < 0:
                raise I.err("ValueError", "n < 0")
            if any(isinstance(v, float) for v in p.a):
                raise I.err("ValueError", "pvals contains NaNs")
            s = simp(sum((alg.R(v) for v in p.a), Rat.const(0)))
            if s.is_const() and s.value() > 1:
                raise I.err("ValueError", "sum(pvals[:-1]) > 1.0")
            if not s.is_const() or s.value() != 1:
                I.events.append(("pvals-sum", s, I.where()))
            if size is not None:
                raise Undecided("multinomial with size")
            k = p.a.shape[0]
            hook = I.scenario.get("counts")
            if hook is not None:
                c = hook(n, k)
            else:
                c = [n // k + (1 if i < n % k else 0) for i in range(k)]
            g.pos += 1
            return I.arr(list(c))

        def shuffle(x, axis=0):
            note(g, "shuffle")
            g.pos += 1
            if I.scenario.get("order") == "keep":
                I.note_write(x, "shuffled in place")
                return
            I.note_write(x, "shuffled in place")
            if isinstance(x, Arr):
                a = np.moveaxis(x.a, I.as_int(axis), 0)
                a[...] = a[::-1].copy()
            elif isinstance(x, list):
                x.reverse()
            else:
                raise I.err("TypeError", "shuffle of an immutable sequence")

        def permutation(x, axis=0):
            note(g, "permutation")
            g.pos += 1
            keep = I.scenario.get("order") == "keep"
            if isinstance(x, int):
                return I.arr(list(range(x))[:: 1 if keep else -1])
            x = A(x)
            if keep:
                return Arr(x.a.copy(), x.dt)
            return Arr(np.flip(x.a, I.as_int(axis)).copy(), x.dt)

        def integers(low, high=None, size=None, dtype=None, endpoint=False):
            note(g, "integers")
            if high is None:
                low, high = 0, low
            shp = gshape(size)
            lo, hi = I.as_int(low), I.as_int(high) - (0 if endpoint else 1)
            if hi < lo:
                raise I.err("ValueError", "low >= high")
            def mk():
                g.pos += 1
                h = I.scenario.get("integers")
                return h(lo, hi, g.pos) if h else lo + (g.pos * 7919) % (hi - lo + 1)

            if shp is None:
                return mk()
            out = np.empty(shp, dtype=object)
            for i in np.ndindex(*shp):
                out[i] = mk()
            return Arr(out, "i")

        def choice(a, size=None, replace=True, p=None, axis=0, shuffle=True):
            xs = A(a) if not isinstance(a, int) else I.arr(list(range(a)))
            n = xs.a.shape[0]
            if p is not None:
                pv = A(p)
                if pv.a.shape != (n,):
                    raise I.err("ValueError", "'a' and 'p' must have same size")
                I.records.append(("choice", pv, size, I.where()))
                s = simp(sum((alg.R(v) for v in pv.a), Rat.const(0)))
                if s.is_const() and s.value() != 1:
                    raise I.err("ValueError", "probabilities do not sum to 1")
            shp = gshape(size)
            if not replace and shp is not None and int(np.prod(shp)) > n:
                raise I.err("ValueError", "Cannot take a larger sample than population when replace is False")
            if not replace:
                note(g, "choice")
                k = 1 if shp is None else int(np.prod(shp))
                idx = ints(np.arange(k)[::-1].reshape(shp if shp is not None else ()))
            else:
                idx = integers(0, n, size)
            r = I.np_getitem(xs, idx)
            return r

        def dirichlet(alpha, size=None):
            note(g, "dirichlet")
            al = A(alpha)
            shp = gshape(size) or ()
            k = al.a.shape[0]
            out = np.empty(shp + (k,), dtype=object)
            for i in np.ndindex(*shp):
                e = [draw_atom(g, 0, what="e", info={"strict": True}) for _ in range(k)]
                t = sum(e, Rat.const(0))
                for j in range(k):
                    out[i + (j,)] = e[j] / t
            return Arr(out, "f")

        def spawn(n):
            return [make_gen(("spawn", prov, i)) for i in range(I.as_int(n))]

        at.update(
            uniform=uniform, random=random, normal=normal, standard_normal=standard_normal, multivariate_normal=mvn, multinomial=multinomial, shuffle=shuffle, permutation=permutation, permuted=lambda x, axis=None, out=None: permutation(x), integers=integers, choice=choice, dirichlet=dirichlet, spawn=spawn,
            beta=lambda a, b, size=None: I.wrap(sampler(g, "beta", lambda: draw_atom(g, 0, 1, "beta"), size), "f"),
            rand=lambda *s: random(tuple(s) or None), randn=lambda *s: normal(0, 1, tuple(s) or None), random_sample=random, randint=integers,
            triangular=lambda l, m, r, size=None: I.wrap(sampler(g, "triangular", lambda lo, md, hi: alg.R(lo) + (alg.R(hi) - alg.R(lo)) * draw_atom(g, 0, 1, "tri"), size, l, m, r), "f"),
        )
        for nm in ("exponential", "standard_exponential", "gamma", "standard_gamma", "chisquare", "lognormal"):
            at[nm] = pos(nm)
        at["bit_generator"] = Native("BitGenerator", {"__getattr__": lambda n: Opaque("bit_generator." + n), "_g": g})

        def missing(n):
            if hasattr(np.random.Generator, n):
                raise Undecided(f"Generator.{n} is not modelled")
            raise I.err("AttributeError", f"'Generator' object has no attribute {n!r}")

        at["__getattr__"] = missing
        return g

    I.make_gen = make_gen

    def default_rng(seed=None):
        if isinstance(seed, Native) and seed.name == "Generator":
            return seed
        if seed is None:
            I.counter += 1
            I.rng_events.append(("fresh", "default_rng()", I.where(), I.fname()))
            return make_gen(("fresh", I.counter))
        if isinstance(seed, Native) and seed.name == "BitGenerator":
            return seed.attrs["_g"]
        if isinstance(seed, Opaque):
            I.rng_events.append(("foreign", repr(seed), I.where(), I.fname()))
            return make_gen(("foreign", repr(seed)))
        if isinstance(seed, int) or isinstance(seed, Rat) or isinstance(seed, (list, tuple)):
            if isinstance(seed, Rat):
                key = ("seed", seed.fp())
                atoms = {alg.ATOMS[a].name for a in alg.all_atoms(seed)}
                label = ",".join(sorted(atoms)) or str(seed)
            else:
                key, label = ("seed", repr(seed)), repr(seed)
            I.rng_events.append(("seeded", key, I.where(), I.fname(), label))
            return make_gen(key)
        raise I.err("TypeError", "SeedSequence expects int or sequence of ints for entropy")

    gname = set(dir(np.random)) | {"rand", "randn"}

    def globalfn(n):
        def f(*a, **k):
            I.rng_events.append(("global", "np.random." + n, I.where(), I.fname()))
            I.counter += 1
            g = make_gen(("global", I.counter))
            if n == "seed":
                return None
            if n not in g.attrs:
                raise Undecided(f"np.random.{n}")
            return g.attrs[n](*a, **k)

        return f

    def rnd_attr(n):
        if n in gname:
            return globalfn(n)
        raise I.err("AttributeError", f"module 'numpy.random' has no attribute {n!r}")

    ns["random"] = Native(
        "numpy.random",
        {
            "default_rng": default_rng,
            "Generator": Native("np.random.Generator", {"__call__": lambda b=None: b.attrs["_g"] if isinstance(b, Native) and "_g" in b.attrs else default_rng(None)}, test=lambda v: isinstance(v, Native) and v.name == "Generator"),
            "RandomState": Native("np.random.RandomState", {"__call__": default_rng}, test=lambda v: False),
            "PCG64": lambda seed=None: default_rng(seed).attrs["bit_generator"],
            "SeedSequence": lambda e=None: e if e is not None else Opaque("SeedSequence()"),
            "__getattr__": rnd_attr,
        },
    )

    def np_missing(n):
        if n in ("testing", "typing", "lib", "ma", "fft", "polynomial"):
            return Opaque("numpy." + n)
        _missing("numpy", np, n)

    ns["__getattr__"] = np_missing
    ns["__version__"] = "1.26.4"
    for n, f in ns.items():
        if callable(f) and not isinstance(f, Native) and hasattr(f, "__name__") and f.__name__ in ("<lambda>", "f", "g"):
            try:
                f.__name__ = n
            except AttributeError:
                pass
    I.natives["numpy"] = Native("numpy", ns)
    I.natives["numpy.linalg"] = ns["linalg"]
    I.natives["numpy.random"] = ns["random"]
    tp = Native("numpy.typing", {"__getattr__": lambda n: Native(n, {"__getitem__": lambda i: Native("T")}, test=lambda v: True)})
    I.natives["numpy.typing"] = tp
    I.np = ns

    # ---------------------------------------------------------------- array attributes
    METHODS = {"all", "any", "sum", "prod", "mean", "min", "max", "argmax", "argmin", "cumsum", "cumprod", "trace", "diagonal", "nonzero", "squeeze", "swapaxes", "repeat", "clip", "dot", "round", "std", "var", "argsort", "ptp", "conj", "take", "searchsorted"}

    def arr_attr(o, n):
        if o.k == "cp":
            return I.cp_attr(o, n)
        if n == "shape":
            return tuple(o.a.shape)
        if n == "ndim":
            return o.a.ndim
        if n == "size":
            return int(o.a.size)
        if n == "T":
            return Arr(o.a.T, o.dt)
        if n == "dtype":
            return np_dtype(o.dt)
        if n == "real":
            return o
        if n == "imag":
            return ns["zeros_like"](o)
        if n == "flat":
            return [x for x in o.a.reshape(-1)]
        if n == "base":
            return None if o.a.base is None else Opaque("base")
        if n == "nbytes":
            return o.a.size * 8
        if n == "copy":
            return lambda *a, **k: Arr(o.a.copy(), o.dt)
        if n == "astype":
            return lambda d, copy=True, **k: Arr(I.cast(o.a, o.dt, I.dtype(d)) if I.dtype(d) != o.dt else o.a.copy(), I.dtype(d))
        if n == "reshape":
            def f(*s, order="C"):
                sh = s[0] if len(s) == 1 else s
                if isinstance(sh, list):
                    sh = tuple(sh)
                return reshape(o, sh, order)

            return f
        if n in ("flatten", "ravel"):
            return lambda order="C": Arr(o.a.flatten(order) if n == "flatten" else o.a.ravel(order), o.dt)
        if n == "transpose":
            return lambda *a: Arr(np.transpose(o.a, *([tuple(I.as_int(x) for x in (a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a))] if a else [])), o.dt)
        if n == "tolist":
            return lambda: _tolist(o.a)
        if n == "item":
            def item(*a):
                if not a:
                    if o.a.size != 1:
                        raise I.err("ValueError", "can only convert an array of size 1 to a Python scalar")
                    return o.a.reshape(-1)[0]
                return o.a[tuple(I.as_int(x) for x in a)]

            return item
        if n == "fill":
            def fillf(v):
                I.note_write(o, "filled in place")
                o.a[...] = norm_el(v, o.dt)

            return fillf
        if n == "sort":
            def sortf(axis=-1, kind=None):
                I.note_write(o, "sorted in place")
                o.a[...] = sort(o, axis).a

            return sortf
        if n == "resize":
            raise Undecided("resize in place")
        if n == "put":
            raise Undecided("put")
        if n == "setflags":
            return lambda **k: None
        if n == "view":
            return lambda *a: o
        if n == "flags":
            return Native("flags", {"__getattr__": lambda m: True, "__setattr__": lambda m, v: None})
        if n == "tobytes":
            return lambda: str(mkey(o.a))
        if n == "__array__":
            return lambda *a: o
        if n == "__len__":
            return lambda: o.a.shape[0]
        if n == "is_integer" and o.a.ndim == 0:
            return I.getattr(o.a[()], n)
        if n in METHODS:
            g = ns[{"min": "min", "max": "max"}.get(n, n)]
            return lambda *a, **k: g(o, *a, **k)
        if hasattr(np.ndarray, n):
            raise Undecided(f"ndarray.{n} is not modelled")
        raise I.err("AttributeError", f"'numpy.ndarray' object has no attribute {n!r}")

    def _tolist(a):
        if a.ndim == 0:
            return a[()]
        return [_tolist(x) if isinstance(x, np.ndarray) else x for x in a]

    I.arr_attr = arr_attr

    # ---------------------------------------------------------------- scipy
    def basis(x, what, rcond):
        """orth / null_space of an abstract matrix: columns of one rotation,
        the rank supplied by the scenario."""
        x = A(x)
        I.events.append(("rcond", what, rcond))
        if has_nonfinite(x.a):
            raise I.err("ValueError", "array must not contain infs or NaNs")
        hook = I.scenario.get("basis")
        if hook is None:
            raise Undecided(f"{what} of an abstract matrix")
        q = hook(what, x)
        if q is None:
            raise Undecided(f"{what} of an abstract matrix")
        return Arr(q, "f")

    sl = {
        "orth": lambda x, rcond=None: basis(x, "orth", rcond),
        "null_space": lambda x, rcond=None, **k: basis(x, "null_space", rcond),
        "inv": lambda x, **k: inv(x), "det": lambda x, **k: det(x), "norm": norm, "solve": lambda a, b, **k: solve(a, b), "eigh": lambda x, **k: eig(x, "eigh"), "eigvalsh": lambda x, **k: eig(x, "eigvalsh")[0], "lstsq": lambda a, b, cond=None, **k: lstsq(a, b, cond),
        "svd": svd, "pinv": pinv,
        "block_diag": lambda *xs: _block_diag(xs),
        "cholesky": lambda x, lower=False, **k: cholesky(x) if lower else Arr(cholesky(x).a.T, "f"),
        "sqrtm": lambda x: (_ for _ in ()).throw(Undecided("sqrtm")),
        "__getattr__": lambda n: (_ for _ in ()).throw(Undecided(f"scipy.linalg.{n} is not modelled")),
    }

    def _block_diag(xs):
        xs = [A(x) for x in xs]
        xs = [Arr(np.atleast_2d(x.a), x.dt) for x in xs]
        a = fill((sum(x.a.shape[0] for x in xs), sum(x.a.shape[1] for x in xs)), Rat.const(0))
        i = j = 0
        for x in xs:
            a[i : i + x.a.shape[0], j : j + x.a.shape[1]] = emap(ff, x.a)
            i += x.a.shape[0]
            j += x.a.shape[1]
        return Arr(a, "f")

    def sp_comb(n, k, exact=False, repetition=False):
        n, k = I.as_int(n), I.as_int(k)
        v = math.comb(n + k - 1 if repetition else n, k)
        return v if exact else Rat.const(v)

    def sp_fact(n, exact=False):
        v = math.factorial(I.as_int(n))
        return v if exact else Rat.const(v)

    ss = Native("scipy.special", {"gamma": lambda x: _gamma(I, x), "comb": sp_comb, "binom": sp_comb, "factorial": sp_fact, "__getattr__": lambda n: (_ for _ in ()).throw(Undecided(f"scipy.special.{n} is not modelled"))})
    slm = Native("scipy.linalg", sl)
    rot = Native("scipy.spatial.transform", {"Rotation": Opaque("Rotation")})
    spat = Native("scipy.spatial", {"transform": rot, "ConvexHull": Opaque("ConvexHull"), "__getattr__": lambda n: Opaque("scipy.spatial." + n)})
    stats = Native("scipy.stats", {"__getattr__": lambda n: Opaque("scipy.stats." + n)})
    I.natives["scipy"] = Native("scipy", {"linalg": slm, "special": ss, "spatial": spat, "stats": stats, "__getattr__": lambda n: Opaque("scipy." + n)})
    I.natives["scipy.linalg"] = slm
    I.natives["scipy.special"] = ss
    I.natives["scipy.spatial"] = spat
    I.natives["scipy.spatial.transform"] = rot
    I.natives["scipy.stats"] = stats
