"""The algebraic value domain: numbers are abstracted by rational functions over
atoms (abstract inputs), kept in a canonical form, so that two computations get
the same abstract value exactly when they denote the same function.

Nothing in here ever sees a run-time value of the analysed program.
"""
import itertools
import math
from fractions import Fraction

INF = float("inf")
PRIME = (1 << 61) - 1
NPTS = 3

ATOMS = []


def _mix(*xs):
    """Deterministic 61-bit mixing used to choose evaluation points."""
    h = 0x9E3779B97F4A7C15
    for x in xs:
        if isinstance(x, str):
            for ch in x.encode():
                h = ((h ^ ch) * 0x100000001B3) & 0xFFFFFFFFFFFFFFFF
        else:
            h = (h ^ (x & 0xFFFFFFFFFFFFFFFF)) & 0xFFFFFFFFFFFFFFFF
            h = (h * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
            h ^= h >> 31
            h = (h * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
            h ^= h >> 29
    return h % PRIME or 1


class Atom:
    __slots__ = ("id", "name", "kind", "lo", "hi", "unit", "args", "info", "dec", "_fp", "integer")

    def __init__(self, name, kind="var", lo=-INF, hi=INF, unit=None, args=(), info=None, dec=False, integer=False):
        self.id = len(ATOMS)
        self.name = name
        self.kind = kind
        self.lo, self.hi = lo, hi
        self.unit = unit
        self.args = args
        self.info = info
        self.dec = dec
        self.integer = integer
        self._fp = None
        ATOMS.append(self)

    def __repr__(self):
        return self.name

    def fp(self):
        if self._fp is None:
            if self.kind == "rot":
                rot, i, j = self.info
                self._fp = tuple(rot.cayley(k)[i][j] for k in range(NPTS))
            elif self.kind in ("sqrt", "fn"):
                self._fp = tuple(_mix(self.kind, self.args[0], k, *[a[k] for a in self.args[1]]) for k in range(NPTS))
            else:
                self._fp = tuple(_mix("atom", self.id, k) for k in range(NPTS))
        return self._fp


class Rotation:
    """An n x n rotation matrix: n*n atoms that satisfy R R^T = I, det R = 1."""

    count = 0

    def __init__(self, name, n=3, derived=False):
        Rotation.count += 1
        self.derived = derived
        self.uid = Rotation.count
        self.name, self.n = name, n
        self._c = {}
        self.atoms = [[Atom(f"{name}{i}{j}", "rot", -1, 1, unit=(0, 0, 0), info=(self, i, j)) for j in range(n)] for i in range(n)]

    def matrix(self):
        return [[Rat.atom(a) for a in row] for row in self.atoms]

    def cayley(self, k):
        if k not in self._c:
            n, P = self.n, PRIME
            K = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i + 1, n):
                    v = _mix("rot", self.uid, i, j, k)
                    K[i][j], K[j][i] = v, P - v
            # R = (I - K)^-1 (I + K)
            M = [[(int(i == j) - K[i][j]) % P for j in range(n)] + [(int(i == j) + K[i][j]) % P for j in range(n)] for i in range(n)]
            for c in range(n):
                p = next(r for r in range(c, n) if M[r][c])
                M[c], M[p] = M[p], M[c]
                inv = pow(M[c][c], P - 2, P)
                M[c] = [x * inv % P for x in M[c]]
                for r in range(n):
                    if r != c and M[r][c]:
                        f = M[r][c]
                        M[r] = [(x - f * y) % P for x, y in zip(M[r], M[c])]
            self._c[k] = [row[n:] for row in M]
        return self._c[k]

    def numeric(self, rnd):
        """A concrete rotation for witness search."""
        n = self.n
        import numpy as np

        K = np.zeros((n, n))
        for i in range(n):
            for j in range(i + 1, n):
                v = rnd.uniform(-1, 1)
                K[i, j], K[j, i] = v, -v
        return np.linalg.solve(np.eye(n) - K, np.eye(n) + K)


# Relations of SO(3), a Groebner basis of R^T R = I, R R^T = I, cof R = R (graded
# reverse lexicographic order): leading product -> combination of smaller products.
_SO3 = {
    "00 00": "+11 11 +12 12 +21 21 +22 22 -1",
    "00 01": "-10 11 -20 21",
    "01 01": "-11 11 -21 21 +1",
    "00 02": "-10 12 -20 22",
    "01 02": "-11 12 -21 22",
    "02 02": "-12 12 -22 22 +1",
    "00 10": "-01 11 -02 12",
    "01 10": "+00 11 -22",
    "02 10": "+00 12 +21",
    "10 10": "-11 11 -12 12 +1",
    "02 11": "+01 12 -20",
    "00 20": "-01 21 -02 22",
    "01 20": "+00 21 +12",
    "02 20": "+00 22 -11",
    "10 20": "-11 21 -12 22",
    "11 20": "-02 +10 21",
    "12 20": "+01 +10 22",
    "20 20": "-21 21 -22 22 +1",
    "02 21": "+01 22 +10",
    "12 21": "-00 +11 22",
}


def _so3():
    out = {}
    for k, v in _SO3.items():
        terms, cur = [], None
        for w in v.split():
            if w[0] in "+-":
                cur = (1 if w[0] == "+" else -1, [] if w[1:] == "1" else [w[1:]])
                terms.append(cur)
            else:
                cur[1].append(w)
        out[tuple(k.split())] = terms
    return out


_SO3_RULES = _so3()
_SO2_RULES = {("11",): [(1, ["00"])], ("10",): [(-1, ["01"])], ("00", "00"): [(1, []), (-1, ["01", "01"])]}
_SO1_RULES = {("00",): [(1, [])]}
_rot_nf = {}


def _rot_word(rot, word):
    """Normal form of a product of entries (sorted tuple of 'ij') of one rotation."""
    key = (rot.uid, word)
    if key in _rot_nf:
        return _rot_nf[key]
    rules = {3: _SO3_RULES, 2: _SO2_RULES, 1: _SO1_RULES}.get(rot.n, {})
    out = None
    for i, x in enumerate(word):
        if (x,) in rules:
            rest, rhs = word[:i] + word[i + 1:], rules[(x,)]
            break
        for j in range(i + 1, len(word)):
            if (x, word[j]) in rules:
                rest, rhs = word[:i] + word[i + 1:j] + word[j + 1:], rules[(x, word[j])]
                break
        else:
            continue
        break
    else:
        out = Poly({(): 1})
        for x in word:
            out = out.mul(Poly({((rot.atoms[int(x[0])][int(x[1])].id, 1),): 1}))
    if out is None:
        out = ZERO
        for c, w in rhs:
            out = out.add(_rot_word(rot, tuple(sorted(rest + tuple(w)))).scale(c))
    _rot_nf[key] = out
    return out


def _rot_poly(p):
    if not any(ATOMS[a].kind == "rot" for a in p.atoms()):
        return p
    out, hit = {}, False
    for m, c in p.t.items():
        words, rest = {}, []
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "rot":
                rot, i, j = A.info
                words.setdefault(rot.uid, (rot, []))[1].extend([f"{i}{j}"] * e)
            else:
                rest.append((a, e))
        t = Poly({tuple(rest): c})
        for rot, w in words.values():
            t = t.mul(_rot_word(rot, tuple(sorted(w))))
        for k, v in t.t.items():
            v = out.get(k, 0) + v
            if v == 0:
                out.pop(k, None)
            else:
                out[k] = v
    return Poly(out)


def rot_reduce(r):
    """Normal form of r modulo the relations between the entries of its rotations."""
    if isinstance(r, float):
        return r
    r = R(r)
    if not any(ATOMS[a].kind == "rot" for a in r.atoms()):
        return r
    den = {}
    for f, e in r.den:
        g = _rot_poly(f)
        den[g] = den.get(g, 0) + e
    return Rat.make(_rot_poly(r.num), den)


def _co(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


MAXTERMS = 60000


class Poly:
    __slots__ = ("t", "_h", "_fp")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._fp = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def add(self, o, k=1):
        if len(self.t) < len(o.t) and k == 1:
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + (c if k == 1 else c * k)
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = _co(v)
        return Poly(t)

    def scale(self, c):
        if c == 1:
            return self
        if c == 0:
            return ZERO
        return Poly({m: _co(v * c) for m, v in self.t.items()})

    def mul(self, o):
        if not self.t or not o.t:
            return ZERO
        if o.is_const():
            return self.scale(o.const())
        if self.is_const():
            return o.scale(self.const())
        if len(self.t) * len(o.t) > MAXTERMS * 20:
            raise TooBig()
        t = {}
        need = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                v = t.get(m, 0) + c1 * c2
                t[m] = v
        t = {m: _co(c) for m, c in t.items() if c != 0}
        if len(t) > MAXTERMS:
            raise TooBig()
        return _reduce_sqrt(Poly(t))

    def pow(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def fp(self):
        if self._fp is None:
            out = []
            for k in range(NPTS):
                s = 0
                for m, c in self.t.items():
                    if isinstance(c, Fraction):
                        v = c.numerator * pow(c.denominator, PRIME - 2, PRIME) % PRIME
                    else:
                        v = c % PRIME
                    for a, e in m:
                        x = ATOMS[a].fp()[k]
                        v = v * (x if e == 1 else pow(x, e, PRIME)) % PRIME
                    s += v
                out.append(s % PRIME)
            self._fp = tuple(out)
        return self._fp

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def monomial(self):
        """(coefficient, mono) if a single term, else None."""
        if len(self.t) == 1:
            m, c = next(iter(self.t.items()))
            return c, m
        return None

    def divide(self, d):
        """Exact quotient self / d, or None."""
        if d.is_const():
            return self.scale(Fraction(1) / d.const())
        mono = d.monomial()
        if mono is not None:
            c, dm = mono
            dd = dict(dm)
            t = {}
            for m, v in self.t.items():
                md = dict(m)
                for a, e in dd.items():
                    if md.get(a, 0) < e:
                        return None
                    md[a] -= e
                    if md[a] == 0:
                        del md[a]
                t[tuple(sorted(md.items()))] = _co(Fraction(v) / c)
            return Poly(t)
        if len(self.t) < len(d.t) - 1 or len(self.t) > 4000:
            return None
        # multivariate division, lex order on atom ids
        key = _lexkey
        lm = max(d.t, key=key)
        lc = d.t[lm]
        lmd = dict(lm)
        rem = dict(self.t)
        q = {}
        steps = 0
        while rem:
            steps += 1
            if steps > 3000:
                return None
            m = max(rem, key=key)
            c = rem[m]
            md = dict(m)
            for a, e in lmd.items():
                if md.get(a, 0) < e:
                    return None
                md[a] -= e
                if md[a] == 0:
                    del md[a]
            qm = tuple(sorted(md.items()))
            qc = _co(Fraction(c) / lc)
            q[qm] = _co(q.get(qm, 0) + qc)
            for m2, c2 in d.t.items():
                mm = _mmul(qm, m2)
                v = rem.get(mm, 0) - qc * c2
                if v == 0:
                    rem.pop(mm, None)
                else:
                    rem[mm] = _co(v)
        return Poly({m: c for m, c in q.items() if c != 0})

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: (len(kv[0]), kv[0]))[:14]:
            f = "*".join(ATOMS[a].name + (f"^{e}" if e != 1 else "") for a, e in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append(f"{c}*{f}")
        s = " + ".join(out)
        if len(self.t) > 14:
            s += f" + ... ({len(self.t)} terms)"
        return s


def _lexkey(m):
    # lex with smaller atom id = bigger variable
    return tuple((-a, e) for a, e in m) + ((-10**9, 0),)


ZERO = Poly({})
ONE = Poly({(): 1})


def _square(a):
    """The polynomial that is the square of a root or absolute value atom."""
    at = ATOMS[a]
    if at.kind == "sqrt":
        return at.info
    if at.kind == "fn" and at.info["name"] == "abs":
        sq = at.info.get("square")
        if sq is None:
            x = at.info["args"][0]
            sq = at.info["square"] = x.num.mul(x.num) if not x.den else False
        return sq or None
    return None


def _reduce_sqrt(p):
    """Replace s^2 by its argument for sqrt atoms s (and |x|^2 by x^2)."""
    hit = None
    for m in p.t:
        for a, e in m:
            if e >= 2 and _square(a) is not None:
                hit = a
                break
        if hit is not None:
            break
    if hit is None:
        return p
    arg = _square(hit)  # a Poly
    keep, out = {}, ZERO
    for m, c in p.t.items():
        e = dict(m).get(hit, 0)
        if e < 2:
            keep[m] = c
            continue
        rest = tuple((a, x) for a, x in m if a != hit)
        if e % 2:
            rest = _mmul(rest, ((hit, 1),))
        out = out.add(Poly({rest: c}).mul(arg.pow(e // 2)))
    return _reduce_sqrt(out.add(Poly(keep)))


class Rat:
    """num / prod(den factors); denominators kept factored."""

    __slots__ = ("num", "den", "_fp", "__weakref__")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den
        self._fp = None

    # --- construction
    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = frac(c)
        c = _co(c)
        return Rat(Poly({(): c}) if c != 0 else ZERO)

    @staticmethod
    def atom(a):
        return Rat(Poly({((a.id, 1),): 1}))

    @staticmethod
    def make(num, den):
        """den: dict Poly -> exp."""
        if num.is_zero():
            return Rat(ZERO)
        out = {}
        c = 1
        for f, e in den.items():
            if e == 0:
                continue
            if f.is_const():
                c = c * Fraction(f.const()) ** e
                continue
            # split monomials into atoms
            mono = f.monomial()
            if mono is not None:
                cc, m = mono
                c = c * Fraction(cc) ** e
                for a, x in m:
                    p = Poly({((a, 1),): 1})
                    out[p] = out.get(p, 0) + x * e
                continue
            # normalise the leading coefficient
            lm = max(f.t, key=_lexkey)
            lc = f.t[lm]
            if lc != 1:
                c = c * Fraction(lc) ** e
                f = f.scale(Fraction(1) / lc)
            out[f] = out.get(f, 0) + e
        if c != 1:
            num = num.scale(Fraction(1) / c)
        # rationalise sqrt denominators
        again = False
        for f in list(out):
            mono = f.monomial()
            if mono is not None:
                a = mono[1][0][0]
                if ATOMS[a].kind == "sqrt" or out[f] % 2 == 0 and _square(a) is not None:
                    e = out.pop(f)
                    if e % 2:
                        num = num.mul(f)
                        e += 1
                    out_f = _square(a)
                    return Rat.make(num, {**out, **{out_f: out.get(out_f, 0) + e // 2}})
        # cancel
        for f in list(out):
            while out[f] > 0:
                q = num.divide(f)
                if q is None:
                    break
                num = q
                out[f] -= 1
            if out[f] == 0:
                del out[f]
        return Rat(num, tuple(sorted(out.items(), key=lambda kv: hash(kv[0]))))

    # --- predicates
    def is_const(self):
        return not self.den and self.num.is_const()

    def value(self):
        return self.num.const()

    def is_zero_syn(self):
        return self.num.is_zero()

    def fp(self):
        if self._fp is None:
            n = self.num.fp()
            if self.den:
                out = []
                for k in range(NPTS):
                    d = 1
                    for f, e in self.den:
                        d = d * pow(f.fp()[k], e, PRIME) % PRIME
                    out.append(n[k] * pow(d, PRIME - 2, PRIME) % PRIME)
                n = tuple(out)
            self._fp = n
        return self._fp

    def is_zero(self):
        return self.num.is_zero() or not any(self.num.fp())

    def same(self, o):
        o = R(o)
        if self.num == o.num and self.den == o.den:
            return True
        return self.fp() == o.fp()

    # --- arithmetic
    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        if self.num.is_zero():
            return o
        if o.num.is_zero():
            return self
        if self.den == o.den:
            if not self.den:
                return Rat(self.num.add(o.num))
            return Rat.make(self.num.add(o.num), dict(self.den))
        d1, d2 = dict(self.den), dict(o.den)
        L = dict(d1)
        for f, e in d2.items():
            L[f] = max(L.get(f, 0), e)
        n1, n2 = self.num, o.num
        for f, e in L.items():
            x = e - d1.get(f, 0)
            if x:
                n1 = n1.mul(f.pow(x))
            x = e - d2.get(f, 0)
            if x:
                n2 = n2.mul(f.pow(x))
        return Rat.make(n1.add(n2), L)

    __radd__ = __add__

    def __neg__(self):
        return Rat(self.num.scale(-1), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return inf_mul(self, o)
        if self.num.is_zero() or o.num.is_zero():
            return Rat(ZERO)
        num = self.num.mul(o.num)
        if not self.den and not o.den:
            return Rat(num)
        d = dict(self.den)
        for f, e in o.den:
            d[f] = d.get(f, 0) + e
        return Rat.make(num, d)

    __rmul__ = __mul__

    def inv(self):
        num = ONE
        for f, e in self.den:
            num = num.mul(f.pow(e))
        return Rat.make(num, {self.num: 1})

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return Rat.const(0) if math.isinf(o) else o
        if o.num.is_zero():
            return div0(self)
        if o.is_const():
            return Rat(self.num.scale(Fraction(1) / o.value()), self.den)
        return self * o.inv()

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return inf_mul(self, o)
        return o / self

    def __pow__(self, n):
        return power(self, n)

    def __rpow__(self, b):
        return fn("pow", [R(b), self])

    def __abs__(self):
        return absv(self)

    def __repr__(self):
        if not self.den:
            return repr(self.num)
        d = "*".join(f"({f!r})" + (f"^{e}" if e != 1 else "") for f, e in self.den)
        return f"({self.num!r})/{d}"

    def __hash__(self):
        return hash(self.fp())

    def __eq__(self, o):
        o = _coerce(o)
        if o is NotImplemented or isinstance(o, float):
            return False
        return self.same(o)

    def atoms(self):
        s = self.num.atoms()
        for f, _ in self.den:
            s |= f.atoms()
        return s


class DivByZero(Exception):
    pass


def frac(c):
    """Exact reading of a float literal (by its shortest decimal)."""
    return Fraction(repr(c))


def _coerce(o):
    if isinstance(o, Rat):
        return o
    if isinstance(o, bool):
        return Rat.const(int(o))
    if isinstance(o, (int, Fraction)):
        return Rat.const(o)
    if isinstance(o, float):
        if math.isinf(o) or math.isnan(o):
            return o
        return Rat.const(frac(o))
    return NotImplemented


def R(o):
    r = _coerce(o)
    if r is NotImplemented:
        raise TypeError(f"not a scalar: {o!r}")
    if isinstance(r, float):
        raise TypeError("non-finite")
    return r


NAN = float("nan")


def div0(num):
    lo, hi = interval(num)
    if num.is_zero():
        return NAN
    if lo > 0:
        return INF
    if hi < 0:
        return -INF
    return NAN


def inf_mul(r, o):
    if math.isnan(o):
        return NAN
    lo, hi = interval(r)
    if r.is_zero():
        return NAN
    if lo > 0 or (lo >= 0):
        return o
    if hi < 0 or hi <= 0:
        return -o
    return NAN


# ---------------------------------------------------------------- intervals
def _imul(a, b):
    xs = []
    for p in a:
        for q in b:
            if p == 0 or q == 0:
                xs.append(0)
            else:
                xs.append(p * q)
    return min(xs), max(xs)


def _ipow(a, e):
    lo, hi = a
    if e % 2:
        return (_p(lo, e), _p(hi, e))
    if lo >= 0:
        return (_p(lo, e), _p(hi, e))
    if hi <= 0:
        return (_p(hi, e), _p(lo, e))
    return (0, max(_p(lo, e), _p(hi, e)))


def _p(x, e):
    if isinstance(x, float) and math.isinf(x):
        return x if e % 2 else INF
    return x**e


def pinterval(p):
    lo = hi = 0
    for m, c in p.t.items():
        iv = (1, 1)
        for a, e in m:
            at = ATOMS[a]
            iv = _imul(iv, _ipow((at.lo, at.hi), e))
        a, b = _imul(iv, (c, c))
        lo, hi = lo + a, hi + b
    return lo, hi


def interval(r):
    r = R(r)
    lo, hi = pinterval(r.num)
    for f, e in r.den:
        dl, dh = pinterval(f)
        if dl < 0 and dh > 0 and e % 2 == 0:
            dl, dh = 0, max(-dl, dh)
            e2 = e
            dl, dh = 0, _p(dh, e2)
        else:
            dl, dh = _ipow((dl, dh), e)
        if dl >= 0:
            inv = (0 if dh == INF else Fraction(1) / dh if dh else INF, INF if dl == 0 else (0 if dl == INF else Fraction(1) / frac_(dl)))
        elif dh <= 0:
            inv = (-INF if dh == 0 else Fraction(1) / frac_(dh), 0 if dl == -INF else Fraction(1) / frac_(dl))
        else:
            return -INF, INF
        lo, hi = _imul((lo, hi), inv)
    return lo, hi


def frac_(x):
    return frac(x) if isinstance(x, float) else Fraction(x)


def posdef_strict(at):
    return at.lo > 0


def is_pos(r):
    """Definitely > 0 (atoms with lo == 0 flagged strict via info are > 0)."""
    r = R(r)
    if r.is_const():
        return r.value() > 0
    s = psign(r.num)
    for f, e in r.den:
        t = psign(f)
        s = _smul(s, t if e % 2 else (1 if t in (1, -1) else t))
    return s == 1


def _smul(a, b):
    if a is None or b is None:
        return None
    return a * b


def strict_pos(at):
    if at.lo > 0:
        return True
    if isinstance(at.info, dict) and at.info.get("strict") and at.lo >= 0:
        return True
    if at.kind == "sqrt":
        return psign(at.info) == 1
    return False


def psign(p):
    """1 if surely > 0, -1 if surely < 0, 0 if zero, None otherwise."""
    if p.is_zero():
        return 0
    signs = set()
    anystrict = False
    for m, c in p.t.items():
        s = 1 if c > 0 else -1
        strict = True
        for a, e in m:
            at = ATOMS[a]
            if strict_pos(at):
                continue
            if at.hi < 0:
                if e % 2:
                    s = -s
                continue
            strict = False
            if e % 2 == 0 or at.lo >= 0:
                continue
            if at.hi <= 0:
                s = -s
                continue
            return None
        signs.add(s)
        anystrict |= strict
    if len(signs) == 1:
        s = signs.pop()
        if anystrict:
            return s
    if signs:
        lo, hi = pinterval(p)
        if lo > 0:
            return 1
        if hi < 0:
            return -1
    return None


def nonneg(r):
    """Cheap sufficient test for r >= 0."""
    r = R(r)
    lo, hi = interval(r)
    if lo >= 0:
        return True
    n = _pnonneg(r.num)
    if n and all(e % 2 == 0 or _pnonneg(f) for f, e in r.den):
        return True
    return False


def _pnonneg(p):
    for m, c in p.t.items():
        s = 1 if c > 0 else -1
        for a, e in m:
            at = ATOMS[a]
            if e % 2 == 0 or at.lo >= 0:
                continue
            if at.hi <= 0:
                s = -s
                continue
            return False
        if s < 0:
            return False
    return True


# ---------------------------------------------------------------- functions
_INTERN = {}


def _intern(key, mk):
    if key not in _INTERN:
        _INTERN[key] = mk()
    return _INTERN[key]


def _sqfree(n):
    """n = s^2 * f with f square-free."""
    s, f, p = 1, 1, 2
    while p * p <= n:
        while n % (p * p) == 0:
            s *= p
            n //= p * p
        if n % p == 0:
            f *= p
            n //= p
        p += 1
    return s, f * n


def _primes(n):
    out, p = [], 2
    while n > 1:
        if n % p == 0:
            out.append(p)
            n //= p
        else:
            p += 1
    return out


def _sqrt_atom(poly, unit=None):
    """sqrt of a polynomial treated as one atom."""
    key = ("sqrt", poly.fp())

    def mk():
        lo, hi = pinterval(poly)
        l = 0 if lo <= 0 or lo == INF else math.sqrt(lo) * (1 - 1e-12)
        h = INF if hi == INF or hi < 0 else math.sqrt(hi) * (1 + 1e-12)
        a = Atom(f"sqrt({poly!r})", "sqrt", l, h, args=("sqrt", (poly.fp(),)), info=poly)
        return a

    return _intern(key, mk)


def sqrt_const(c):
    c = Fraction(c)
    if c < 0:
        return NAN
    if c == 0:
        return Rat.const(0)
    n = c.numerator * c.denominator
    s, f = _sqfree(n)
    r = Rat.const(Fraction(s, c.denominator))
    for p in _primes(f):
        r = r * Rat.atom(_sqrt_atom(Poly({(): p})))
    return r


def _psqrt(p):
    """sqrt of a Poly as Rat."""
    if p.is_zero():
        return Rat.const(0)
    # content: common monomial and positive rational
    cont = None
    for m in p.t:
        d = dict(m)
        cont = d if cont is None else {a: min(e, d.get(a, 0)) for a, e in cont.items() if d.get(a, 0)}
        if not cont:
            break
    out = Rat.const(1)
    rest = p
    if cont:
        cm = tuple(sorted((a, e) for a, e in cont.items() if e))
        rest = p.divide(Poly({cm: 1}))
        for a, e in cm:
            at = ATOMS[a]
            x = Rat.atom(at)
            if e // 2:
                k = power(x, e // 2)
                out = out * (k if at.lo >= 0 or (e // 2) % 2 == 0 else absv(k))
            if e % 2:
                if at.lo >= 0:
                    out = out * Rat.atom(_sqrt_atom(Poly({((a, 1),): 1})))
                else:
                    rest = rest.mul(Poly({((a, 1),): 1}))
    # rational content
    from math import gcd

    g, l = 0, 1
    for c in rest.t.values():
        c = Fraction(c)
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    g = Fraction(g, l)
    if rest.is_const():
        c = rest.const()
        if c < 0:
            return NAN
        return out * sqrt_const(c)
    s = psqrt_exact(rest)
    if s is not None:
        return out * absv(Rat(s))
    out = out * sqrt_const(g)
    prim = rest.scale(Fraction(1) / g)
    return out * Rat.atom(_sqrt_atom(prim))


def psqrt_exact(p):
    """Polynomial square root of p if p is a perfect square (<= 60 terms)."""
    if len(p.t) > 60 or len(p.t) == 2:
        return None
    lm = max(p.t, key=_lexkey)
    if any(e % 2 for _, e in lm):
        return None
    lc = Fraction(p.t[lm])
    if lc <= 0:
        return None
    n, d = math.isqrt(lc.numerator), math.isqrt(lc.denominator)
    if n * n != lc.numerator or d * d != lc.denominator:
        return None
    lead_m = tuple((a, e // 2) for a, e in lm)
    lead_c = Fraction(n, d)
    s = Poly({lead_m: _co(lead_c)})
    for _ in range(40):
        rem = p.add(s.mul(s), -1)
        if rem.is_zero():
            return s
        m = max(rem.t, key=_lexkey)
        q = Poly({m: rem.t[m]}).divide(Poly({lead_m: _co(2 * lead_c)}))
        if q is None:
            return None
        qm = next(iter(q.t))
        if not (_lexkey(qm) < _lexkey(lead_m)):
            return None
        s2 = s.add(q)
        if len(s2.t) > 12:
            return None
        s = s2
    return None


def sqrt(r):
    if isinstance(r, float) and (math.isinf(r) or math.isnan(r)):
        return r if r > 0 else NAN
    r = R(r)
    if r.is_const():
        return sqrt_const(r.value())
    num, extra = r.num, Rat.const(1)
    den = Rat.const(1)
    for f, e in r.den:
        if e // 2:
            den = den * absv(Rat(f.pow(e // 2)))
        if e % 2:
            if psign(f) == 1 or _pnonneg(f):
                den = den * _psqrt(f)
            else:
                num = num.mul(f)
                den = den * absv(Rat(f))
    n = _psqrt(num)
    if isinstance(n, float):
        return n
    return n / den


def power(r, n):
    if isinstance(n, Rat) and n.is_const():
        n = n.value()
    if isinstance(n, float):
        n = frac(n) if not math.isinf(n) else n
    if isinstance(n, Fraction) and n.denominator == 1:
        n = n.numerator
    r = _coerce(r)
    if isinstance(r, float):
        return r ** float(n) if n != 0 else Rat.const(1)
    if isinstance(n, int):
        if n >= 0:
            if n > 40:
                raise TooBig()
            return Rat.make(r.num.pow(n), {f: e * n for f, e in r.den}) if r.den else Rat(r.num.pow(n))
        if r.num.is_zero():
            return div0(Rat.const(1))
        return power(r.inv(), -n)
    if isinstance(n, Fraction):
        if n.denominator == 2:
            s = sqrt(r)
            return power(s, n.numerator)
        if r.is_const():
            v = r.value()
            if v in (0, 1) and n > 0:
                return r
        if n < 0:
            if r.is_zero():
                return div0(Rat.const(1))
            return Rat.const(1) / power(r, -n)
        w, fr = divmod(n, 1)
        base = Rat.const(1) if w == 0 else power(r, int(w))
        return base * _rootpow(r, fr)
    return fn("pow", [r, R(n)])


def _rootpow(r, fr):
    """r**fr with 0 < fr < 1 rational, as (q-th root)**p."""
    q = fr.denominator
    lo, hi = interval(r)
    key = ("root", q, r.fp())
    unit_ok = lo >= 0 and hi <= 1
    a = _intern(key, lambda: Atom(f"({r!r})^(1/{q})", "fn", 0 if lo >= 0 else -INF, 1 if unit_ok else INF, args=(f"root{q}", (r.fp(),)), info={"name": "root", "q": q, "args": [r]}))
    return power(Rat.atom(a), fr.numerator)


def absv(r):
    if isinstance(r, float):
        return abs(r)
    r = R(r)
    if r.is_const():
        return Rat.const(abs(r.value()))
    if nonneg(r):
        return r
    if nonneg(-r):
        return -r
    # |c * m| with content
    mono = r.num.monomial()
    if mono is not None and not r.den:
        out = Rat.const(abs(mono[0]))
        for a, e in mono[1]:
            at = ATOMS[a]
            x = power(Rat.atom(at), e)
            if at.lo >= 0 or e % 2 == 0:
                out = out * x
            elif at.hi <= 0:
                out = out * (-x if e % 2 else x)
            else:
                base = _abs_atom(Rat.atom(at))
                out = out * power(base, e)
        return out
    return _abs_atom(r)


def _abs_atom(r):
    k1, k2 = r.fp(), (-r).fp()
    key = ("abs", min(k1, k2))
    lo, hi = interval(r)
    m = max(abs(lo), abs(hi))
    rep = r
    a = _intern(key, lambda: Atom(f"|{rep!r}|", "fn", 0, m, args=("abs", (min(k1, k2),)), info={"name": "abs", "args": [rep]}))
    return Rat.atom(a)


def _minmax(name, xs):
    flat = []
    for x in xs:
        if isinstance(x, float):
            if math.isnan(x):
                return NAN
            if (name == "max") == (x > 0):
                return x
            continue
        x = R(x)
        at = as_atom(x)
        if at is not None and at.kind == "fn" and at.info["name"] == name:
            flat += at.info["args"]
        else:
            flat.append(x)
    uniq = []
    for x in flat:
        if not any(x.same(y) for y in uniq):
            uniq.append(x)
    # drop dominated
    keep = []
    for i, x in enumerate(uniq):
        dom = False
        for j, y in enumerate(uniq):
            if i == j:
                continue
            d = (y - x) if name == "max" else (x - y)
            if _lattice(x, y) if name == "max" else _lattice(y, x):
                dom = True
                break
            if nonneg(d) and not (nonneg(-d) and j > i):
                dom = True
                break
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    if len(keep) == 2 and (keep[0] + keep[1]).is_zero():
        a = absv(keep[0])
        return a if name == "max" else -a
    keep.sort(key=lambda x: x.fp())
    # common additive part: max(a+c, a-c) = a + |c|
    if len(keep) == 2:
        h = (keep[0] - keep[1]) / 2
        mid = (keep[0] + keep[1]) / 2
        ab = absv(h)
        return mid + ab if name == "max" else mid - ab
    sp = _sign_pattern(keep) if len(keep) in (4, 8) else None
    if sp is not None:
        mid, hs = sp
        for h in hs:
            mid = mid + absv(h) if name == "max" else mid - absv(h)
        return mid
    los, his = zip(*[interval(x) for x in keep])
    f = max if name == "max" else min
    key = (name, tuple(x.fp() for x in keep))
    a = _intern(key, lambda: Atom(f"{name}({', '.join(map(repr, keep))})", "fn", f(los), f(his), args=(name, key[1]), info={"name": name, "args": keep, "strict": (all if name == "min" else any)(is_pos(x) for x in keep)}))
    return Rat.atom(a)


def _lattice(lo, hi):
    """lo <= hi because lo is a minimum over hi, or hi a maximum over lo."""
    for x, y, nm in ((lo, hi, "min"), (hi, lo, "max")):
        a = as_atom(x)
        if a is not None and a.kind == "fn" and a.info["name"] == nm and any(y.same(z) for z in a.info["args"]):
            return True
    return False


def _sign_pattern(xs):
    """(m, [a_1..a_k]) when xs = {m +- a_1 +- ... +- a_k} over all 2^k signs."""
    k = len(xs).bit_length() - 1
    mid = Rat.const(0)
    for x in xs:
        mid = mid + x
    mid = mid / len(xs)
    ds = [x - mid for x in xs]
    if any(not any((d + e).is_zero() for e in ds) for d in ds):
        return None
    x0 = ds[0]
    for c in itertools.combinations(ds[1:], k):
        hs = [(x0 - c_) / 2 for c_ in c]
        t = Rat.const(0)
        for h in hs:
            t = t + h
        if not (t - x0).is_zero():
            continue
        want = {R(sum((h * s for h, s in zip(hs, sg)), Rat.const(0))).fp() for sg in itertools.product((1, -1), repeat=k)}
        if want == {d.fp() for d in ds}:
            return mid, hs
    return None


def maxv(xs):
    return _minmax("max", list(xs))


def minv(xs):
    return _minmax("min", list(xs))


def as_atom(r):
    if isinstance(r, Rat) and not r.den:
        m = r.num.monomial()
        if m is not None and m[0] == 1 and len(m[1]) == 1 and m[1][0][1] == 1:
            return ATOMS[m[1][0][0]]
    return None


def fn(name, args, lo=-INF, hi=INF, key=None, **info):
    """An uninterpreted function of abstract arguments (congruence only)."""
    args = [R(a) if not isinstance(a, float) else a for a in args]
    fps = tuple(a.fp() if isinstance(a, Rat) else (_mix(repr(a)),) * NPTS for a in args)
    k = ("fn", name, key, fps)
    a = _intern(k, lambda: Atom(f"{name}({', '.join(map(repr, args))[:80]})", "fn", lo, hi, args=(name + str(key or ""), fps), info={"name": name, "args": args, **info}))
    return Rat.atom(a)


PI = Rat.atom(Atom("pi", "const", Fraction(314159, 100000), Fraction(314160, 100000), unit=(0, 0, 0)))


def new(name, lo=-INF, hi=INF, unit=None, strict=False, dec=False, info=None, kind="var", integer=False):
    if strict:
        info = dict(info or {}, strict=True)
    return Rat.atom(Atom(name, kind, lo, hi, unit=unit, dec=dec, info=info, integer=integer))


# ---------------------------------------------------------------- substitution
def subst(r, mp, _memo=None):
    """Substitute atoms by Rats: mp {atom_id: Rat}. Recurses into function atoms."""
    if isinstance(r, float):
        return r
    r = R(r)
    memo = {} if _memo is None else _memo

    def at(a):
        if a in mp:
            return mp[a]
        if a in memo:
            return memo[a]
        A = ATOMS[a]
        out = Rat.atom(A)
        if A.kind == "sqrt":
            inner = subst(Rat(A.info), mp, memo)
            if not inner.same(Rat(A.info)):
                out = sqrt(inner)
        elif A.kind == "fn" and "args" in (A.info or {}):
            new_args = [subst(x, mp, memo) if not isinstance(x, float) else x for x in A.info["args"]]
            if any(not isinstance(x, float) and not (isinstance(y, Rat) and y.same(x)) for x, y in zip(A.info["args"], new_args)):
                out = apply_fn(A, new_args)
        memo[a] = out
        return out

    def ps(p):
        if not any(a in mp or ATOMS[a].kind in ("sqrt", "fn") for a in p.atoms()):
            return Rat(p)
        out = Rat.const(0)
        plain = {}
        for m, c in p.t.items():
            sub = [(a, e) for a, e in m if a in mp or ATOMS[a].kind in ("sqrt", "fn")]
            if not sub:
                plain[m] = c
                continue
            rest = tuple((a, e) for a, e in m if not (a in mp or ATOMS[a].kind in ("sqrt", "fn")))
            term = Rat(Poly({rest: c}))
            for a, e in sub:
                v = at(a)
                term = term * power(v, e) if not isinstance(v, float) else inf_mul(term, v)
                if isinstance(term, float):
                    return term
            out = out + term
        return out + Rat(Poly(plain))

    n = ps(r.num)
    for f, e in r.den:
        d = ps(f)
        if isinstance(n, float):
            return n
        if isinstance(d, float):
            n = Rat.const(0) if math.isinf(d) else NAN
            continue
        n = n / power(d, e)
    return n


def apply_fn(A, args):
    nm = A.info["name"]
    if nm == "abs":
        return absv(args[0])
    if nm in ("max", "min"):
        return _minmax(nm, args)
    if nm == "root":
        return power(args[0], Fraction(1, A.info["q"]))
    if nm == "pow":
        return power(args[0], args[1])
    extra = {k: v for k, v in A.info.items() if k not in ("name", "args")}
    return fn(nm, args, A.lo, A.hi, key=A.args[0][len(nm):] or None, **extra)


# ---------------------------------------------------------------- structure
def degree_in(p, pred):
    """Largest total degree of p in atoms satisfying pred."""
    return max([sum(e for a, e in m if pred(ATOMS[a])) for m in p.t] or [0])


def all_atoms(r, acc=None):
    """Atoms of r, including those inside function arguments."""
    acc = set() if acc is None else acc
    if isinstance(r, float):
        return acc
    for a in R(r).atoms():
        if a in acc:
            continue
        acc.add(a)
        A = ATOMS[a]
        if A.kind == "sqrt":
            all_atoms(Rat(A.info), acc)
        elif A.kind == "fn":
            for x in (A.info or {}).get("args", ()):
                all_atoms(x, acc)
    return acc


def coeff(r, atom_id):
    """(coefficient of atom, rest) for r linear in the atom with atom not in den."""
    r = R(r)
    c, rest = {}, {}
    for m, v in r.num.t.items():
        d = dict(m)
        e = d.pop(atom_id, 0)
        if e == 0:
            rest[m] = v
        elif e == 1:
            c[tuple(sorted(d.items()))] = v
        else:
            return None
    den = dict(r.den)
    return Rat.make(Poly(c), den), Rat.make(Poly(rest), den)


def collect(r, pred):
    """Split the numerator by the monomial in atoms satisfying pred:
    {mono: Rat coefficient}."""
    r = R(r)
    out = {}
    for m, v in r.num.t.items():
        k = tuple((a, e) for a, e in m if pred(ATOMS[a]))
        rest = tuple((a, e) for a, e in m if not pred(ATOMS[a]))
        out.setdefault(k, {})[rest] = v
    return {k: Rat.make(Poly(t), dict(r.den)) for k, t in out.items()}


# ---------------------------------------------------------------- units
class UnitError(Exception):
    pass


def punit(p):
    """Unit of a polynomial: tuple, None for zero; raises UnitError if mixed."""
    u = None
    first = None
    for m in p.t:
        v = (0, 0, 0)
        for a, e in m:
            au = atom_unit(ATOMS[a])
            if au is None:
                raise UnitError(f"unknown unit of {ATOMS[a].name}")
            v = tuple(x + e * y for x, y in zip(v, au))
        if u is None:
            u, first = v, m
        elif u != v:
            raise UnitError(f"adds {mono_name(first)} [{unit_name(u)}] and {mono_name(m)} [{unit_name(v)}]")
    return u


def mono_name(m):
    return "*".join(ATOMS[a].name + (f"^{e}" if e != 1 else "") for a, e in m) or "a pure number"


def unit_name(u):
    return " ".join(f"{n}^{x}" for n, x in zip("LMT", u) if x) or "1"


def atom_unit(A):
    if A.unit is not None:
        return A.unit
    if A.kind == "sqrt":
        u = punit(A.info)
        A.unit = tuple(Fraction(x) / 2 for x in u)
        A.unit = tuple(_co(x) for x in A.unit)
        return A.unit
    if A.kind == "fn":
        nm = A.info["name"]
        if nm in ("abs", "max", "min", "trunc"):
            us = {unit(x) for x in A.info["args"] if not isinstance(x, float)} - {None}
            if len(us) > 1:
                raise UnitError(f"{nm} of quantities with units {', '.join(map(unit_name, us))}")
            A.unit = us.pop() if us else (0, 0, 0)
            return A.unit
        if nm == "root":
            u = unit(A.info["args"][0])
            A.unit = tuple(_co(Fraction(x) / A.info["q"]) for x in u)
            return A.unit
    return None


def unit(r):
    if isinstance(r, float):
        return None
    r = R(r)
    u = punit(r.num)
    if u is None:
        return None
    for f, e in r.den:
        v = punit(f)
        u = tuple(x - e * y for x, y in zip(u, v))
    return u


# ---------------------------------------------------------------- numeric evaluation of abstract values (witness search)
def evalf(r, env):
    """Evaluate an abstract value at an assignment {atom_id: float}; used only to
    exhibit a witness that refutes an inequality between abstract values."""
    if isinstance(r, float):
        return r
    r = R(r)

    def at(a):
        if a in env:
            return env[a]
        A = ATOMS[a]
        if A.kind == "sqrt":
            x = pv(A.info)
            v = math.sqrt(x) if x > 0 else 0.0
        elif A.name == "pi":
            v = math.pi
        elif A.kind == "fn":
            nm = A.info["name"]
            xs = [evalf(x, env) for x in A.info["args"]]
            if nm == "abs":
                v = abs(xs[0])
            elif nm == "max":
                v = max(xs)
            elif nm == "min":
                v = min(xs)
            elif nm == "root":
                v = max(xs[0], 0.0) ** (1.0 / A.info["q"])
            elif nm in NUMFN:
                v = NUMFN[nm](*xs)
            else:
                raise KeyError(nm)
        else:
            raise KeyError(A.name)
        env[a] = v
        return v

    def pv(p):
        s = 0.0
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:
                v *= at(a) ** e
            s += v
        return s

    n = pv(r.num)
    for f, e in r.den:
        d = pv(f)
        if d == 0:
            return NAN
        n /= d**e
    return n


NUMFN = {"trunc": lambda x: float(math.trunc(x)), "floor": lambda x: float(math.floor(x)), "ceil": lambda x: float(math.ceil(x)), "exp": lambda x: math.exp(min(x, 50)), "log": lambda x: math.log(x) if x > 0 else NAN, "sin": math.sin, "cos": math.cos, "tan": math.tan, "arctan": math.atan, "atan": math.atan, "round": lambda x, *k: float(round(x)), "sign": lambda x: float((x > 0) - (x < 0)), "pow": lambda x, y: x**y if x > 0 else NAN,
    "cp.norm2": lambda *xs: math.sqrt(sum(x * x for x in xs)), "cp.abs": abs, "cp.square": lambda x: x * x, "cp.pos": lambda x: max(x, 0.0), "cp.max": lambda *xs: max(xs), "cp.min": lambda *xs: min(xs), "cp.norm1": lambda *xs: sum(map(abs, xs)), "cp.norm_inf": lambda *xs: max(map(abs, xs)), "cp.sum_squares": lambda *xs: sum(x * x for x in xs), "cp.sqrt": lambda x: math.sqrt(max(x, 0.0))}


def sample_env(atoms, rnd):
    env = {}
    rots = {}
    for a in atoms:
        A = ATOMS[a]
        if A.kind in ("sqrt", "fn", "const"):
            continue
        if A.kind == "rot":
            rot = A.info[0]
            if rot.uid not in rots:
                rots[rot.uid] = rot.numeric(rnd)
            env[a] = float(rots[rot.uid][A.info[1], A.info[2]])
            continue
        lo, hi = A.lo, A.hi
        if lo == -INF and hi == INF:
            env[a] = rnd.gauss(0, 1.5)
        elif hi == INF:
            env[a] = float(lo) + rnd.choice([0.1, 0.5, 1, 2, 5]) * rnd.uniform(0.3, 1.5)
        elif lo == -INF:
            env[a] = float(hi) - rnd.uniform(0.2, 3)
        else:
            t = rnd.choice([0.0, 1.0, rnd.random(), rnd.random()])
            if A.info and isinstance(A.info, dict) and A.info.get("strict") and t == 0.0:
                t = 0.3
            env[a] = float(lo) + t * (float(hi) - float(lo))
    return env


def prove_nonneg(r, depth=0):
    """True if r >= 0 for all values of its atoms (sufficient argument found)."""
    if isinstance(r, float):
        return r >= 0
    r = R(r)
    if r.is_zero():
        return True
    if nonneg(r):
        return True
    num = r.num
    for f, e in r.den:
        if e % 2 == 0 or nonneg(Rat(f)):
            continue
        if nonneg(Rat(f.scale(-1))):
            num = num.scale(-1)
            continue
        return False
    # pull out a common nonnegative monomial factor
    r2 = Rat(num)
    if depth > 10:
        return False
    # rotation columns: replace a repeated polynomial by using R R^T = I is done by
    # the caller; here: multi-affine vertex argument in bounded atoms
    for a in sorted(num.atoms()):
        A = ATOMS[a]
        if A.kind == "rot" or A.lo == -INF or A.hi == INF or A.lo == A.hi:
            continue
        if degree_in(num, lambda x: x.id == a) == 1 and not inside_fn(r2, a):
            ok = True
            for v in (A.lo, A.hi):
                s = subst(r2, {a: Rat.const(frac_(v) if isinstance(v, float) else v)})
                if not prove_nonneg(s, depth + 1):
                    ok = False
                    break
            return ok
    # |x|, max and min atoms of degree 1 with a signed coefficient
    for a in sorted(num.atoms()):
        A = ATOMS[a]
        if A.kind != "fn" or A.info.get("name") not in ("abs", "max", "min") or degree_in(num, lambda x: x.id == a) != 1 or inside_fn(r2, a):
            continue
        args = [R(x) for x in A.info["args"]]
        hi = A.info["name"] != "min"
        if A.info["name"] == "abs":
            args = [args[0], -args[0]]
        if len(args) > 8 or depth > 4:
            continue
        k, rest = coeff(r2, a)
        up = prove_nonneg(k, depth + 1)
        dn = False if up else prove_nonneg(-k, depth + 1)
        if not (up or dn):
            continue
        q = any if up == hi else all
        if q(prove_nonneg(rest + k * x, depth + 1) for x in args):
            return True
    # half-bounded atoms, degree 1: lower end and slope
    for a in sorted(num.atoms()):
        A = ATOMS[a]
        if A.kind == "rot" or A.lo == -INF or A.hi != INF or A.kind == "sqrt":
            continue
        if degree_in(num, lambda x: x.id == a) == 1 and not inside_fn(r2, a):
            c = coeff(r2, a)
            s0 = subst(r2, {a: Rat.const(frac_(A.lo) if isinstance(A.lo, float) else A.lo)})
            if prove_nonneg(c[0], depth + 1) and prove_nonneg(s0, depth + 1):
                return True
    s = psqrt_exact(num)
    if s is not None:
        return True
    if sum_of_squares(num) or projection_form(num):
        return True
    # bounded root atoms with degree 2: p in [0,1] -> 1 - p^2
    for a in sorted(num.atoms()):
        A = ATOMS[a]
        if A.kind == "rot" or A.lo == -INF or A.hi == INF or A.lo == A.hi or A.kind == "sqrt":
            continue
        if inside_fn(r2, a):
            continue
        cs = collect(r2, lambda x: x.id == a)
        ks = [dict(k).get(a, 0) for k in cs]
        if all(k % 2 == 0 for k in ks) and max(ks) == 2 and A.lo in (0, -1) and A.hi == 1:
            t = new("t", 0, 1, unit=(0, 0, 0))
            tid = as_atom(t).id
            s = Rat.const(0)
            for k, c in cs.items():
                e = dict(k).get(a, 0)
                s = s + c * power(t, e // 2)
            return prove_nonneg(s, depth + 1)
    return False


def sum_of_squares(p):
    """Greedy completion of squares over monomials: p = sum c_k s_k^2, c_k > 0."""
    if len(p.t) > 400:
        return False
    for _ in range(60):
        if p.is_zero():
            return True
        best = None
        for m, c in sorted(p.t.items()):
            if c > 0 and all(e % 2 == 0 for _, e in m):
                best = m, c
                break
        if best is None:
            return False
        m, c = best
        root = {a: e // 2 for a, e in m}
        s = {tuple(sorted(root.items())): 1}
        for k, v in p.t.items():
            if k == m:
                continue
            d = dict(k)
            if all(d.get(a, 0) >= e for a, e in root.items()):
                q = tuple(sorted((a, e - root.get(a, 0)) for a, e in d.items() if e - root.get(a, 0)))
                s[q] = Fraction(v) / (2 * c)
        if len(s) > 60 or any(isinstance(v, Fraction) and v.denominator.bit_length() > 96 for v in s.values()):
            return False
        sq = Poly(s)
        n = p.add(sq.mul(sq).scale(c), -1)
        if len(n.t) > 400 or m in n.t:
            return False
        p = n
    return False


def projection_form(p):
    """p = x^T G x for free atoms x (normal samples, coordinates) with G free of x,
    symmetric and a multiple of a projection: G G = k G with k > 0."""
    free = {a for a in p.atoms() if ATOMS[a].kind != "rot" and ATOMS[a].lo == -INF and ATOMS[a].hi == INF and ATOMS[a].kind in ("var", "draw")}
    if not free or not any(ATOMS[a].kind == "rot" for a in p.atoms()):
        return False
    xs = sorted(free)
    cs = collect(Rat(p), lambda A: A.id in free)
    n = len(xs)
    G = [[Rat.const(0)] * n for _ in range(n)]
    for mono, c in cs.items():
        if sum(e for _, e in mono) != 2:
            return False
        ix = [xs.index(a) for a, e in mono for _ in range(e)]
        i, j = ix
        if i == j:
            G[i][i] = G[i][i] + c
        else:
            G[i][j] = G[i][j] + c * Fraction(1, 2)
            G[j][i] = G[j][i] + c * Fraction(1, 2)
    k = None
    for i in range(n):
        for j in range(n):
            q = Rat.const(0)
            for l in range(n):
                q = q + G[i][l] * G[l][j]
            if k is None and not G[i][j].is_zero():
                k = rot_reduce(q / G[i][j]) if q.num.divide(G[i][j].num) is not None else None
                k = Rat.const(1) if k is None else k
            if not q.same(G[i][j] * (k or Rat.const(1))):
                return False
    return k is None or is_pos(k) or k.same(Rat.const(1))


def inside_fn(r, a):
    for b in R(r).atoms():
        if b != a and ATOMS[b].kind in ("sqrt", "fn"):
            if a in all_atoms(Rat.atom(ATOMS[b])):
                return True
    return False


def refute_nonneg(r, assume=(), tries=400, margin=1e-7, seed=1):
    """Search for an assignment with r < -margin (and all `assume` >= 0)."""
    import random as _r

    rnd = _r.Random(seed)
    if isinstance(r, float):
        return {} if not (r >= 0) else None
    atoms = all_atoms(r)
    for x in assume:
        atoms |= all_atoms(x)
    for _ in range(tries):
        env = sample_env(atoms, rnd)
        try:
            base = dict(env)
            if any(evalf(x, env) < 0 for x in assume):
                continue
            v = evalf(r, env)
        except (KeyError, OverflowError, ZeroDivisionError, TypeError):
            return None
        if v == v and v < -margin:
            return {ATOMS[a].name: round(x, 4) for a, x in base.items()}
    return None
