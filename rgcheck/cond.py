"""Abstract truth values: atomic comparisons between algebraic values and their
boolean combinations, in a normal form."""
import math
from .alg import Rat, R, interval, is_pos, prove_nonneg, subst, absv, unit, evalf


class B:
    """Undetermined truth value. op: cmp | close | and | or | not | opq."""

    __slots__ = ("op", "args")

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __repr__(self):
        if self.op == "cmp":
            return f"[{self.args[1]!r} {self.args[0]} 0]"
        if self.op == "close":
            x, y, rt, at = self.args
            return f"[|{x!r} - {y!r}| <= {at!r} + {rt!r}*|.|]"
        if self.op == "not":
            return f"not {self.args[0]!r}"
        if self.op == "opq":
            return f"?{self.args[0]}"
        return "(" + f" {self.op} ".join(map(repr, self.args)) + ")"

    # numpy object arrays call these
    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __bool__(self):
        raise TypeError("abstract truth value")

    __hash__ = object.__hash__


def cmp(op, a, b):
    """a op b for scalars."""
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    if op == "!=":
        return bnot(cmp("==", a, b))
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa or fb:
        if (fa and math.isnan(a)) or (fb and math.isnan(b)):
            return False
        if fa and fb:
            return {"<": a < b, "<=": a <= b, "==": a == b}[op]
        # finite vs infinite
        if fa:
            return {"<": a < 0, "<=": a < 0, "==": False}[op]
        return {"<": b > 0, "<=": b > 0, "==": False}[op]
    d = R(a) - R(b)
    if isinstance(d, float):
        return False
    t = _decide_cmp(op, d)
    if t is not None:
        return t
    return B("cmp", op, d)


def _decide_cmp(op, d):
    if d.is_zero():
        return op != "<"
    if d.is_const():
        v = d.value()
        return {"<": v < 0, "<=": v <= 0, "==": False}[op]
    if op == "==":
        if is_pos(d) or is_pos(-d):
            return False
        lo, hi = interval(d)
        if lo > 0 or hi < 0:
            return False
        return None
    if is_pos(d):
        return False
    lo, hi = interval(d)
    if lo > 0 or (op == "<" and lo >= 0):
        return False
    if hi < 0 or (op == "<=" and hi <= 0) or is_pos(-d):
        return True
    if op == "<=" and prove_nonneg(-d):
        return True
    if op == "<" and prove_nonneg(d):
        return False
    return None


def close(x, y, rtol, atol, equal_nan=False):
    fx, fy = isinstance(x, float), isinstance(y, float)
    if fx or fy:
        if fx and fy:
            if math.isnan(x) or math.isnan(y):
                return bool(equal_nan and math.isnan(x) and math.isnan(y))
            return x == y
        return False
    x, y = R(x), R(y)
    d = x - y
    if d.is_zero():
        return True
    tol = R(atol)
    if not R(rtol).is_zero():
        tol = tol + R(rtol) * absv(y)
    if tol.is_zero():
        t = _decide_cmp("==", d)
        return B("cmp", "==", d) if t is None else t
    if d.is_const() and tol.is_const():
        return abs(d.value()) <= tol.value()
    lo, hi = interval(absv(d) - tol)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    return B("close", x, y, R(rtol), R(atol))


def truth(v):
    """bool | B for a scalar used as a condition."""
    if isinstance(v, B) or isinstance(v, bool):
        return v
    if isinstance(v, Rat):
        return cmp("!=", v, 0)
    return bool(v)


def band(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if isinstance(x, (int,)) and not isinstance(x, bool):
            raise TypeError
        if isinstance(x, B) and x.op == "and":
            out += x.args
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return B("and", *out)


def bor(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if isinstance(x, B) and x.op == "or":
            out += x.args
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return B("or", *out)


def bnot(x):
    if isinstance(x, bool):
        return not x
    if x.op == "not":
        return x.args[0]
    if x.op == "cmp" and x.args[0] in ("<", "<="):
        op, d = x.args
        return B("cmp", "<=" if op == "<" else "<", -d)
    if x.op == "and":
        return bor(*[bnot(y) for y in x.args])
    if x.op == "or":
        return band(*[bnot(y) for y in x.args])
    return B("not", x)


def bsubst(b, mp, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(b, B):
        return b
    if b.op == "cmp":
        return cmp(b.args[0], subst(b.args[1], mp, memo), 0)
    if b.op == "close":
        return close(*[subst(a, mp, memo) for a in b.args])
    if b.op == "and":
        return band(*[bsubst(x, mp, memo) for x in b.args])
    if b.op == "or":
        return bor(*[bsubst(x, mp, memo) for x in b.args])
    if b.op == "not":
        return bnot(bsubst(b.args[0], mp, memo))
    if b.op == "psd":
        m = b.args[0].copy()
        for i, x in enumerate(b.args[0].reshape(-1)):
            m.reshape(-1)[i] = subst(x, mp, memo)
        return B("psd", m)
    return b


def bleaves(b):
    if not isinstance(b, B):
        return
    if b.op in ("and", "or", "not"):
        for x in b.args:
            yield from bleaves(x)
    else:
        yield b


def beval(b, env):
    """Truth of b at a numeric assignment (witness search)."""
    if isinstance(b, bool):
        return b
    if b.op == "cmp":
        v = evalf(b.args[1], env)
        return {"<": v < 0, "<=": v <= 0, "==": v == 0}[b.args[0]]
    if b.op == "close":
        x, y, rt, at = [evalf(a, env) for a in b.args]
        return abs(x - y) <= at + rt * abs(y)
    if b.op == "and":
        return all(beval(x, env) for x in b.args)
    if b.op == "or":
        return any(beval(x, env) for x in b.args)
    if b.op == "not":
        return not beval(b.args[0], env)
    if b.op == "psd":
        return min_eig(b, env) >= -1e-9
    raise KeyError(b.op)


def min_eig(b, env):
    import numpy as np

    m = np.array([[evalf(x, env) for x in row] for row in b.args[0]], dtype=float)
    if not np.isfinite(m).all():
        raise ValueError("not finite")
    return float(np.linalg.eigvalsh((m + m.T) / 2).min()) / (1 + float(np.abs(m).max()))


def batoms(b):
    from .alg import all_atoms

    s = set()
    for l in bleaves(b):
        if l.op == "cmp":
            all_atoms(l.args[1], s)
        elif l.op == "close":
            for a in l.args:
                all_atoms(a, s)
        elif l.op == "psd":
            for a in l.args[0].reshape(-1):
                all_atoms(a, s)
    return s


def conj_ineqs(b):
    """List of Rats d (each meaning d <= 0) when b is a conjunction of weak
    inequalities / closeness tests; None otherwise.  |x| <= c gives two."""
    if b is True:
        return []
    if b is False or not isinstance(b, B):
        return None
    if b.op == "and":
        out = []
        for x in b.args:
            r = conj_ineqs(x)
            if r is None:
                return None
            out += r
        return out
    if b.op == "cmp" and b.args[0] == "<=":
        return split_abs(b.args[1])
    if b.op == "cmp" and b.args[0] == "==":
        return [b.args[1], -b.args[1]]
    if b.op == "close":
        x, y, rt, at = b.args
        if not rt.is_zero():
            return None
        return [x - y - at, y - x - at]
    return None


def split_abs(d):
    """d <= 0 with |x| or max(..) occurring positively -> several inequalities."""
    from .alg import ATOMS, coeff, nonneg

    for a in sorted(d.atoms()):
        A = ATOMS[a]
        if A.kind == "fn" and A.info.get("name") in ("abs", "max"):
            c = coeff(d, a)
            if c is None:
                continue
            k, rest = c
            if not (is_pos(k)):
                continue
            xs = A.info["args"]
            if A.info["name"] == "abs":
                xs = [xs[0], -xs[0]]
            out = []
            for x in xs:
                out += split_abs(rest + k * x)
            return out
    return [d]
