"""Transfer functions for the double-description library.

Row lists handed to the library are recorded.  What the library computes (the
other representation, the canonical subset of rows) is supplied by the
scenario of the obligation, as abstract rows, or is a fresh set of rows.
"""
import numpy as np

from . import alg
from .alg import Rat
from .interp import Arr, Native, Opaque, Raised, Undecided


class Mat:
    def __init__(self, rows, lin, rep, number_type):
        self.rows, self.lin, self.rep, self.nt = rows, frozenset(lin), rep, number_type
        self.origin = None


def install(I):
    REPS = {"INEQUALITY": "INEQUALITY", "GENERATOR": "GENERATOR", "UNSPECIFIED": "UNSPECIFIED"}

    class Rep:
        def __init__(self, n):
            self.n = n

        def __repr__(self):
            return f"RepType.{self.n}"

    rep = {n: Rep(n) for n in REPS}

    def rows_of(x):
        a = I.arr(x) if not isinstance(x, Arr) else x
        if a.k == "cp":
            raise Undecided("expression in cdd.Matrix")
        if a.a.ndim == 1 and a.a.size == 0:
            return []
        if a.a.ndim != 2:
            raise I.err("TypeError", "rows expected")
        for v in a.a.reshape(-1):
            if isinstance(v, float):
                raise I.err("ValueError", "non-finite entry in cdd.Matrix")
        return [list(r) for r in a.a]

    def make(rows, linear=False, number_type=None):
        rs = rows_of(rows) if not isinstance(rows, Raw) else rows
        m = Native("cdd.Matrix", rows=list(rs), lin=set(range(len(rs))) if linear is True else set(), rep=rep["UNSPECIFIED"], where=I.where(), fname=I.fname(), canon=0, made_from=rows)
        return dress(m)

    class Raw(list):
        pass

    def dress(m):
        def lin_get():
            return frozenset(m.lin)

        def setat(n, v):
            if n == "rep_type":
                if not isinstance(v, Rep):
                    raise I.err("TypeError", "rep_type")
                m.rep = v
            elif n == "lin_set":
                m.lin = {I.as_int(x) for x in I.iterate(v)}
            elif n in ("obj_type", "obj_func"):
                pass
            else:
                raise I.err("AttributeError", f"'cdd.Matrix' object has no attribute {n!r}")

        def canonicalize():
            m.canon += 1
            I.records.append(("canonicalize", m, list(m.rows), set(m.lin), I.where()))
            hook = I.scenario.get("canonicalize")
            if hook is not None:
                hook(m)
            return (frozenset(), frozenset())

        def extend(rows, linear=False):
            rs = rows_of(rows)
            n = len(m.rows)
            m.rows.extend(rs)
            if linear:
                m.lin |= set(range(n, n + len(rs)))

        def getitem(i):
            if isinstance(i, slice):
                return [tuple(r) for r in m.rows[i]]
            k = I.as_int(i)
            if not -len(m.rows) <= k < len(m.rows):
                raise I.err("IndexError", "row index out of range")
            return tuple(m.rows[k])

        def copy():
            c = Native("cdd.Matrix", rows=[list(r) for r in m.rows], lin=set(m.lin), rep=m.rep, where=I.where(), fname=I.fname(), canon=m.canon, made_from=m)
            return dress(c)

        def ga(n):
            if n == "row_size":
                return len(m.rows)
            if n == "col_size":
                return len(m.rows[0]) if m.rows else getattr(m, "ncol", 0)
            if n == "lin_set":
                return lin_get()
            if n == "rep_type":
                return m.rep
            if n in ("obj_type", "obj_func"):
                return Opaque(n)
            raise I.err("AttributeError", f"'cdd.Matrix' object has no attribute {n!r}")

        m.attrs.update({"canonicalize": canonicalize, "extend": extend, "__getitem__": getitem, "copy": copy, "__setattr__": setat, "__getattr__": ga, "__iter__": lambda: iter([tuple(r) for r in m.rows]), "__len__": lambda: len(m.rows)})
        return m

    def from_rows(rows, lin=(), rtype="INEQUALITY", ncol=None):
        m = dress(Native("cdd.Matrix", rows=[list(r) for r in rows], lin=set(lin), rep=rep[rtype], where=I.where(), fname=I.fname(), canon=0, made_from=None))
        if ncol is not None:
            m.ncol = ncol
        return m

    I.cdd_from_rows = from_rows

    def polyhedron(m):
        if not (isinstance(m, Native) and m.name == "cdd.Matrix"):
            raise I.err("TypeError", "cdd.Polyhedron expects a cdd.Matrix")
        if m.rep.n == "UNSPECIFIED":
            raise I.err("ValueError", "rep_type unspecified")
        p = Native("cdd.Polyhedron", mat=m, where=I.where(), fname=I.fname())
        I.records.append(("polyhedron", m, m.rep.n, [list(r) for r in m.rows], set(m.lin), I.where()))

        def other(kind):
            def f():
                I.records.append(("get_" + kind, m, m.rep.n, I.where()))
                hook = I.scenario.get("cdd")
                if hook is None:
                    raise Undecided("representation conversion by cdd")
                r = hook(kind, m)
                if r is None:
                    raise Undecided("representation conversion by cdd")
                rows, lin = r
                ncol = len(m.rows[0]) if m.rows else None
                return from_rows(rows, lin, "INEQUALITY" if kind == "inequalities" else "GENERATOR", ncol)

            return f

        p.attrs.update({"get_inequalities": other("inequalities"), "get_generators": other("generators")})

        def ga(n):
            if n == "rep_type":
                return m.rep
            if n in ("get_adjacency", "get_incidence", "get_input_adjacency", "get_input_incidence"):
                raise Undecided(n)
            raise I.err("AttributeError", f"'cdd.Polyhedron' object has no attribute {n!r}")

        p.attrs["__getattr__"] = ga
        return p

    mt = Native("cdd.Matrix", {"__call__": make}, test=lambda v: isinstance(v, Native) and v.name == "cdd.Matrix" and hasattr(v, "rows"))
    pt = Native("cdd.Polyhedron", {"__call__": polyhedron}, test=lambda v: isinstance(v, Native) and v.name == "cdd.Polyhedron")
    rt = Native("cdd.RepType", dict(rep))
    ns = {"Matrix": mt, "Polyhedron": pt, "RepType": rt, "__getattr__": lambda n: missing(n)}

    def missing(n):
        if n in ("LinProg", "LPObjType", "LPSolverType", "LPStatusType", "NumberTypeable", "Fraction", "get_number_type_from_sequences", "get_number_type_from_value"):
            raise Undecided(f"cdd.{n}")
        raise I.err("AttributeError", f"module 'cdd' has no attribute {n!r}")

    I.natives["cdd"] = Native("cdd", ns)
    I.natives["tqdm"] = Native("tqdm", {"tqdm": lambda x=None, *a, **k: x if x is not None else Native("bar"), "trange": lambda n, *a, **k: range(I.as_int(n)), "__call__": lambda x, *a, **k: x})
