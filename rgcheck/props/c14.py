"""Effect analysis: every public operation is evaluated on abstract operands (objects,
arrays, lists, dictionaries and what they contain); along every analysed trace the
observable content of each operand and of the object itself before and after the call
must be the same abstract value, also when the call ends in an exception."""
from ..core import *
from ..catalog import ops, scenario, snapshot
from ..build import *

LEVEL = "other"
RULE = "the abstract content (by path: attributes, elements, array entries, dictionary items) of every operand reachable before the call equals its content after the call; attributes added by the call are not operands"
ASSUMPTIONS = ["operands are those of the catalogue in rgcheck/catalog.py, one abstract instance of each kind and argument form"]


def changed(a, b):
    return [k for k in a if b.get(k) != a[k]]


def check(C):
    todo, skipped = ops(C)
    limit = 40 if C.thorough else 10

    def one(op):
        def f():
            C.I.scenario.update(scenario(C))
            thunk, ext = op.prepare(C)
            before = {p: snapshot(C, v, p) for p, v in ext.items()}
            for p, v in ext.items():
                C.I.mark_external(v, p)
            end = "returns"
            try:
                thunk()
            except Raised as e:
                end = f"raises {e.kind}"
            for p, v in ext.items():
                after = snapshot(C, v, p)
                ch = changed(before[p], after)
                if ch:
                    w = [f"{what} at {where} in {fn}" for lab, what, where, fn in C.I.effects if lab.split(".")[0].split("[")[0] == p]
                    yield ("diff", f"{op.label}: operand {ch[0]} is changed by the call ({end}){': ' + w[0] if w else ''}")
                else:
                    yield ("proved", f"{op.label}: operand {p} unchanged on a trace that {end}")

        C.run("operands-unchanged", op.construct, f, limit=limit, flip=lambda d: True)

    C.parallel(todo, one)
    C.extra = {"operations_analysed": len(todo), "operations_skipped": skipped}
