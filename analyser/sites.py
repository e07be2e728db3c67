"""Where values of a type are made, opened for writing or changed: a walk over all MIR."""
from collections import defaultdict


def place_types(prog, body, place):
    """Types along a place: [(type before the projection, variant, projection)] and the final type."""
    t = prog.types[body["locals"][place[0]]]
    v = 0
    steps = []
    for p in place[1]:
        steps.append((t, v, p))
        if p == "*":
            t, v = box_or_elem(prog, t), 0
        elif p[0] == "d":
            v = p[1]
        elif p[0] == "f":
            t, v = prog.types[p[2]], 0
        elif p[0] in ("i", "ci"):
            t, v = prog.types[t.d["e"]] if t is not None and t.d.get("e") is not None else None, 0
        elif p[0] == "oc":
            t, v = prog.types[p[1]], 0
        if t is None:
            break
    return steps, t


def box_or_elem(prog, t):
    if t.d.get("e") is not None:
        return t.elem
    if t.k == "adt" and t.adt_args():
        return t.adt_args()[0]
    return None


def fn_consts(prog, x, out):
    """Instances named as constants anywhere in a piece of MIR."""
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "k" and isinstance(x[1], int) and x[1] in prog.types:
            t = prog.types[x[1]]
            if t.k in ("fndef", "closure") and t.d.get("inst") is not None:
                out.add(t.d["inst"])
        for y in x:
            fn_consts(prog, y, out)
    elif isinstance(x, dict):
        for y in x.values():
            fn_consts(prog, y, out)


class Sites:
    def __init__(self, prog):
        self.prog = prog
        self.callers = defaultdict(set)     # instance -> instances that name it
        self.made = defaultdict(list)       # type id -> [(instance, where)]
        self.opened = defaultdict(list)     # type id -> [(instance, where, how)]
        for i in prog.insts.values():
            if i.body is not None:
                self.walk(i)

    def walk(self, i):
        prog, body = self.prog, i.body
        refs = set()
        for b in body["blocks"]:
            fn_consts(prog, b["t"], refs)
            for s in b["s"]:
                fn_consts(prog, s, refs)
                if s[0] == "=":
                    self.assign(i, body, s, b.get("sp"))
            t = b["t"]
            if t[0] == "call":
                self.written(i, body, t[3], b.get("sp"), "the result of a call is stored in")
        for t in body["locals"]:
            t = prog.types[t]
            if t.k == "closure" and t.d.get("inst") is not None:
                refs.add(t.d["inst"])
        for r in refs:
            self.callers[r].add(i.id)

    def assign(self, i, body, s, at):
        self.written(i, body, s[1], at, "writes")
        rv = s[2]
        if rv[0] == "agg" and rv[1][0] == "adt":
            self.made[rv[1][1]].append((i, at))
        if rv[0] == "ref" and rv[1] or rv[0] == "addr":
            self.written(i, body, rv[2] if rv[0] == "ref" else rv[1], at, "borrows for writing")
        if rv[0] == "cast" and "Transmute" in rv[1]:
            self.made[rv[3]].append((i, at))

    def written(self, i, body, place, at, how):
        steps, _ = place_types(self.prog, body, place)
        for t, v, p in steps:
            if t is not None and t.k == "adt" and p != "*" and p[0] == "f":
                self.opened[t.id].append((i, at, how))
