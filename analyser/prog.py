"""Loader for the MIR dump written by /verif/driver (types, instances, statics)."""
import json
import re


class Ty:
    __slots__ = ("id", "s", "d", "k", "prog")

    def __init__(self, prog, rec):
        self.prog = prog
        self.id = rec["id"]
        self.s = rec["s"]
        self.d = rec["d"]
        self.k = rec["d"]["k"]

    def __repr__(self):
        return "Ty(%s)" % self.s

    @property
    def elem(self):
        return self.prog.types[self.d["e"]]

    @property
    def name(self):
        return self.d.get("name")

    @property
    def variants(self):
        return self.d["v"]

    def field_tys(self, v=0):
        if self.k == "adt":
            return [self.prog.types[f[1]] for f in self.d["v"][v]["f"]]
        if self.k in ("tuple", "closure"):
            return [self.prog.types[f] for f in self.d["f"]]
        return []

    def field_names(self, v=0):
        if self.k == "adt":
            return [f[0] for f in self.d["v"][v]["f"]]
        return [str(i) for i in range(len(self.d["f"]))]

    def is_adt(self, name):
        return self.k == "adt" and self.d["name"] == name

    @property
    def is_enum(self):
        return self.k == "adt" and self.d["kind"] == "enum"

    def adt_args(self):
        return [self.prog.types[a] for a in self.d.get("args", []) if a is not None]

    def inside(self):
        """Local ADTs that values of the type may contain, itself included."""
        out, work, seen = set(), [self], set()
        while work:
            t = work.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.k == "adt":
                if t.d["name"].startswith("dbus_message_parser::"):
                    out.add(t.id)
                    for v in range(len(t.variants)):
                        work += t.field_tys(v)
                else:
                    work += t.adt_args()
            elif t.k in ("tuple", "closure"):
                work += t.field_tys()
            elif t.d.get("e") is not None:
                work.append(t.elem)
        return out

    @property
    def recursive(self):
        """A local type that contains itself (through boxes or collections)."""
        if self.k != "adt":
            return False
        return any(self.id in f.inside() for v in range(len(self.variants)) for f in self.field_tys(v))

    def int_range(self):
        if self.k == "bool":
            return (0, 1)
        if self.k == "char":
            return (0, 0x10FFFF)
        if self.k == "uint":
            return (0, (1 << self.d["w"]) - 1)
        if self.k == "int":
            w = self.d["w"]
            return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return None

    @property
    def is_int(self):
        return self.k in ("bool", "char", "uint", "int")

    def variant_index(self, name):
        for i, v in enumerate(self.d["v"]):
            if v["n"] == name:
                return i
        return None


class Inst:
    __slots__ = ("id", "name", "def_", "local", "kind", "intr", "args", "span", "body", "_cfg", "key", "prog")

    def __init__(self, prog, rec):
        self.prog = prog
        self.id = rec["id"]
        self.name = rec["name"]
        self.def_ = rec["def"]
        self.local = rec["local"]
        self.kind = rec["kind"]
        self.intr = rec.get("intr")
        self.args = rec["args"]
        self.span = rec.get("span")
        self.body = rec["body"]
        self._cfg = None
        self.key = norm_def(self.def_)
        if self.local:
            self.key = norm_impl(self.key)

    def __repr__(self):
        return "Inst(%s)" % self.name

    def short(self):
        return self.name.replace("dbus_message_parser::", "")

    def argname(self, k):
        """Name of the k-th parameter (from 0) in the source, or None."""
        nm = self.body["names"]
        for key in (k + 1, str(k + 1)):
            if isinstance(nm, dict) and key in nm:
                return nm[key]
        if isinstance(nm, list):
            for l, n in [x for x in nm if isinstance(x, (list, tuple)) and len(x) == 2]:
                if l == k + 1:
                    return n
        return None

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self.body)
        return self._cfg


_LT = re.compile(r"'[a-z_]+,? ?")


def norm_impl(key):
    """`m::<impl T>::f` is `T::f`, wherever the impl block stands; so for traits."""
    m = re.match(r"^[\w:]*::<impl (.*)>::(\w+)((?:::.*)?)$", key)
    if not m or "::<impl" in m.group(1):
        return key
    inner, f, rest = m.groups()
    depth = 0
    for i, c in enumerate(inner):
        depth += c in "<([" 
        depth -= c in ">)]" and inner[i - 1] != "-"
        if depth == 0 and inner.startswith(" for ", i):
            return "<%s as %s>::%s%s" % (inner[i + 5:], inner[:i], f, rest)
    return "%s::%s%s" % (inner, f, rest)


def norm_def(s):
    s = _LT.sub("", s)
    s = s.replace("<>", "").replace(", A>", ">")
    s = s.replace("::<>", "")
    s = re.sub(r"\b(core|alloc|std)::", "", s)
    s = re.sub(r"::$", "", s)
    return s


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    if k == "py":
        return [t[4]]
    return []


class Cfg:
    """Control-flow facts of one body: natural loops and live locals at loop heads."""

    def __init__(self, body):
        blocks = body["blocks"]
        n = len(blocks)
        self.succ = [succs(b["t"]) for b in blocks]
        order = []
        seen = [False] * n
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        idom = {rpo[0]: rpo[0]}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]

        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if dom(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body_:
                            body_.add(x)
                            st.extend(preds[x])
        # liveness (locals), address-taken locals are always live
        nl = len(body["locals"])
        self.taken = set()
        use = {}
        defs = {}

        def pl_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for x in p[1]:
                if isinstance(x, list) and x[0] == "i" and x[1] not in d:
                    u.add(x[1])

        def op_use(o, u, d):
            if o[0] in ("c", "m"):
                pl_use(o[1], u, d)

        for b in rpo:
            u, d = set(), set()
            for s in blocks[b]["s"]:
                if s[0] == "=":
                    rv = s[2]
                    for x in rv_operands(rv):
                        op_use(x, u, d)
                    for p in rv_places(rv):
                        pl_use(p, u, d)
                    if rv[0] in ("ref", "addr"):
                        p = rv[2] if len(rv) > 2 else rv[1]
                        if "*" not in p[1]:
                            self.taken.add(p[0])
                    if s[1][1]:
                        pl_use(s[1], u, d)
                    else:
                        d.add(s[1][0])
                elif s[0] == "sd":
                    pl_use(s[1], u, d)
            t = blocks[b]["t"]
            if t[0] == "switch":
                op_use(t[1], u, d)
            elif t[0] == "drop":
                pl_use(t[1], u, d)
            elif t[0] == "call":
                op_use(t[1], u, d)
                for x in t[2]:
                    op_use(x, u, d)
                if t[3][1]:
                    pl_use(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif t[0] == "assert":
                op_use(t[1], u, d)
                for x in t[4]:
                    op_use(x, u, d)
            elif t[0] == "py":
                u.update(t[3])
                d.update(t[2])
            elif t[0] == "ret":
                u.add(0)
            use[b], defs[b] = u, d
        live = {b: set() for b in rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                new = use[b] | (out - defs[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        self.live = live


def is_op(x):
    return isinstance(x, list) and len(x) >= 2 and x[0] in ("c", "m", "k", "rt") and isinstance(x[0], str) and (
        x[0] in ("k", "rt") or (isinstance(x[1], list) and len(x[1]) == 2 and isinstance(x[1][0], int)))


def rv_operands(rv):
    k = rv[0]
    if k in ("use", "cast", "un", "bin", "cbin", "rep", "agg"):
        for x in rv[1:]:
            if k == "agg" and isinstance(x, list) and x and isinstance(x[0], list):
                for y in x:
                    if is_op(y):
                        yield y
            elif is_op(x):
                yield x


def rv_places(rv):
    k = rv[0]
    if k in ("ref", "addr"):
        yield rv[2] if len(rv) > 2 else rv[1]
    elif k in ("copy", "discr", "len"):
        yield rv[1]


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.d = d
        self.types = {}
        for t in d["types"]:
            self.types[t["id"]] = Ty(self, t)
        self.insts = {}
        self.by_name = {}
        for i in d["insts"]:
            x = Inst(self, i)
            self.insts[x.id] = x
            self.by_name.setdefault(x.name, x)
        self.items = d["items"]
        self.statics = d["statics"]
        self.impls = d["impls"]
        self.by_s = {}
        for t in self.types.values():
            self.by_s.setdefault(t.s, t)
        self.u8 = self.prim("uint", 8)
        self.usize = self.by_s.get("usize")

    def prim(self, k, w=None):
        for t in self.types.values():
            if t.k == k and (w is None or t.d.get("w") == w):
                return t
        return None

    def local_insts(self):
        return [i for i in self.insts.values() if i.local and i.body]

    def find(self, rx):
        r = re.compile(rx)
        return [i for i in self.insts.values() if r.search(i.name)]

    def adt(self, name):
        """Local ADT type by last path segment(s)."""
        out = [t for t in self.types.values() if t.k == "adt" and (t.name == name or t.name.endswith("::" + name))]
        return out
