"""Abstract interpreter over the monomorphised MIR.

Flow- and context-sensitive, with trace partitioning.  Calls are analysed in
context (re-entered functions are replaced by their contract), loops are either
unrolled when their trip count is fixed by the abstract state or widened to a
fixpoint (partitioned on finite-valued locations, the rest generalised to fresh
symbols with inductively checked bounds).
"""
import os
import sys
from core import *
from prog import *
import words

sys.setrecursionlimit(20000)


class Down:
    """A symbolic enum value viewed as one of its variants."""
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t = t
        self.v = v


class State:
    __slots__ = ("mem", "facts", "ev")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.ev = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.ev = self.ev
        return s

    def event(self, *e):
        self.ev = self.ev + (e,)


class Frame:
    __slots__ = ("id", "inst", "body", "cfg")

    def __init__(self, fid, inst):
        self.id = fid
        self.inst = inst
        self.body = inst.body
        self.cfg = inst.cfg


class LoopRec:
    __slots__ = ("id", "inst", "head", "phis", "fins", "entry", "heads", "segs", "apps", "cands", "exit_states", "interp")

    def at(self, mem, loc):
        return self.interp.at(mem[loc[0]], loc[1])

    def __repr__(self):
        return "loop%s@%s" % (self.id, self.inst.short())


def forkcond(c):
    return Fork([lambda f: f.assume(c, True), lambda f: f.assume(c, False)], repr(c))


class Interp:
    PEEL = 0            # iterations of a loop that are told apart from the rest
    RANK = None         # "loops": are they left; "memory": what is it asked for in advance
    BOUND = 0           # if set, only this many iterations of a loop are followed

    def __init__(self, prog, natives, cuts=None, budget=400000):
        self.prog = prog
        self.natives = natives
        self.cuts = cuts or {}
        self.stack = []
        self.frames = []    # with RANK: states and arguments the functions on the stack were called with
        self.again, self.asks = [], []
        self.budget = budget
        self.steps = 0
        self.celltype = {}
        self.visited = set()
        self.sites = {}
        self.loops = []
        self.unroll_failed = set()
        self.opaque = {}
        self.trace = False
        self.max_part = 64
        self.peel = Interp.PEEL

    # ------------------------------------------------------------ memory
    def new_cell(self, st, val, ty=None, tag="h"):
        c = (tag, uid())
        st.mem[c] = val
        if ty is not None:
            self.celltype[c] = ty
        return c

    def decide(self, st, c):
        r = st.facts.decide(c)
        if r is None:
            raise forkcond(c)
        return r

    def variant_of(self, st, v):
        if isinstance(v, Agg):
            return v.v
        if isinstance(v, T):
            vs = st.facts.variants(v)
            if len(vs) == 1:
                return next(iter(vs))
            raise Fork([(lambda f, i=i: f.assume_variant(v, frozenset([i]))) for i in sorted(vs)], "variant %r" % v)
        raise Unsupported("variant_of %r" % (v,))

    def field(self, st, v, i, vi=None):
        if isinstance(v, Down):
            return sym_field(v.t, v.v, i)
        if isinstance(v, Agg):
            return v.f[i]
        if isinstance(v, T):
            if v.ty is not None and v.ty.k in ("adt", "tuple", "closure"):
                if v.ty.is_enum:
                    return sym_field(v, self.variant_of(st, v) if vi is None else vi, i)
                return sym_field(v, 0, i)
        if isinstance(v, (BoxV, Ptr)):
            return v
        if isinstance(v, Ref):
            return v
        raise Unsupported("field %s of %r" % (i, v))

    def project(self, st, v, e):
        k = e[0]
        if k == "f":
            if isinstance(v, Uninit):
                return UNINIT
            return self.field(st, v, e[1])
        if k == "d":
            if isinstance(v, T):
                return Down(v, e[1])
            if isinstance(v, Agg):
                if v.v != e[1]:
                    raise Unsupported("downcast mismatch %r" % (v,))
                return v
            return v
        if k == "*":
            if isinstance(v, (BoxV, Ref)):
                return v.v
            if isinstance(v, Ptr):
                return self.read(st, v)
            raise Unsupported("deref %r" % (v,))
        if k == "i":
            return self.seq_get(st, v, e[1])
        if k == "s":
            return self.seq_slice(st, v, e[1], e[2])
        raise Unsupported("proj %s" % (e,))

    def read(self, st, ptr):
        if ptr.cell not in st.mem:
            raise Unsupported("dangling %r" % (ptr,))
        v = st.mem[ptr.cell]
        for e in ptr.path:
            v = self.project(st, v, e)
        return v

    def upd(self, st, v, path, new, ty):
        if not path:
            return new
        e = path[0]
        if e[0] == "*":
            if isinstance(v, BoxV):
                ity = self.prog.types[ty.d["args"][0]] if ty is not None and ty.k == "adt" and ty.d["box"] else None
                return BoxV(self.upd(st, v.v, path[1:], new, ity))
            raise Unsupported("write through %r" % (v,))
        if e[0] == "d":
            if isinstance(v, T):
                if len(path) > 1 and path[1][0] == "f":
                    a = expand(v, e[1])
                    return self.upd(st, a, path[1:], new, None)
            if isinstance(v, Agg):
                return self.upd(st, v, path[1:], new, ty)
            if isinstance(v, Uninit) and ty is not None:
                return self.upd(st, Agg(ty, e[1], [UNINIT] * len(ty.field_tys(e[1]))), path[1:], new, ty)
            raise Unsupported("write variant %r" % (v,))
        if e[0] == "f":
            if isinstance(v, Uninit):
                if ty is None:
                    raise Unsupported("write field of uninit")
                if ty.k == "adt" and ty.d["kind"] == "union":
                    return self.upd(st, UNINIT, path[1:], new, ty.field_tys(0)[e[1]])
                v = Agg(ty, 0, [UNINIT] * len(ty.field_tys(0)))
            elif isinstance(v, T) and v.ty is not None and not v.ty.is_enum:
                v = expand(v)
            if isinstance(v, Agg):
                f = list(v.f)
                fty = None
                try:
                    fty = v.ty.field_tys(v.v)[e[1]]
                except Exception:
                    pass
                f[e[1]] = self.upd(st, f[e[1]], path[1:], new, fty)
                return Agg(v.ty, v.v, f)
            # union / transparent wrappers keep the payload itself
            return self.upd(st, v, path[1:], new, None)
        if e[0] == "i":
            if isinstance(v, Seq):
                return self.seq_set(st, v, e[1], lambda old: self.upd(st, old, path[1:], new, None))
        if e[0] == "s" and isinstance(v, Seq):
            a, rest = self.seq_split(st, v, e[1])
            b, c = self.seq_split(st, rest, st.facts.simp(sub(e[2], e[1])))
            return fuse(a.cat(self.upd(st, b, path[1:], new, None)).cat(c))
        raise Unsupported("write %s of %r" % (e, v))

    def write(self, st, ptr, new):
        if not ptr.path:
            st.mem[ptr.cell] = new
            return
        if ptr.cell not in st.mem:
            st.mem[ptr.cell] = UNINIT
        st.mem[ptr.cell] = self.upd(st, st.mem[ptr.cell], ptr.path, new, self.celltype.get(ptr.cell))

    # ------------------------------------------------------------ sequences
    def seq_elem(self, st, part, off):
        k = part[0]
        if k == "lit":
            if isinstance(off, int):
                return part[1][off]
            n = len(part[1])
            if all(veq(x, part[1][0]) for x in part[1]):
                return part[1][0]
            raise Fork([(lambda f, i=i: f.assume(eqi(off, i), True)) for i in range(n)], "index")
        if k == "sub":
            b = part[1]
            ety = seq_elem_ty(b.ty)
            i = st.facts.simp(add(part[2], off))
            return mk_sym(mk("elem", (b, i), ety), ety)
        if k == "num":
            off = st.facts.simp(off)
            if isinstance(off, int):
                w, e, x = part[1], part[2], part[3]
                j = off if e == "le" else w - 1 - off
                return num_byte(x, w, j, self.prog.u8)
        return mk("pelem", (uid(),), self.prog.u8)

    def seq_find(self, st, seq, idx):
        """(part number, offset inside the part) of a valid index."""
        off = st.facts.simp(idx)
        for n, p in enumerate(seq.p):
            ln = part_len(p)
            if self.decide(st, lt(off, ln)):
                return n, off
            off = st.facts.simp(sub(off, ln))
        return None, off

    def seq_get(self, st, seq, idx):
        if not isinstance(seq, Seq):
            raise Unsupported("index of %r" % (seq,))
        n, off = self.seq_find(st, seq, idx)
        if n is None:
            raise Unsupported("index out of range %r[%r]" % (seq, idx))
        return self.seq_elem(st, seq.p[n], off)

    def seq_set(self, st, seq, idx, f):
        n, off = self.seq_find(st, seq, idx)
        if n is None:
            raise Unsupported("index out of range (write)")
        p = seq.p[n]
        off = st.facts.simp(off)
        if p[0] == "num" and isinstance(off, int):
            p = ("lit", tuple(num_byte(p[3], p[1], j if p[2] == "le" else p[1] - 1 - j, self.prog.u8)
                              for j in range(p[1])))
        if p[0] == "lit" and isinstance(off, int):
            vs = list(p[1])
            vs[off] = f(vs[off])
            return fuse(Seq(seq.p[:n] + (("lit", tuple(vs)),) + seq.p[n + 1:]))
        if p[0] == "sub":
            old = self.seq_elem(st, p, off)
            return Seq(seq.p[:n] + (("sub", p[1], p[2], add(p[2], off)), ("lit", (f(old),)),
                                    ("sub", p[1], add(add(p[2], off), 1), p[3])) + seq.p[n + 1:])
        raise Unsupported("store into %r" % (p,))

    def seq_split(self, st, seq, at):
        """(seq[..at], seq[at..]) for 0 <= at <= len."""
        off = st.facts.simp(at)
        left = []
        for n, p in enumerate(seq.p):
            if isinstance(off, int) and off == 0:
                return Seq(left), Seq(seq.p[n:])
            ln = part_len(p)
            if p[0] == "sub" and st.facts.decide(le(off, ln)) and not (
                    n + 1 < len(seq.p) and st.facts.decide(eqi(off, ln))):
                a, b = self.part_split(st, p, off)
                return Seq(left + list(a)), Seq(list(b) + list(seq.p[n + 1:]))
            if self.decide(st, le(ln, off)):
                left.append(p)
                off = st.facts.simp(sub(off, ln))
                continue
            a, b = self.part_split(st, p, off)
            return Seq(left + list(a)), Seq(list(b) + list(seq.p[n + 1:]))
        return Seq(left), Seq()

    def part_split(self, st, p, off):
        if p[0] == "lit":
            if isinstance(off, int):
                return (("lit", p[1][:off]),), (("lit", p[1][off:]),)
            raise Fork([(lambda f, i=i: f.assume(eqi(off, i), True)) for i in range(len(p[1]) + 1)], "split")
        if p[0] == "sub":
            m = st.facts.simp(add(p[2], off))
            return (("sub", p[1], p[2], m),), (("sub", p[1], m, p[3]),)
        if p[0] == "num" and isinstance(off, int):
            bs = tuple(num_byte(p[3], p[1], j if p[2] == "le" else p[1] - 1 - j, self.prog.u8) for j in range(p[1]))
            return (("lit", bs[:off]),), (("lit", bs[off:]),)
        raise Unsupported("split of %r at %r" % (p, off))

    def seq_slice(self, st, seq, lo, hi):
        a, rest = self.seq_split(st, seq, lo)
        b, _ = self.seq_split(st, rest, sub(hi, lo))
        return b

    # ------------------------------------------------------------ places
    def resolve(self, st, fr, place):
        """Ptr for a memory place, or ('val', v) for a place behind a snapshot."""
        cell = (fr.id, place[0])
        path = ()
        val = None
        invalue = False
        for x in place[1]:
            if x == "*":
                v = val if invalue else self.read(st, Ptr(cell, path))
                if isinstance(v, Ptr):
                    cell, path, invalue = v.cell, v.path, False
                elif isinstance(v, Ref):
                    val, invalue = v.v, True
                elif isinstance(v, BoxV):
                    if invalue:
                        val = v.v
                    else:
                        path = path + (("*",),)
                elif isinstance(v, T):
                    e = self.prog.types[v.ty.d["e"]] if v.ty is not None and v.ty.k in ("ref", "ptr") else None
                    if e is None:
                        raise Unsupported("deref of %r" % (v,))
                    val, invalue = mk_sym(mk("deref", (v,), e), e), True
                else:
                    raise Unsupported("deref of %r" % (v,))
                continue
            if x[0] == "f":
                e = ("f", x[1])
            elif x[0] == "d":
                e = ("d", x[1])
            elif x[0] == "i":
                e = ("i", self.read(st, Ptr((fr.id, x[1]))))
            elif x[0] == "ci":
                if x[3]:
                    v = val if invalue else self.read(st, Ptr(cell, path))
                    e = ("i", sub(v.len(), x[1]))
                else:
                    e = ("i", x[1])
            elif x[0] == "oc":
                continue
            elif x[0] == "ss":
                v = val if invalue else self.read(st, Ptr(cell, path))
                n = v.len()
                hi = sub(n, x[2]) if x[3] else x[2]
                val, invalue = self.seq_slice(st, v, x[1], hi), True
                continue
            else:
                raise Unsupported("projection %s" % (x,))
            if invalue:
                val = self.project(st, val, e)
            else:
                # a struct field of a box / raw pointer denotes the pointer itself
                if e[0] == "f":
                    v = self.read(st, Ptr(cell, path))
                    if isinstance(v, (BoxV, Ptr, Ref)):
                        val, invalue = (Ptr(cell, path + (("*",),)) if isinstance(v, BoxV) else v), True
                        continue
                path = path + (e,)
        if invalue:
            return ("val", val)
        return Ptr(cell, path)

    def load(self, st, fr, place):
        r = self.resolve(st, fr, place)
        if isinstance(r, Ptr):
            v = self.read(st, r)
        else:
            v = r[1]
        if isinstance(v, Down):
            v = v.t
        return v

    def store(self, st, fr, place, v):
        if not place[1]:
            st.mem[(fr.id, place[0])] = v
            return
        r = self.resolve(st, fr, place)
        if not isinstance(r, Ptr):
            raise Unsupported("store to snapshot %r" % (r,))
        if r.path and r.cell not in self.celltype and r.cell[0] == fr.id:
            self.celltype[r.cell] = self.prog.types[fr.body["locals"][r.cell[1]]]
        self.write(st, r, v)

    # ------------------------------------------------------------ operands
    def constant(self, c, ty):
        k = c["c"]
        if k == "int":
            return c["v"]
        if k == "str":
            return Ref(bytes_seq(c["v"]))
        if k == "zst":
            if ty.k == "fndef":
                return Fn(ty.d.get("inst"), ty)
            if ty.k == "array":
                return Seq()
            if ty.k in ("closure", "tuple") or ty.k == "adt" and not ty.is_enum:
                return Agg(ty, 0, [self.constant(c, f) for f in ty.field_tys(0)])
            return Agg(ty, 0, ())
        if k == "ref":
            e = ty.elem if ty.k in ("ref", "ptr") else None
            return Ref(self.constant(c["v"], e) if e is not None else self.constant(c["v"], ty))
        if k == "arr":
            e = ty.elem if ty.k in ("array", "slice") else None
            return Seq((("lit", tuple(self.constant(x, e) if isinstance(x, dict) else x for x in c["v"])),))
        if k == "agg":
            vi = c["vi"]
            ftys = ty.field_tys(vi)
            if is_seq_ty(ty):
                # only the empty vector/string is a constant
                return Seq()
            return Agg(ty, vi, [self.constant(x, f) for x, f in zip(c["v"], ftys)])
        if k == "fn":
            return Fn(c["i"], ty)
        if k == "static":
            return Ref(mk("static", (c["n"],), ty.elem if ty.k in ("ref", "ptr") else ty))
        if k == "float":
            return mk("float", (str(c["v"]),), ty)
        return mk("const", (repr(c), ty.s), ty)

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.load(st, fr, o[1])
        if o[0] == "k":
            return self.constant(o[2], self.prog.types[o[1]])
        if o[0] == "rt":
            return 0
        raise Unsupported("operand %s" % (o,))

    def optype(self, fr, o):
        if o[0] == "k":
            return self.prog.types[o[1]]
        return self.place_ty(fr, o[1])

    def place_ty(self, fr, place):
        ty = self.prog.types[fr.body["locals"][place[0]]]
        v = 0
        for x in place[1]:
            if x == "*":
                if ty.k in ("ref", "ptr"):
                    ty = ty.elem
                elif ty.k == "adt" and ty.d["box"]:
                    ty = self.prog.types[ty.d["args"][0]]
            elif x[0] == "f":
                ty = self.prog.types[x[2]]
            elif x[0] in ("i", "ci"):
                ty = ty.elem
        return ty

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "addr"):
            if k == "ref":
                mut, place = rv[1], rv[2]
            else:
                mut, place = True, rv[-1]
            r = self.resolve(st, fr, place)
            if not isinstance(r, Ptr):
                v = r[1]
                return Ref(v.t if isinstance(v, Down) else v)
            if mut:
                return r
            v = self.read(st, r)
            if isinstance(v, Down):
                v = v.t
            return Ref(v)
        if k == "copy":
            return self.load(st, fr, rv[1])
        if k == "discr":
            ty = self.place_ty(fr, rv[1])
            if ty.is_enum:
                alive = [i for i in range(len(ty.variants)) if not uninhabited_variant(ty, i)]
                if len(alive) == 1:
                    return ty.variants[alive[0]]["d"]
            v = self.load(st, fr, rv[1])
            return self.discr(st, v)
        if k == "len":
            v = self.load(st, fr, rv[1])
            return v.len()
        if k == "agg":
            return self.aggregate(st, fr, rv[1], [self.operand(st, fr, o) for o in rv[2]])
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]),
                              self.optype(fr, rv[2]), dty)
        if k == "cbin":
            return self.checked(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]),
                                self.optype(fr, rv[2]), dty)
        if k == "un":
            return self.unop(st, rv[1], self.operand(st, fr, rv[2]), self.optype(fr, rv[2]))
        if k == "cast":
            return self.cast(st, fr, rv[1], rv[2], self.prog.types[rv[3]])
        if k == "rep":
            n = rv[2]
            v = self.operand(st, fr, rv[1])
            if isinstance(n, int) and n <= 4096:
                return Seq((("lit", (v,) * n),))
        raise Unsupported("rvalue %s" % (rv[:2],))

    def discr(self, st, v):
        if isinstance(v, Agg):
            if v.ty.is_enum:
                return v.ty.variants[v.v]["d"]
            return 0
        if isinstance(v, T):
            vs = st.facts.variants(v)
            if len(vs) == 1:
                return v.ty.variants[next(iter(vs))]["d"]
            return mk("discr", (v,))
        raise Unsupported("discr of %r" % (v,))

    def aggregate(self, st, fr, kind, ops):
        k = kind[0]
        if k == "tuple":
            # type is only needed for display
            return Agg(self.tuple_ty(len(ops)), 0, ops)
        if k == "array":
            return Seq((("lit", tuple(ops)),))
        if k == "adt":
            ty = self.prog.types[kind[1]]
            if ty.d["kind"] == "union":
                return ops[0]
            if is_seq_ty(ty):
                if not ops or not isinstance(ops[0], Seq):
                    raise Unsupported("aggregate of %s" % ty.s)
                return ops[0]
            return Agg(ty, kind[2], ops)
        if k == "closure":
            return Agg(self.prog.types[kind[1]], 0, ops)
        if k == "rawptr":
            return ops[0]
        raise Unsupported("aggregate %s" % (kind,))

    _tt = None

    def tuple_ty(self, n):
        if self._tt is None:
            self._tt = {}
        if n not in self._tt:
            for t in self.prog.types.values():
                if t.k == "tuple" and len(t.d["f"]) == n:
                    self._tt[n] = t
                    break
            else:
                self._tt[n] = next(t for t in self.prog.types.values() if t.k == "tuple")
        return self._tt[n]

    def scalar(self, st, v):
        if isinstance(v, (int, T)):
            return v
        raise Unsupported("scalar %r" % (v,))

    def undiscr(self, st, v):
        if isinstance(v, T) and v.op == "discr":
            return v.args[0].ty.variants[self.variant_of(st, v.args[0])]["d"]
        return v

    def binop(self, st, op, a, b, ty, dty):
        a = self.undiscr(st, a)
        b = self.undiscr(st, b)
        if isinstance(a, (Ref, Ptr, BoxV, Seq, Fn)) or isinstance(b, (Ref, Ptr, BoxV, Seq, Fn)):
            if op in ("Eq", "Ne"):
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    return int((a == b) == (op == "Eq"))
                if a == 0 and isinstance(a, int) or b == 0 and isinstance(b, int):
                    return int(op == "Ne")      # a reference is never null
                return mk("ptreq", (uid(),), self.prog.prim("bool"))
            if op == "Offset":
                raise Unsupported("pointer arithmetic")
            return mk("op", (op, uid()), dty)
        if ty.k == "float":
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                t = mk("b", ("f" + op, a, b), self.prog.prim("bool"))
                return t
            return mk("fop", (op, a, b), dty)
        f = st.facts
        a = f.simp(a)
        b = f.simp(b)
        if ty.k == "bool" and op in ("Eq", "Ne", "BitAnd", "BitOr", "BitXor", "Lt", "Gt", "Le", "Ge"):
            x = a if isinstance(a, int) else int(self.decide(st, a))
            if op == "BitAnd":
                return b if x else 0
            if op == "BitOr":
                return 1 if x else b
            if op in ("Eq",):
                return b if x else lnot(b)
            if op in ("Ne", "BitXor"):
                return lnot(b) if x else b
            y = b if isinstance(b, int) else int(self.decide(st, b))
            return int({"Lt": x < y, "Gt": x > y, "Le": x <= y, "Ge": x >= y}[op])
        if op == "Eq":
            return eqi(a, b)
        if op == "Ne":
            return lnot(eqi(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "Cmp":
            if self.decide(st, eqi(a, b)):
                vi = 1
            elif self.decide(st, lt(a, b)):
                vi = 0
            else:
                vi = 2
            return Agg(dty, vi, ())
        return self.arith(st, op, a, b, ty)

    def cond_int(self, st, x):
        """A boolean condition used as an integer."""
        if isinstance(x, T) and x.op in ("ge0", "eq0", "not", "b", "seqeq", "pred"):
            return int(self.decide(st, x))
        return x

    def arith(self, st, op, a, b, ty):
        f = st.facts
        a = self.cond_int(st, a)
        b = self.cond_int(st, b)
        rng = ty.int_range()
        unchecked = op.endswith("Unchecked")
        if unchecked:
            op = op[:-9]
        if op in ("Add", "Sub"):
            r = add(a, b) if op == "Add" else sub(a, b)
            if unchecked:
                return r
            return self.wrap(st, r, ty)
        if op == "Mul":
            r = None
            if isinstance(a, int):
                r = scale(b, a)
            elif isinstance(b, int):
                r = scale(a, b)
            if r is not None:
                r = words.exact(r)
                return r if unchecked else self.wrap(st, r, ty)
            la, ha = f.hull(a)
            lb, hb = f.hull(b)
            return mk("mul", (a, b), ty)
        if op in ("Div", "Rem"):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise Unsupported("division by zero")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == "Div" else a - q * b
            lo, hi = f.hull(a)
            if isinstance(b, int) and b > 0 and lo >= 0:
                if hi < b:
                    return 0 if op == "Div" else a
                if b in (1, 2, 4, 8):
                    r = self.residue(st, a, b)
                    if op == "Rem":
                        return r
                    return self.divide(st, sub(a, r), b)
                if op == "Rem":
                    t = mk("rem", (a, b), ty)
                    f.set_range(t, ((0, b - 1),))
                    return t
            t = mk(op.lower(), (a, b), ty)
            return t
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.bits(st, op, a, b, ty)
        if op in ("Shl", "Shr"):
            if isinstance(b, int) and isinstance(a, int):
                w = ty.d.get("w", 64)
                if op == "Shl":
                    return self.wrap(st, a << (b % w), ty)
                return a >> (b % w)
            if isinstance(b, int):
                if op == "Shl":
                    return self.wrap(st, words.exact(scale(a, 1 << b)), ty)
                if f.hull(a)[0] >= 0 and b <= 3:
                    r = self.residue(st, a, 1 << b)
                    return self.divide(st, sub(a, r), 1 << b)
            return mk(op.lower(), (a, b), ty)
        raise Unsupported("binop %s" % op)

    def divide(self, st, a, b):
        if isinstance(a, int):
            return a // b
        c, d = lin_parts(a)
        if c % b == 0 and all(k % b == 0 for k in d.values()):
            return mk_lin(c // b, {t: k // b for t, k in d.items()})
        q = mk("quot", (a, b))
        lo, hi = st.facts.hull(a)
        st.facts.set_range(q, ((lo // b, hi // b),))
        e = sub(scale(q, b), a)
        st.facts.lins = st.facts.lins + (e, scale(e, -1))
        return q

    def residue(self, st, x, m):
        if m == 1:
            return 0
        r, key = st.facts.residue_key(x, m)
        if key is not None:
            # partition the trace on the residue class (always modulo 8)
            r8, key = st.facts.residue_key(x, 8)
            if key is None:
                return r8 % m
            raise Fork([(lambda f, r=r: f.assume_cong(key, 8, r)) for r in range(8)], "residue %r" % key)
        return r

    def wrap(self, st, r, ty):
        rng = ty.int_range()
        if isinstance(r, int):
            if rng and not (rng[0] <= r <= rng[1]):
                w = rng[1] - rng[0] + 1
                r = (r - rng[0]) % w + rng[0]
            return r
        lo, hi = st.facts.hull(r)
        if rng[0] <= lo and hi <= rng[1]:
            return r
        if st.facts.entails_ge0(sub(r, rng[0])) and st.facts.entails_ge0(sub(rng[1], r)):
            return r
        # partition on the exact / wrapping cases
        if lo < rng[0] and not st.facts.entails_ge0(sub(r, rng[0])):
            if not self.decide(st, ge0(sub(r, rng[0]))):
                w = rng[1] - rng[0] + 1
                return add(r, w)
        if hi > rng[1]:
            if not self.decide(st, ge0(sub(rng[1], r))):
                w = rng[1] - rng[0] + 1
                return sub(r, w)
        return r

    def bits(self, st, op, a, b, ty):
        if isinstance(a, int) and isinstance(b, int):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
        if isinstance(a, int):
            a, b = b, a
        rng = ty.int_range()
        if op == "BitAnd" and isinstance(b, int):
            if b == rng[1] and rng[0] == 0:
                return a
            if b == 0:
                return 0
            if b in (1, 3, 7) and st.facts.hull(a)[0] >= 0:
                return self.residue(st, a, b + 1)
            inv = rng[1] - b if rng[0] == 0 else ~b
            if ty.k == "uint" and ty.d["w"] == 8 and inv & (inv + 1) == 0:
                # high bits of a byte: m * quotient, no partition needed
                m = inv + 1
                q = mk("hi", (a, m))
                lo, hi = st.facts.hull(a)
                st.facts.set_range(q, ((max(lo, 0) // m, hi // m),))
                for l in (sub(a, scale(q, m)), sub(add(scale(q, m), inv), a)):
                    if l not in st.facts.lins:
                        st.facts.lins = st.facts.lins + (l,)
                return scale(q, m)
            if inv in (1, 3, 7) and st.facts.hull(a)[0] >= 0:
                return sub(a, self.residue(st, a, inv + 1))
            lo, hi = st.facts.hull(a)
            if b & (b + 1) == 0 and 0 <= lo and hi <= b:
                return a
            t = mk("and", (a, b), ty)
            if b >= 0:
                st.facts.set_range(t, ((0, b),))
            return t
        if op in ("BitOr", "BitXor") and isinstance(b, int) and b == 0:
            return a
        if op in ("BitOr", "BitXor"):
            ma, mb = words.ones(st.facts, a), words.ones(st.facts, b)
            if ma is not None and mb is not None and not ma & mb:
                r = add(a, b)
                x = words.word(self, st, r, ty)
                return r if x is None else x
        return mk(op.lower(), (a, b), ty)

    def checked(self, st, op, a, b, ty, dty):
        f = st.facts
        a = f.simp(self.cond_int(st, self.undiscr(st, a)))
        b = f.simp(self.cond_int(st, self.undiscr(st, b)))
        rng = ty.int_range()
        if op == "Add":
            r = add(a, b)
        elif op == "Sub":
            r = sub(a, b)
        elif op == "Mul":
            if isinstance(a, int):
                r = scale(b, a)
            elif isinstance(b, int):
                r = scale(a, b)
            else:
                r = mk("mul", (a, b), ty)
            r = words.exact(r)
            if isinstance(r, T) and r.op == "mul":
                lo = f.hull(a)[1] * f.hull(b)[1]
                return Agg(dty, 0, [r, 0 if lo <= rng[1] else mk("b", ("ovf", r), self.prog.prim("bool"))])
        else:
            raise Unsupported("checked %s" % op)
        lo, hi = f.hull(r)
        over = 0
        if lo < rng[0]:
            over = lnot(ge0(sub(r, rng[0])))
            d = f.decide(over)
            if d is not None:
                over = int(d)
            elif hi > rng[1]:
                raise forkcond(over)
        if over == 0 and hi > rng[1]:
            over = lnot(ge0(sub(rng[1], r)))
            d = f.decide(over)
            if d is not None:
                over = int(d)
        return Agg(dty, 0, [r, over])

    def unop(self, st, op, a, ty):
        if op == "Not":
            if ty.k == "bool":
                return lnot(a)
            rng = ty.int_range()
            if rng[0] == 0:
                return sub(rng[1], a)
            return sub(-1, a)
        if op == "Neg":
            if ty.k == "float":
                return mk("fneg", (a,), ty)
            return self.wrap(st, scale(a, -1), ty)
        if op == "PtrMetadata":
            v = a
            if isinstance(v, Ptr):
                v = self.read(st, v)
            elif isinstance(v, (Ref, BoxV)):
                v = v.v
            if isinstance(v, Seq):
                return v.len()
        raise Unsupported("unop %s %r" % (op, a))

    def cast(self, st, fr, kind, o, ty):
        if kind == "BoxDerefTransmute":
            place = o[1]
            pr = list(place[1])
            while pr and isinstance(pr[-1], list) and pr[-1][0] == "f":
                base = [place[0], pr]
                r = self.resolve(st, fr, [place[0], pr[:-1]])
                v = self.read(st, r) if isinstance(r, Ptr) else r[1]
                pr = pr[:-1]
                if isinstance(v, (BoxV, Ptr)):
                    if isinstance(v, Ptr):
                        return v
                    if isinstance(r, Ptr):
                        return Ptr(r.cell, r.path + (("*",),))
                    return Ref(v.v)
            raise Unsupported("box deref")
        v = self.operand(st, fr, o)
        if kind in ("IntToInt",):
            v = self.undiscr(st, v)
            return self.int_cast(st, self.cond_int(st, v), ty)
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "FnPtrToPtr"):
            return v
        if kind in ("Transmute", "Subtype"):
            if ty.k in ("ptr", "ref") or not isinstance(v, (int, T)):
                return v
            src = self.optype(fr, o)
            if src.is_int and ty.is_int:
                return self.int_cast(st, v, ty)
            if ty.k in ("uint", "int") and isinstance(v, (Ref, Ptr, BoxV)):
                return mk("addr", (uid(),), ty)
            if ty.is_enum and isinstance(v, int):
                for i, x in enumerate(ty.variants):
                    if x["d"] == v:
                        return Agg(ty, i, ())
            if ty.is_enum and src.is_int:
                alts = []
                t = mk("transmute", (v,), ty)
                for i, x in enumerate(ty.variants):
                    if not x["f"] and st.facts.decide(eqi(v, x["d"])) is not False:
                        alts.append((i, x["d"]))
                if len(alts) == 1 and st.facts.decide(eqi(v, alts[0][1])):
                    return Agg(ty, alts[0][0], ())
                raise Fork([(lambda f, d=d: f.assume(eqi(v, d), True)) for _, d in alts], "transmute")
            return words.transmuted(v, ty)
        return mk("cast", (kind, v if isinstance(v, (int, T)) else uid()), ty)

    def int_cast(self, st, v, ty):
        rng = ty.int_range()
        if rng is None:
            return mk("cast", (v,), ty)
        if isinstance(v, int):
            w = rng[1] - rng[0] + 1
            return (v - rng[0]) % w + rng[0]
        lo, hi = st.facts.hull(v)
        if rng[0] <= lo and hi <= rng[1]:
            return v
        if st.facts.entails_ge0(sub(v, rng[0])) and st.facts.entails_ge0(sub(rng[1], v)):
            return v
        if v.op == "trunc" and ty.d.get("w", 64) <= v.ty.d.get("w", 64):
            return self.int_cast(st, v.args[0], ty)
        return mk("trunc", (v, ty.s), ty)

    # ------------------------------------------------------------ execution
    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            dty = self.place_ty(fr, s[1])
            v = self.rvalue(st, fr, s[2], dty)
            if s[2][0] == "agg" and s[2][1][0] == "tuple":
                v = Agg(dty, 0, v.f)
            self.store(st, fr, s[1], v)
        elif k == "sd":
            r = self.resolve(st, fr, s[1])
            v = self.read(st, r)
            ty = self.place_ty(fr, s[1])
            if isinstance(v, Uninit):
                self.write(st, r, Agg(ty, s[2], [UNINIT] * len(ty.field_tys(s[2]))))
            elif isinstance(v, Agg):
                if v.v != s[2]:
                    self.write(st, r, Agg(v.ty, s[2], v.f))
            else:
                raise Unsupported("set discriminant")
        elif k == "assume":
            c = self.operand(st, fr, s[1])
            st.facts.assume(c, True)
        elif k == "copynov":
            raise Unsupported("copy_nonoverlapping")
        else:
            pass

    def exec_block(self, st, fr, bb):
        """-> list of ('goto', st, bb) / ('ret', st, val) / ('panic', st, info)."""
        blk = fr.body["blocks"][bb]
        stmts = blk["s"]
        out = []
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            try:
                while i < len(stmts):
                    self.stmt(s, fr, stmts[i])
                    i += 1
                out.extend(self.term(s, fr, bb, blk["t"]))
            except Fork as f:
                for alt in f.alts:
                    s2 = s.copy()
                    if alt(s2.facts):
                        work.append((s2, i))
            except Unsupported as e:
                if not getattr(e, "where", None):
                    e.where = "%s bb%d" % (fr.inst.short(), bb)
                raise
            except (LookupError, TypeError, ValueError, AttributeError, AssertionError, ArithmeticError) as e:
                u = Unsupported("a construct the interpreter does not follow (%s: %s)" % (type(e).__name__, e))
                u.where = "%s bb%d" % (fr.inst.short(), bb)
                if os.environ.get("DBUS_STRICT"):
                    sys.stderr.write("%s at %s\n" % (u, u.where))
                raise u from e
        return out

    def split_cond(self, st, c):
        """[(state, bool)] for a boolean value."""
        if isinstance(c, int):
            return [(st, bool(c))]
        d = st.facts.decide(c)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        out = []
        if s2.facts.assume(c, True):
            out.append((s2, True))
        if st.facts.assume(c, False):
            out.append((st, False))
        return out

    def term(self, st, fr, bb, t):
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported("analysis budget exceeded")
        Clock.check()
        k = t[0]
        if k == "goto":
            return [("goto", st, t[1])]
        if k == "py":
            out = []
            work = [st]
            while work:
                s0 = work.pop()
                try:
                    for r in t[1](self, s0.copy(), fr):
                        if r[0] == "panic":
                            out.append(r)
                            continue
                        for i, v in zip(t[2], r[1]):
                            r[0].mem[(fr.id, i)] = v
                        out.append(("goto", r[0], t[4]))
                except Fork as f:
                    for alt in f.alts:
                        s2 = s0.copy()
                        if alt(s2.facts):
                            work.append(s2)
            return out
        if k == "ret":
            v = st.mem.get((fr.id, 0), UNINIT)
            return [("ret", st, v)]
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "drop":
            return [("goto", st, t[2])]
        if k == "assert":
            msg = t[3]
            if msg in ("misaligned", "nullptr", "null", "nullref"):    # impossible in safe code (C26)
                return [("goto", st, t[5])]
            c = self.operand(st, fr, t[1])
            out = []
            self.site("assert", fr, bb, msg)
            for s, b in self.split_cond(st, c):
                if b == bool(t[2]):
                    out.append(("goto", s, t[5]))
                else:
                    out.append(("panic", s, ("assert", fr.inst, bb, msg)))
            return out
        if k == "call":
            return self.do_call(st, fr, bb, t)
        if k == "unreach":
            return []
        if k in ("resume", "abort"):
            return []
        raise Unsupported("terminator %s" % k)

    def site(self, kind, fr, bb, msg):
        self.sites[(kind, fr.inst.id, bb, msg)] = self.sites.get((kind, fr.inst.id, bb, msg), 0) + 1

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        targets, other = t[2], t[3]
        if isinstance(v, T) and v.op == "discr":
            e = v.args[0]
            vs = st.facts.variants(e)
            out = []
            rest = set(vs)
            groups = {}
            for d, b in targets:
                for i in vs:
                    if e.ty.variants[i]["d"] == d:
                        groups.setdefault(b, set()).add(i)
                        rest.discard(i)
            if rest:
                groups.setdefault(other, set()).update(rest)
            for b, g in groups.items():
                # one partition per variant keeps later reasoning exact
                s = st.copy()
                if s.facts.assume_variant(e, frozenset(g)):
                    out.append(("goto", s, b))
            return out
        v = st.facts.simp(v) if isinstance(v, (int, T)) else v
        if isinstance(v, int):
            for d, b in targets:
                if d == v:
                    return [("goto", st, b)]
            return [("goto", st, other)]
        if isinstance(v, T):
            if v.op in ("ge0", "eq0", "not", "b", "seqeq", "pred") or (v.ty is not None and v.ty.k == "bool"):
                out = []
                for s, b in self.split_cond(st, v):
                    for d, tb in targets:
                        if d == int(b):
                            out.append(("goto", s, tb))
                            break
                    else:
                        out.append(("goto", s, other))
                return out
            out = []
            cur = st
            # group equal targets to keep partitions small
            groups = {}
            for d, b in targets:
                groups.setdefault(b, []).append(d)
            alive = True
            for b, ds in groups.items():
                if len(ds) == 1:
                    c = eqi(v, ds[0])
                    s2 = cur.copy()
                    if s2.facts.assume(c, True):
                        out.append(("goto", s2, b))
                    if not cur.facts.assume(c, False):
                        alive = False
                        break
                else:
                    cc, dd = lin_parts(v)
                    if len(dd) == 1 and list(dd.values()) == [1]:
                        a = next(iter(dd))
                        rs = iv_norm([(x - cc, x - cc) for x in ds])
                        s2 = cur.copy()
                        if s2.facts.set_range(a, rs):
                            out.append(("goto", s2, b))
                        if not cur.facts.set_range(a, iv_minus(cur.facts.ranges(a), rs)):
                            alive = False
                            break
                    else:
                        for x in ds:
                            s2 = cur.copy()
                            if s2.facts.assume(eqi(v, x), True):
                                out.append(("goto", s2, b))
                            if not cur.facts.assume(eqi(v, x), False):
                                alive = False
                                break
            if alive:
                out.append(("goto", cur, other))
            return out
        raise Unsupported("switch on %r" % (v,))

    def do_call(self, st, fr, bb, t):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, o) for o in t[2]]
        if not isinstance(f, Fn):
            raise Unsupported("indirect call %r" % (f,))
        if f.inst is None:
            raise Unsupported("unresolved callee %s" % (f.ty.s if f.ty else f))
        inst = self.prog.insts[f.inst]
        dty = self.place_ty(fr, t[3])
        out = []
        for r in self.call(inst, args, st, dty, (fr, bb)):
            if r[0] == "ret":
                if t[4] is None:
                    continue
                work = [r[1]]
                while work:
                    s = work.pop()
                    try:
                        self.store(s, fr, t[3], r[2])
                        out.append(("goto", s, t[4]))
                    except Fork as f_:
                        for alt in f_.alts:
                            s2 = s.copy()
                            if alt(s2.facts):
                                work.append(s2)
            else:
                out.append(r)
        return out

    def call(self, inst, args, st, dty=None, site=None):
        """Abstract call: list of ('ret', st, v) / ('panic', st, info)."""
        cut = self.cuts.get(inst.id)
        if cut is not None and (self.stack or cut[1]):
            r = self.native(cut[0], inst, args, st, dty, site)
            if r is not None:
                return r
        if Interp.RANK == "memory":
            import ranks
            n = ranks.asked(inst, args)
            if n is not None:
                who = self.stack[-1] if self.stack else None
                st.event("alloc", self.prog.insts[who].short() if who is not None else inst.short(), inst.short(), n, st.facts.copy())
                self.asks.append(st.ev[-1])
        nat = self.natives.lookup(inst)
        if nat is not None:
            r = self.native(nat, inst, args, st, dty, site)
            if r is not None:
                return r
        if inst.id in self.stack and not (self.stack.count(inst.id) < 40
                                          and all(self.literal(st, a) for a in args)):
            if Interp.BOUND:
                return self.inline(inst, args, st, site) if self.stack.count(inst.id) <= Interp.BOUND else []
            from contracts import recursion_cut
            if Interp.RANK == "loops":
                import ranks
                for i, st0, args0 in self.frames[::-1]:
                    if i == inst.id:
                        self.again.append(ranks.descends(self, st, inst, args, st0, args0))
                        break
            return self.native(recursion_cut, inst, args, st, dty, site)
        if inst.body is None:
            r = self.constructor(inst, args, st, dty)
            if r is not None:
                return r
            self.opaque[inst.key] = self.opaque.get(inst.key, 0) + 1
            raise Unsupported("no model for %s" % inst.name)
        return self.inline(inst, args, st, site)

    def constructor(self, inst, args, st, dty):
        """A tuple variant / tuple struct used as a function."""
        last = inst.def_.split("::")[-1]
        if dty is None or dty.k != "adt" or not last[:1].isupper():
            return None
        if dty.is_enum:
            i = dty.variant_index(last)
            if i is None or len(dty.field_tys(i)) != len(args):
                return None
            return [("ret", st, Agg(dty, i, args))]
        if dty.d["name"].split("::")[-1] == last and len(dty.field_tys(0)) == len(args):
            return [("ret", st, Agg(dty, 0, args))]
        return None

    def literal(self, st, v):
        """A constant (recursion on constants ends by itself)."""
        if isinstance(v, Ptr):
            return self.literal(st, self.read(st, v))
        if isinstance(v, (Ref, BoxV)):
            return self.literal(st, v.v)
        if isinstance(v, Agg):
            return all(self.literal(st, x) for x in v.f)
        if isinstance(v, Seq):
            ls = v.lits()
            return ls is not None and all(self.literal(st, x) for x in ls)
        return isinstance(v, int)

    def native(self, fn, inst, args, st, dty, site):
        out = []
        work = [st]
        while work:
            s0 = work.pop()
            s = s0.copy()
            try:
                r = fn(self, s, inst, args, dty, site)
                if r is None:
                    return None
                for x in r:
                    out.append(x if len(x) == 3 else ("ret",) + tuple(x))
            except Fork as f:
                for alt in f.alts:
                    s2 = s0.copy()
                    if alt(s2.facts):
                        work.append(s2)
        return out

    def inline(self, inst, args, st, site=None):
        body = inst.body
        argc = body["argc"]
        if len(args) != argc:
            # rust-call ABI: last argument is a tuple
            if args and isinstance(args[-1], Agg):
                args = list(args[:-1]) + list(args[-1].f)
        elif argc >= 2 and not body.get("spread") and isinstance(args[-1], Agg) and args[-1].ty.k == "tuple" \
                and ("{closure" in inst.name.split("::")[-1] or "closure" in inst.key.split("::")[-1]):
            lt_ = self.prog.types[body["locals"][argc]]
            if len(args[-1].f) == 1 and not (lt_.k == "tuple" and lt_.d["f"] == args[-1].ty.d["f"]):
                args = list(args[:-1]) + list(args[-1].f)
        if len(args) != argc:
            raise Unsupported("arity of %s" % inst.name)
        fr = Frame(uid(), inst)
        self.visited.add(inst.id)
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
        self.stack.append(inst.id)
        if Interp.RANK == "loops":
            self.frames.append((inst.id, st.copy(), list(args)))
        try:
            res = self.region(st, fr, 0, None, None)
        finally:
            self.stack.pop()
            if Interp.RANK == "loops":
                self.frames.pop()
        out = []
        for r in res:
            if r[0] in ("ret", "panic"):
                s = r[1]
                for i in range(len(body["locals"])):
                    s.mem.pop((fr.id, i), None)
                out.append(r)
        return out

    def region(self, st, fr, start, blocks, head):
        """Explore from start; edges to `head` yield ('back', st); edges leaving
        `blocks` yield ('exit', st, bb)."""
        out = []
        work = [(st, start, True)]
        loops = fr.cfg.loops
        while work:
            s, bb, first = work.pop()
            if not first:
                if bb == head:
                    out.append(("back", s))
                    continue
                if blocks is not None and bb not in blocks:
                    out.append(("exit", s, bb))
                    continue
            if bb in loops and not (first and bb == head):
                rs = self.loop(s, fr, bb)
            else:
                rs = self.exec_block(s, fr, bb)
            for r in rs:
                if r[0] in ("goto", "exit"):
                    work.append((r[1], r[2], False))
                else:
                    out.append(r)
        return out

    # ------------------------------------------------------------ loops
    def loop(self, st, fr, h):
        body = fr.cfg.loops[h]
        live = fr.cfg.live[h] | fr.cfg.taken
        for i in range(len(fr.body["locals"])):
            if i not in live:
                st.mem.pop((fr.id, i), None)
        key = (fr.inst.id, h)
        # bounded unrolling
        cur = [st.copy()]
        done = []
        ok = False
        limit = 9
        k = 0
        while cur:
            nxt = []
            total = 0
            for s in cur:
                try:
                    rs = self.region(s, fr, h, body, h)
                except Unsupported:
                    rs = None
                if rs is None:
                    break
                for r in rs:
                    total += 1
                    if r[0] == "back":
                        nxt.append(r[1])
                    else:
                        done.append(r)
            if rs is None:
                break
            k += 1
            if not nxt:
                ok = True
                break
            # (a loop that runs to the next multiple of eight has seven ways to go on)
            if len(nxt) > 4 and (len(nxt) > 8 or len(nxt) >= len(cur) and k > 1):
                break
            if total > 1 and (k >= limit or key in self.unroll_failed):
                break
            if k > 600:
                break
            cur = nxt
        if ok:
            return done
        self.unroll_failed.add(key)
        if Interp.BOUND:
            # executions that leave the loop in time, each of them exactly
            heads, done = [st.copy()], []
            for i in range(Interp.BOUND + 1):
                nxt = []
                for s in heads:
                    for r in self.region(s, fr, h, body, h):
                        if r[0] == "back":
                            nxt.append(r[1])
                        else:
                            done.append(r)
                heads = nxt[:24]
            return done
        # the first iterations apart, if asked for
        heads, done = [st], []
        for _ in range(self.peel):
            nxt, early = [], []
            for s in heads:
                for r in self.region(s.copy(), fr, h, body, h):
                    if r[0] == "back":
                        for i in range(len(fr.body["locals"])):
                            if i not in live:
                                r[1].mem.pop((fr.id, i), None)
                        nxt.append(r[1])
                    else:
                        early.append(r)
            if len(nxt) > 6:
                break
            heads = nxt
            done += early
        for s in heads:
            done += self.widen(s, fr, h, body)
        return done

    # location-wise comparison ------------------------------------------------
    def diff(self, a, b, path, out, ty):
        if veq(a, b):
            return
        if isinstance(a, Uninit) or isinstance(b, Uninit):
            out.append((path, a, b, ty))
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and a.ty is b.ty and a.v == b.v:
            ftys = a.ty.field_tys(a.v)
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                self.diff(x, y, path + (("f", i),), out, ftys[i] if i < len(ftys) else None)
            return
        if isinstance(a, T) and isinstance(b, Agg) and a.ty is b.ty and not b.ty.is_enum:
            return self.diff(expand(a), b, path, out, ty)
        if isinstance(a, Agg) and isinstance(b, T) and a.ty is b.ty and not a.ty.is_enum:
            return self.diff(a, expand(b), path, out, ty)
        if isinstance(a, Nat) and isinstance(b, Nat) and a.k == b.k and len(a.f) == len(b.f):
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                self.diff(x, y, path + (("n", i),), out, None)
            return
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.diff(a.v, b.v, path + (("r",),), out, ty.elem if ty is not None and ty.k == "ref" else None)
        if isinstance(a, BoxV) and isinstance(b, BoxV):
            return self.diff(a.v, b.v, path + (("*",),), out, None)
        if isinstance(a, Seq) and isinstance(b, Seq):
            if len(a.p) == 1 and len(b.p) == 1 and a.p[0][0] == "sub" and b.p[0][0] == "sub" and a.p[0][1] is b.p[0][1]:
                for j in (2, 3):
                    self.diff(a.p[0][j], b.p[0][j], path + (("s", j),), out, self.prog.usize)
                return
        out.append((path, a, b, ty))

    def at(self, v, path):
        for e in path:
            if e[0] == "f":
                if isinstance(v, T):
                    v = expand(v)
                v = v.f[e[1]]
            elif e[0] == "n":
                v = v.f[e[1]]
            elif e[0] in ("r", "*"):
                v = v.v
            elif e[0] == "s":
                if not v.p:
                    return None
                v = v.p[0][e[1]]
        return v

    def put(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "f":
            if isinstance(v, T):
                v = expand(v)
            f = list(v.f)
            f[e[1]] = self.put(f[e[1]], path[1:], new)
            return Agg(v.ty, v.v, f)
        if e[0] == "n":
            f = list(v.f)
            f[e[1]] = self.put(f[e[1]], path[1:], new)
            return Nat(v.k, *f)
        if e[0] == "r":
            return Ref(self.put(v.v, path[1:], new))
        if e[0] == "*":
            return BoxV(self.put(v.v, path[1:], new))
        if e[0] == "s":
            p = list(v.p[0])
            p[e[1]] = self.put(p[e[1]], path[1:], new)
            return Seq((tuple(p),))
        raise Unsupported("put")

    def finite(self, v, ty):
        """Hashable key when v is a constant of a small domain, else None."""
        if isinstance(v, Agg) and v.ty.is_enum and not v.f:
            return ("v", v.v)
        if isinstance(v, Agg) and v.ty.is_enum and v.f:
            ks = [self.finite(x, None) for x in v.f]
            if all(k is not None for k in ks):
                return ("v", v.v) + tuple(ks)
            return None
        if isinstance(v, int):
            return ("i", v)
        if isinstance(v, Agg) and not v.f:
            return ("u",)
        if isinstance(v, Uninit):
            return ("⊥",)
        return None

    def widen(self, st, fr, h, body):
        base_cells = set(st.mem)
        W = {}      # (cell, path) -> kind: 'phi' | 'app'
        F = {}      # (cell, path) -> set of values seen
        rec = None
        dropped = set()
        extra = set()
        for round_ in range(60):
            res = self.widen_round(st, fr, h, body, base_cells, W, F, dropped, extra)
            if res is not None:
                return res
        raise Unsupported("no fixpoint for loop in %s" % fr.inst.short())

    def phi_value(self, st, hs, old, ty, key):
        """Fresh value generalising `old`."""
        if isinstance(old, (int, T)) and not (isinstance(old, T) and old.ty is not None and old.ty.k in ("adt",)):
            oty = None
            if ty is not None and ty.is_int:
                oty = ty
            elif isinstance(old, T) and old.ty is not None and old.ty.is_int:
                oty = old.ty
            elif isinstance(old, T) and old.ty is not None and old.ty.k == "float":
                oty = old.ty
            else:
                oty = self.prog.usize
            return mk("phi", key, oty)
        if isinstance(old, Seq):
            sty = ty
            if sty is None or not (is_seq_ty(sty)):
                sty = None
                for p in old.p:
                    if p[0] == "sub":
                        sty = p[1].ty
                if sty is None:
                    sty = self.prog.by_s.get("[u8]") or self.prog.by_s.get("str")
            return full(mk("phi", key, sty))
        if isinstance(old, Agg):
            return mk_sym(mk("phi", key, old.ty), old.ty)
        if isinstance(old, T):
            return mk_sym(mk("phi", key, old.ty), old.ty)
        if isinstance(old, Ref) and ty is not None:
            return mk_sym(mk("phi", key, ty), ty)
        raise Unsupported("generalise %r" % (old,))

    def widen_round(self, st, fr, h, body, cells, W, F, dropped, extra):
        rid = uid()
        Wl = sorted(W, key=repr)
        Fl = sorted(F, key=repr)

        def loc_val(mem, loc):
            return self.at(mem[loc[0]], loc[1])

        phis = {}
        head0 = st.copy()
        for n, loc in enumerate(Wl):
            old = loc_val(st.mem, loc)
            kind, ty = W[loc]
            if kind == "bot":
                new = UNINIT
            elif kind == "app":
                g = mk("phi", (rid, n), self.app_ty(old, ty))
                new = Seq(old.p + full(g).p)
                phis[loc] = (g, old, kind)
                head0.mem[loc[0]] = self.put(head0.mem[loc[0]], loc[1], new)
                continue
            else:
                new = self.phi_value(st, head0, old, ty, (rid, n))
            phis[loc] = (new, old, kind)
            head0.mem[loc[0]] = self.put(head0.mem[loc[0]], loc[1], new)
        # candidate invariants over the generalised integers
        ints = []
        for loc, (new, old, kind) in phis.items():
            if kind == "phi" and isinstance(new, T) and new.op == "phi" and isinstance(old, (int, T)) \
                    and new.ty is not None and new.ty.k in ("uint", "int"):
                ints.append((loc, new, old))
            elif kind == "app":
                ints.append((loc, mk("len", (new,)), 0))
            elif kind == "phi" and isinstance(old, Seq):
                ints.append((loc, mk("len", (new.p[0][1],)), old.len()))
        cands = []
        for a, (loc, x, e) in enumerate(ints):
            cands.append(((a, "ge"), [(x, 1)], sub(x, e)))
            cands.append(((a, "le"), [(x, 1)], sub(e, x)))
            for b in range(a + 1, len(ints)):
                x2, e2 = ints[b][1], ints[b][2]
                dlt = sub(sub(x, e), sub(x2, e2))
                cands.append(((a, b, "dge"), None, dlt))
                cands.append(((a, b, "dle"), None, scale(dlt, -1)))
                sm = add(sub(x, e), sub(x2, e2))
                cands.append(((a, b, "sge"), None, sm))
                cands.append(((a, b, "sle"), None, scale(sm, -1)))
        phi_index = {x: ("φ", a) for a, (_, x, _) in enumerate(ints)}
        for ek in sorted((k for k in extra if k[0] != "g"), key=repr):
            # ek: (const, ((('φ',a)|T, k)...)) linear form over phi indices
            c, its = ek
            d = {}
            good = True
            for t, k in its:
                if isinstance(t, tuple):
                    if t[1] >= len(ints):
                        good = False
                        break
                    d[ints[t[1]][1]] = k
                else:
                    d[t] = k
            if good:
                cands.append((("x",) + ek, None, mk_lin(c, d)))
        entry_sub = {x: e for (_, x, e) in ints}
        active = []
        for ck, _, lin in cands:
            if ck in dropped or isinstance(lin, int):
                continue
            at_entry = subst(lin, entry_sub)
            if st.facts.entails_ge0(at_entry) if not isinstance(at_entry, int) else at_entry >= 0:
                active.append((ck, lin))
        for ck, lin in active:
            if not head0.facts._assume_ge0(lin):
                raise Unsupported("inconsistent invariants")
        gactive = []
        for gk in sorted((k for k in extra if k[0] == "g"), key=repr):
            if ("x",) + gk in dropped or gk[1] not in phis:
                continue
            old = phis[gk[1]][1]
            if not self.guard_holds(st, old, gk):
                dropped.add(("x",) + gk)
                continue
            head0.facts._assume_ge0(self.guard_lin(phis[gk[1]][0], gk))
            gactive.append(gk)
        # explore head partitions
        ev0 = head0.ev

        def fin_key(mem):
            return tuple(self.finite(loc_val(mem, l), None) for l in Fl)

        heads = {}
        todo = []
        k0 = fin_key(head0.mem)
        heads[k0] = head0
        todo.append(k0)
        exits = []
        segs = []
        rec = LoopRec()
        rec.id = rid
        rec.inst = fr.inst
        rec.head = h
        fin_vals = {k0: [loc_val(head0.mem, l) for l in Fl]}
        while todo:
            key = todo.pop(0)
            hs = heads[key].copy()
            hs.ev = (("head", rec, key),)
            rs = self.region(hs, fr, h, body, h)
            for r in rs:
                if r[0] != "back":
                    exits.append((key, r))
                    continue
                b = r[1]
                changed = False
                for cell in cells:
                    if cell not in heads[key].mem:
                        continue
                    if cell not in b.mem:
                        d = [((), heads[key].mem[cell], UNINIT, None)]
                    else:
                        d = []
                        self.diff(heads[key].mem[cell], b.mem[cell], (), d, self.cell_ty(fr, cell))
                    for path, old, new, ty in d:
                        loc = (cell, path)
                        if self.covered(loc, W, F):
                            continue
                        self.classify(loc, st, old, new, ty, W, F)
                        changed = True
                if changed:
                    return None
                # append-only locations must still extend their head value
                for loc in Wl:
                    if W[loc][0] == "app":
                        hv = loc_val(heads[key].mem, loc)
                        nv = loc_val(b.mem, loc)
                        if not (isinstance(nv, Seq) and starts_with_parts(nv, hv)):
                            W[loc] = ("phi", W[loc][1])
                            return None
                nk = fin_key(b.mem)
                if any(x is None for x in nk) or len(heads) > self.max_part:
                    # some finite location is not finite after all
                    bad = [l for l, x in zip(Fl, nk) if x is None]
                    if not bad:
                        cnt = {l: len({hk[i] for hk in heads}) for i, l in enumerate(Fl)}
                        bad = [max(cnt, key=lambda l: cnt[l])]
                    for l in bad:
                        ty = F.pop(l)
                        W[l] = ("phi", ty)
                    return None
                for i, l in enumerate(Fl):
                    vals = {hk[i] for hk in heads} | {nk[i]}
                    if len(vals) > 10 and nk[i][0] == "i":
                        ty = F.pop(l)
                        W[l] = ("phi", ty)
                        return None
                if nk not in heads:
                    h2 = head0.copy()
                    for l in Fl:
                        h2.mem[l[0]] = self.put(h2.mem[l[0]], l[1], loc_val(b.mem, l))
                    heads[nk] = h2
                    fin_vals[nk] = [loc_val(h2.mem, l) for l in Fl]
                    todo.append(nk)
                segs.append((key, b, nk))
        # invariants inductive?
        bad = False
        for key, b, nk in segs:
            sb = {}
            for loc, x, e in ints:
                nv = loc_val(b.mem, loc)
                kind = phis[loc][2]
                if kind == "app":
                    hv = phis[loc]
                    nvl = sub(nv.len(), hv[1].len())
                    sb[x] = nvl
                elif isinstance(nv, Seq):
                    sb[x] = nv.len()
                else:
                    sb[x] = nv
            for gk in gactive:
                if ("x",) + gk not in dropped and not self.guard_holds(b, loc_val(b.mem, gk[1]), gk):
                    dropped.add(("x",) + gk)
                    bad = True
            for ck, lin in active:
                if ck in dropped:
                    continue
                v = subst(lin, sb)
                okc = v >= 0 if isinstance(v, int) else b.facts.entails_ge0(v)
                if not okc:
                    dropped.add(ck)
                    bad = True
        # harvest new candidates from comparisons made on the loop symbols
        newx = False
        phiset = set(phi_index)
        for key, r in exits:
            for l in self.harvest(r[1].facts, head0.facts, phiset):
                newx |= self.add_extra(l, phi_index, extra, dropped)
        for key, b, nk in segs:
            for loc in Wl:
                if W[loc][0] == "phi":
                    newx |= self.guard_cands(st, b, loc, loc_val(b.mem, loc), extra, dropped)
            for l in self.harvest(b.facts, head0.facts, phiset):
                newx |= self.add_extra(l, phi_index, extra, dropped)
            # what an iteration leaves behind is bounded by a constant
            for loc, x, e in ints:
                nv = loc_val(b.mem, loc)
                tot = nv.len() if isinstance(nv, Seq) else nv
                if not isinstance(tot, T) or x in lin_parts(tot)[1] and len(lin_parts(tot)[1]) == 1:
                    continue
                for l in b.facts.lins:
                    top = add(l, tot)
                    if isinstance(top, int):
                        off = phis[loc][1].len() if phis[loc][2] == "app" else 0
                        newx |= self.add_extra(sub(sub(top, off), x), phi_index, extra, dropped)
        if bad or newx:
            return None
        rec.phis = phis
        rec.fins = Fl
        rec.entry = st
        rec.heads = heads
        rec.segs = segs
        rec.apps = [l for l in Wl if W[l][0] == "app"]
        rec.cands = active
        rec.exit_states = [r[1] for _, r in exits]
        rec.interp = self
        self.loops.append(rec)
        out = []
        for key, r in exits:
            s = r[1]
            s.ev = st.ev + (("loop", rec, key),) + s.ev[1:]
            out.append(r)
        return out

    # Invariants over the integer payload of a generalised enum (Option<usize>):
    # they are claimed of the payload only, and hold vacuously of other variants.

    def guard_lin(self, v, gk):
        _, loc, vi, fi, c, its = gk
        return add(scale(sym_field(v, vi, fi), its[0]), mk_lin(c, dict(its[1:])))

    def guard_holds(self, st, v, gk):
        _, loc, vi, fi, c, its = gk
        if isinstance(v, Agg):
            if v.v != vi:
                return True
            lin = add(scale(v.f[fi], its[0]), mk_lin(c, dict(its[1:])))
        elif isinstance(v, T):
            vs = st.facts.variants(v)
            if vi not in vs:
                return True
            lin = self.guard_lin(v, gk)
        else:
            return False
        return lin >= 0 if isinstance(lin, int) else st.facts.entails_ge0(lin)

    def guard_cands(self, st, b, loc, nv, extra, dropped):
        if not (isinstance(nv, (Agg, T)) and nv.ty is not None and nv.ty.k == "adt" and nv.ty.is_enum):
            return False
        new = False
        if isinstance(nv, Agg):
            fields = [(nv.v, i, x) for i, x in enumerate(nv.f)]
        else:
            fields = [(vi, i, sym_field(nv, vi, i)) for vi in range(len(nv.ty.variants))
                      for i, t in enumerate(nv.ty.field_tys(vi)) if t.is_int]
        for vi, fi, x in fields:
            if not (isinstance(x, T) and x.op != "lin"):
                continue
            for l in b.facts.lins:
                c, d = lin_parts(l)
                if x not in d or any(t.op in ("phi", "sym") for t in d if t is not x):
                    continue
                its = (d[x],) + tuple(sorted(((t, k) for t, k in d.items() if t is not x), key=repr))
                gk = ("g", loc, vi, fi, c, its)
                if gk not in extra and ("x",) + gk not in dropped and sum(1 for k in extra if k[0] == "g") < 12:
                    extra.add(gk)
                    new = True
        return new

    def harvest(self, facts, base, phiset):
        seen = set(base.lins)
        for l in facts.lins:
            if l in seen:
                continue
            d = lin_parts(l)[1]
            if any(t in phiset for t in d):
                yield l

    def add_extra(self, l, phi_index, extra, dropped):
        c, d = lin_parts(l)
        its = []
        for t, k in d.items():
            if t in phi_index:
                its.append((phi_index[t], k))
            elif t.op in ("phi", "elem", "sym", "quot") and t not in phi_index:
                if t.op == "phi":
                    return False
                its.append((t, k))
            else:
                its.append((t, k))
        its = tuple(sorted(its, key=repr))
        new = False
        for cc in (c, c + 1):
            ek = (cc, its)
            if ek not in extra and ("x",) + ek not in dropped and sum(1 for k in extra if k[0] != "g") < 24:
                extra.add(ek)
                new = True
        return new

    def app_ty(self, old, ty):
        if ty is not None and is_seq_ty(ty):
            return ty
        for p in old.p:
            if p[0] == "sub":
                return p[1].ty
        return self.prog.by_s.get("[u8]") or self.prog.by_s.get("str")

    def cell_ty(self, fr, cell):
        t = self.celltype.get(cell)
        if t is None and cell[0] == fr.id:
            t = self.prog.types[fr.body["locals"][cell[1]]]
        return t

    def covered(self, loc, W, F):
        for d in (W, F):
            for l in d:
                if l[0] == loc[0] and loc[1][:len(l[1])] == l[1]:
                    return True
        return False

    def classify(self, loc, st, old, new, ty, W, F):
        # remove finer locations subsumed by this one
        for d in (W, F):
            for l in [l for l in d if l[0] == loc[0] and l[1][:len(loc[1])] == loc[1]]:
                del d[l]
        if isinstance(old, Uninit) or isinstance(new, Uninit):
            W[loc] = ("bot", ty)
            return
        ko, kn = self.finite(old, ty), self.finite(new, ty)
        if ko is not None and kn is not None and not (loc[1] and loc[1][-1][0] == "s"):
            F[loc] = ty
            return
        if isinstance(old, Seq) and isinstance(new, Seq) and starts_with_parts(new, old):
            W[loc] = ("app", ty)
            return
        W[loc] = ("phi", ty)


def starts_with_parts(nv, hv):
    if len(nv.p) < len(hv.p):
        return False
    for i, (a, b) in enumerate(zip(nv.p, hv.p)):
        if peq(a, b):
            continue
        if i == len(hv.p) - 1 and a[0] == "lit" and b[0] == "lit" and len(a[1]) > len(b[1]) \
                and all(veq(x, y) for x, y in zip(a[1], b[1])):
            continue
        return False
    return True


def suffix_parts(nv, hv):
    """Parts of nv after the prefix hv."""
    n = len(hv.p)
    out = list(nv.p[n:])
    if n and not peq(nv.p[n - 1], hv.p[n - 1]):
        out.insert(0, ("lit", nv.p[n - 1][1][len(hv.p[n - 1][1]):]))
    return Seq(out)


def subst(lin, m):
    if isinstance(lin, int):
        return lin
    c, d = lin_parts(lin)
    r = c
    for t, k in d.items():
        r = add(r, scale(m.get(t, t), k))
    return r


def num_byte(x, w, j, u8):
    if isinstance(x, int):
        return (x >> (8 * j)) & 255
    if w == 1:
        return x
    return mk("byte", (x, w, j), u8)


def fuse(seq):
    """Recognise runs of bytes that spell a little/big-endian number."""
    out = []
    for p in seq.p:
        if p[0] != "lit":
            out.append(p)
            continue
        vs = p[1]
        i = 0
        acc = []
        while i < len(vs):
            v = vs[i]
            hit = False
            bv = words.byte_view(v)
            if bv is not None:
                x, j = bv
                w = v.args[1] if v.op == "byte" else (words.width(x.ty) if isinstance(x, T) else None) or 0
                views = [words.byte_view(u) for u in vs[i:i + w]]
                for e in ("le", "be"):
                    if w > 1 and len(views) == w and all(
                            u is not None and u[0] is x and u[1] == (n if e == "le" else w - 1 - n)
                            for n, u in enumerate(views)):
                        if acc:
                            out.append(("lit", tuple(acc)))
                            acc = []
                        out.append(words.stored(w, e, x))
                        i += w
                        hit = True
                        break
            if not hit:
                acc.append(v)
                i += 1
        if acc:
            out.append(("lit", tuple(acc)))
    return Seq(out)
