"""Models of the library functions the analysed crate calls (std, bytes, lazy_static)."""
import re
from core import *
from prog import *
import words
import core


# ---------------------------------------------------------------- helpers

def D(I, st, v):
    """Value behind a reference."""
    while True:
        if isinstance(v, (Ref, BoxV)):
            v = v.v
        elif isinstance(v, Ptr):
            v = I.read(st, v)
        elif isinstance(v, T) and v.ty is not None and v.ty.k in ("ref", "ptr"):
            e = v.ty.elem
            v = mk_sym(mk("deref", (v,), e), e)
        else:
            return v


def S(I, st, v):
    v = D(I, st, v)
    if isinstance(v, Seq):
        return v
    if isinstance(v, T) and v.ty is not None and is_seq_ty(v.ty):
        return full(v)
    raise Unsupported("expected a sequence, got %r" % (v,))


def reify(v):
    """Hashable term standing for a value."""
    if isinstance(v, (int, T)):
        return v
    if isinstance(v, Agg):
        return mk("agg", (v.ty.id, v.v) + tuple(reify(x) for x in v.f))
    if isinstance(v, (Ref, BoxV)):
        return reify(v.v)
    if isinstance(v, Seq):
        return mk("seq", tuple(tuple(tuple(reify(y) for y in x) if isinstance(x, tuple) else
                                     (reify(x) if not isinstance(x, str) else x) for x in p) for p in v.p))
    if isinstance(v, Fn):
        return mk("fn", (v.inst,))
    if isinstance(v, Ptr):
        return mk("ptr", (v.cell, v.path))
    if isinstance(v, Nat):
        return mk("nat", (v.k,) + tuple(reify(x) if not isinstance(x, (str, tuple)) else x for x in v.f))
    if isinstance(v, (str, float)):
        return mk("lit", (v,))
    raise Unsupported("reify %r" % (v,))


def some(dty, v):
    return Agg(dty, dty.variant_index("Some"), [v])


def none(dty):
    return Agg(dty, dty.variant_index("None"), ())


def ok(dty, v):
    return Agg(dty, 0, [v])


def err(dty, v):
    return Agg(dty, 1, [v])


def unit(I):
    for t in I.prog.types.values():
        if t.k == "tuple" and not t.d["f"]:
            return Agg(t, 0, ())
    return Agg(I.tuple_ty(0), 0, ())


def boolty(I):
    return I.prog.prim("bool")


def panic(st, inst, why, site=None):
    return ("panic", st, (why, inst, site))


def seq_eq(I, st, a, b):
    """Condition a == b for two sequences."""
    if veq(a, b):
        return 1
    f = st.facts
    la, lb = a.len(), b.len()
    if f.decide(eqi(la, lb)) is False:
        return 0
    # strip equal prefix
    pa, pb = list(a.p), list(b.p)
    while pa and pb and peq(pa[0], pb[0]):
        pa.pop(0)
        pb.pop(0)
    while pa and pb and peq(pa[-1], pb[-1]):
        pa.pop()
        pb.pop()
    a, b = Seq(pa), Seq(pb)
    xa, xb = a.lits(), b.lits()
    if xa is not None and xb is not None:
        if len(xa) != len(xb):
            return 0
        for x, y in zip(xa, xb):
            if not I.decide(st, val_eq(I, st, x, y)):
                return 0
        return 1
    if xa is not None:
        a, b, xa, xb = b, a, xb, xa
    if xb is not None and len(a.p) == 1 and a.p[0][0] == "sub" and all(isinstance(x, int) for x in xb):
        _, base, lo, hi = a.p[0]
        if len(xb) == 1 and f.decide(eqi(sub(hi, lo), 1)):
            return eqi(I.seq_get(st, a, 0), xb[0])
        return mk("seqeq", (base, f.simp(lo), f.simp(hi), tuple(xb)))
    if xb == ():
        return eqi(a.len(), 0)
    if len(a.p) == len(b.p) == 1 and a.p[0][0] == b.p[0][0] == "sub" and f.decide(eqi(a.len(), 1)) and f.decide(eqi(b.len(), 1)):
        x, y = I.seq_get(st, a, 0), I.seq_get(st, b, 0)
        if isinstance(x, (int, T)) and isinstance(y, (int, T)):
            return val_eq(I, st, x, y)
    if I.BOUND and len(a.p) == len(b.p) == 1 and a.p[0][0] == b.p[0][0] == "sub":
        for n in (2, 3):
            if f.decide(eqi(a.len(), n)) and f.decide(eqi(b.len(), n)):
                for i in range(n):
                    if not I.decide(st, val_eq(I, st, I.seq_get(st, a, i), I.seq_get(st, b, i))):
                        return 0
                return 1
    ra, rb = reify(a), reify(b)
    if ra.id > rb.id:
        ra, rb = rb, ra
    return mk("b", ("eq", ra, rb), boolty(I))


def _seqeq_derive(f, c):
    if c.op != "seqeq":
        return None
    base, lo, hi, lits = c.args
    lo = f.simp(lo)
    ln = sub(f.simp(hi), lo)
    d = f.decide(eqi(ln, len(lits)))
    if d is False:
        return False
    allk = d is True
    ety = seq_elem_ty(base.ty)
    for i, x in enumerate(lits):
        e = mk_sym(mk("elem", (base, add(lo, i)), ety), ety)
        r = f.decide(eqi(e, x))
        if r is False:
            return False
        if r is None:
            allk = False
    return True if allk else None


def _seqeq_on(f, c, pol):
    if c.op == "seqeq" and pol:
        base, lo, hi, lits = c.args
        if not f.assume(eqi(sub(hi, lo), len(lits)), True):
            return False
        ety = seq_elem_ty(base.ty)
        lo = f.simp(lo)
        for i, x in enumerate(lits):
            e = mk_sym(mk("elem", (base, add(lo, i)), ety), ety)
            if not f.assume(eqi(e, x), True):
                return False
        for c2, p2 in list(f.bl.items()):
            if c2 is not c and c2.op == "seqeq" and c2.args[0] is base and _seqeq_derive(f, c2) is (not p2):
                return False
    elif c.op == "seqeq":
        base, lo, hi, lits = c.args
        lo = f.simp(lo)
        open_ = []
        lc = eqi(sub(f.simp(hi), lo), len(lits))
        d = f.decide(lc)
        if d is False:
            return True
        if d is None:
            open_.append(lc)
        ety = seq_elem_ty(base.ty)
        for i, x in enumerate(lits):
            e = mk_sym(mk("elem", (base, add(lo, i)), ety), ety)
            r = f.decide(eqi(e, x))
            if r is False:
                return True
            if r is None:
                open_.append(eqi(e, x))
            if len(open_) > 1:
                return True
        if not open_:
            return False
        return f.assume(open_[0], False)
    return True


def _eq_ends(c):
    """The two sequences a condition compares, as (base, from, to)."""
    if c.op != "b" or c.args[0] != "eq" or len(c.args) != 3:
        return None
    out = []
    for x in c.args[1:]:
        if not (isinstance(x, T) and x.op == "seq" and len(x.args) == 1 and x.args[0][0] == "sub"):
            return None
        out.append(x.args[0][1:])
    return out


def _first(base, lo):
    ety = seq_elem_ty(base.ty)
    return mk_sym(mk("elem", (base, lo), ety), ety) if ety is not None and ety.k == "uint" else None


def _eq_derive(f, c):
    p = _eq_ends(c)
    if p is None:
        return None
    (a, al, ah), (b, bl, bh) = p
    n, m = sub(f.simp(ah), al), sub(f.simp(bh), bl)
    if f.decide(eqi(n, m)) is False:
        return False
    x, y = _first(a, al), _first(b, bl)
    if x is not None and y is not None and f.decide(le(1, n)) and f.decide(le(1, m)) and f.decide(eqi(x, y)) is False:
        return False
    for c2, p2 in f.bl.items():
        q = _eq_ends(c2) if c2 is not c else None
        if q is not None and {q[0][0], q[1][0]} == {a, b}:
            if _names(f, q) == _names(f, p):       # recorded with other names for the same ends
                return p2
    return None


def _names(f, p):
    return frozenset((x, f.simp(lo), f.simp(hi)) for x, lo, hi in p)


def _eq_on(f, c, pol):
    p = _eq_ends(c)
    if p is None or not pol:
        return True
    (a, al, ah), (b, bl, bh) = p
    n = sub(f.simp(ah), al)
    if not f.assume(eqi(n, sub(f.simp(bh), bl)), True):
        return False
    x, y = _first(a, al), _first(b, bl)
    if x is not None and y is not None and f.decide(le(1, n)):
        return f.assume(eqi(x, y), True)
    return True


def _eq_settle(f):
    """Comparisons of the same pieces agree."""
    cs = {}
    for c, pol in f.bl.items():
        q = _eq_ends(c)
        if q is not None:
            cs.setdefault(frozenset((q[0][0], q[1][0])), []).append((q, pol))
    for l in cs.values():
        for n, (q, x) in enumerate(l):
            for r, y in l[:n]:
                if x != y and (_same_ends(f, q, r) or _same_ends(f, q, r[::-1])):
                    return False
    return True


def _same_ends(f, q, r):
    return all(a[0] is b[0] and f.decide(eqi(a[1], b[1])) and f.decide(eqi(a[2], b[2])) for a, b in zip(q, r))


core._settle.append(_eq_settle)
core._derive.append(_seqeq_derive)
core._on.append(_seqeq_on)
core._derive.append(_eq_derive)
core._on.append(_eq_on)


def val_eq(I, st, a, b):
    """Condition a == b, structurally (derived PartialEq)."""
    if isinstance(a, (Ref, BoxV, Ptr)):
        a = D(I, st, a)
    if isinstance(b, (Ref, BoxV, Ptr)):
        b = D(I, st, b)
    if veq(a, b):
        if isinstance(a, T) and a.ty is not None and a.ty.k == "float":
            return mk("b", ("fEq", a, b), boolty(I))
        return 1
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq(I, st, a, b)
    if isinstance(a, (int, T)) and isinstance(b, (int, T)) and not any(
            isinstance(x, T) and x.ty is not None and x.ty.k in ("adt", "tuple", "float") for x in (a, b)):
        return eqi(st.facts.simp(a), st.facts.simp(b))
    if isinstance(a, T) and isinstance(b, Agg):
        a, b = b, a
    if isinstance(a, Agg) and isinstance(b, T) and b.ty is not None and b.ty.is_enum:
        vs = st.facts.variants(b)
        if a.v not in vs:
            return 0
        if len(vs) > 1 and not a.f:
            return mk("b", ("is", b, a.v), boolty(I))
        if len(vs) == 1 and not a.f:
            return 1
    if isinstance(a, Agg) and isinstance(b, T) and not a.ty.is_enum:
        b = expand(b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.v != b.v:
            return 0
        rest = []
        for x, y in zip(a.f, b.f):
            c = val_eq(I, st, x, y)
            d = st.facts.decide(c)
            if d is False:
                return 0
            if d is None:
                rest.append(c)
        if not rest:
            return 1
        if len(rest) == 1:
            return rest[0]
        for c in rest:
            if not I.decide(st, c):
                return 0
        return 1
    if isinstance(a, T) and isinstance(b, T) and a.ty is b.ty and a.ty is not None and a.ty.k == "adt" \
            and a.ty.d["name"].startswith("dbus_message_parser::") and not a.ty.recursive:
        if not a.ty.is_enum:
            return val_eq(I, st, expand(a), expand(b))
        va, vb = st.facts.variants(a), st.facts.variants(b)
        if not va & vb:
            return 0
        i, j = I.variant_of(st, a), I.variant_of(st, b)
        if i != j:
            return 0
        n = len(a.ty.field_tys(i))
        return val_eq(I, st, Agg(a.ty, i, [sym_field(a, i, k) for k in range(n)]),
                      Agg(b.ty, i, [sym_field(b, i, k) for k in range(n)]))
    ra, rb = reify(a), reify(b)
    if not isinstance(ra, int) and not isinstance(rb, int) and ra.id > rb.id:
        ra, rb = rb, ra
    return mk("b", ("eq", ra, rb), boolty(I))


def _is_on(f, c, pol):
    if c.op == "b" and c.args[0] == "is":
        t, v = c.args[1], c.args[2]
        vs = f.variants(t)
        return f.assume_variant(t, frozenset([v]) if pol else vs - {v})
    return True


def _is_derive(f, c):
    if c.op == "b" and c.args[0] == "is":
        vs = f.variants(c.args[1])
        if c.args[2] not in vs:
            return False
        if len(vs) == 1:
            return True
    return None


core._derive.append(_is_derive)
core._on.append(_is_on)


def next_char(I, st, seq):
    """None, or (char value, rest)."""
    if not seq.p:
        return None
    if not I.decide(st, lt(0, seq.len())):
        return None
    p = seq.p[0]
    rest = seq.p[1:]
    if not I.decide(st, lt(0, part_len(p))):
        return next_char(I, st, Seq(rest))
    if p[0] == "lit":
        v = p[1][0]
        if isinstance(v, int):
            n = 1 if v < 0x80 else 2 if v < 0xE0 else 3 if v < 0xF0 else 4
            bs = p[1][:n]
            return ord(bytes(bs).decode()), Seq((("lit", p[1][n:]),) + rest)
        if I.decide(st, lt(v, 128)):
            return v, Seq((("lit", p[1][1:]),) + rest)
        raise Unsupported("char decoding of a byte value")
    if p[0] == "chr":
        return p[1], Seq(rest)
    if p[0] == "sub":
        _, base, lo, hi = p
        lo = st.facts.simp(lo)
        ety = I.prog.u8
        b = mk("elem", (base, lo), ety)
        if ascii_base(base) or I.decide(st, lt(b, 128)):
            return b, Seq((("sub", base, add(lo, 1), hi),) + rest)
        c = mk("charat", (base, lo), I.prog.prim("char"))
        st.facts.set_range(c, ((128, 0x10FFFF),))
        w = mk("clen", (c,))
        st.facts.set_range(w, ((2, 4),))
        st.facts.assume(le(add(lo, w), hi), True)
        return c, Seq((("sub", base, add(lo, w), hi),) + rest)
    raise Unsupported("chars of %r" % (seq,))


def push_char(I, st, seq, c):
    if isinstance(c, int):
        return seq.cat(bytes_seq(chr(c).encode()))
    c = st.facts.simp(c)
    if isinstance(c, int):
        return seq.cat(bytes_seq(chr(c).encode()))
    if I.decide(st, lt(c, 128)):
        return seq.cat(Seq((("lit", (c,)),)))
    return seq.cat(Seq((("chr", c),)))


def int_of(seq, w, e):
    """Integer spelled by w bytes at the head of seq (exact length)."""


def read_num(I, st, seq, w, e, ty):
    """(value, rest) reading w bytes; the caller has established the length."""
    head, rest = I.seq_split(st, seq, w)
    p = head.p
    if len(p) == 1 and p[0][0] == "sub":
        if w == 1:
            v = mk("elem", (p[0][1], st.facts.simp(p[0][2])), I.prog.u8)
        else:
            v = words.rd(I, p[0][1], st.facts.simp(p[0][2]), w, e, ty)
        return words.recast(I, st, v, ty), rest
    if len(p) == 1 and p[0][0] == "num" and p[0][1] == w:
        v = p[0][3]
        if p[0][2] != e:
            v = words.bswap(I, st, v, w, words.uint(I, w) or ty)
        return words.recast(I, st, v, ty), rest
    h = head.lits()
    run = words.run_of(h) if h is not None else None
    if run is not None:
        v = words.rd(I, run[0], run[1], w, e if run[2] else words.swapped(e), ty)
        return words.recast(I, st, v, ty), rest
    if h is not None and w == 1:
        return words.recast(I, st, h[0], ty), rest
    if h is not None and all(isinstance(x, int) for x in h):
        return int.from_bytes(bytes(h), "little" if e == "le" else "big", signed=ty.k == "int"), rest
    return mk("rdx", (reify(head), w, e), ty), rest


def find_delim(I, st, seq, ch):
    """None or (before, after) around the first occurrence of the ASCII char ch."""
    if not seq.p:
        return None
    p = seq.p[0]
    rest = seq.p[1:]
    if p[0] == "lit":
        for i, x in enumerate(p[1]):
            if I.decide(st, eqi(x, ch)):
                return Seq((("lit", p[1][:i]),)), Seq((("lit", p[1][i + 1:]),) + rest)
        r = find_delim(I, st, Seq(rest), ch)
        if r is None:
            return None
        return Seq((("lit", p[1]),) + r[0].p), r[1]
    if p[0] == "chr":
        r = find_delim(I, st, Seq(rest), ch)
        if r is None:
            return None
        return Seq((p,) + r[0].p), r[1]
    if p[0] == "sub":
        _, base, lo, hi = p
        lo, hi = st.facts.simp(lo), st.facts.simp(hi)
        if st.facts.decide(lt(lo, hi)) and st.facts.decide(eqi(mk("elem", (base, lo), I.prog.u8), ch)):
            return Seq(), Seq((("sub", base, add(lo, 1), hi),) + rest)
        c = mk("b", ("has", base, lo, hi, ch), boolty(I))
        if I.decide(st, c):
            q = mk("pos", (base, lo, hi, ch))
            st.facts.assume(le(lo, q), True)
            st.facts.assume(lt(q, hi), True)
            st.facts.assume(eqi(mk("elem", (base, q), I.prog.u8), ch), True)
            return Seq((("sub", base, lo, q),)), Seq((("sub", base, add(q, 1), hi),) + rest)
        if not rest:
            return None
        r = find_delim(I, st, Seq(rest), ch)
        if r is None:
            return None
        return Seq((p,) + r[0].p), r[1]
    raise Unsupported("find in %r" % (seq,))


def pattern(I, st, v):
    """('char', c) or ('str', lits) or ('fn', v)"""
    if isinstance(v, int) or (isinstance(v, T) and v.ty is not None and v.ty.k == "char"):
        return ("char", v)
    x = D(I, st, v)
    if isinstance(x, int):
        return ("char", x)
    if isinstance(x, Seq):
        return ("str", x)
    return ("fn", v)


def starts_with(I, st, s, pat):
    """Condition, and the rest when it holds (thunk)."""
    f = st.facts
    n = pat.len()
    if veq(s, pat):
        return 1, lambda: Seq()
    # structural prefix
    sp, pp = list(s.p), list(pat.p)
    while sp and pp and peq(sp[0], pp[0]):
        sp.pop(0)
        pp.pop(0)
    s2, pat2 = Seq(sp), Seq(pp)
    if not pp:
        return 1, lambda: s2
    n2 = pat2.len()
    if f.decide(le(n2, s2.len())) is False:
        return 0, None
    if not I.decide(st, le(n2, s2.len())):
        return 0, None
    h, r = I.seq_split(st, s2, n2)
    return seq_eq(I, st, h, pat2), lambda: r


# ---------------------------------------------------------------- formatting

def fmt_value(I, st, tr, ty, v, sink):
    """Append the formatted text of v (type ty) to the String at sink (Ptr).
    -> list of (state, ok)"""
    while ty.k == "ref":
        ty = ty.elem
        v = D1(I, st, v)
    if ty.k == "dyn":
        x = D(I, st, v)
        own = x.ty if isinstance(x, (T, Agg)) else None
        while own is not None and own.k == "ref":
            own = own.elem
        if isinstance(x, Seq):
            own = I.prog.by_s.get("str")
        if own is None or own.k == "dyn":
            raise Unsupported("formatting of some %s" % ty.s)
        return fmt_value(I, st, tr, own, v, sink)
    if tr == "Display":
        if ty.k == "str" or ty.is_adt("std::string::String"):
            I.write(st, sink, I.read(st, sink).cat(S(I, st, v)))
            return [st]
        if ty.k == "char":
            x = D(I, st, v)
            I.write(st, sink, push_char(I, st, I.read(st, sink), x))
            return [st]
        if ty.k in ("uint", "int"):
            x = st.facts.simp(D(I, st, v))
            if isinstance(x, int):
                t = bytes_seq(str(x).encode())
            else:
                t = full(mk("dec", (x,), I.prog.by_s.get("str")))
                st.facts.set_range(mk("len", (t.p[0][1],)), ((1, 20),))
            I.write(st, sink, I.read(st, sink).cat(t))
            return [st]
        if ty.k == "bool":
            x = I.decide(st, D(I, st, v))
            I.write(st, sink, I.read(st, sink).cat(bytes_seq(b"true" if x else b"false")))
            return [st]
        if ty.k == "adt" and ty.d["box"]:
            return fmt_value(I, st, tr, ty.prog.types[ty.d["args"][0]], v, sink)
    inst = find_fmt(I.prog, tr, ty)
    if inst is not None and inst.body is not None and inst.local and tr == "Display":
        fc = I.new_cell(st, Nat("fmtr", sink))
        x = v
        if not isinstance(x, (Ref, Ptr)):
            x = Ref(x)
        out = []
        for r in I.call(inst, [x, Ptr(fc)], st, None, None):
            if r[0] == "ret":
                out.append(r[1])
            else:
                raise Unsupported("panic while formatting")
        return out
    t = full(mk("fmt", (tr, ty.id, reify(D(I, st, v)) if not isinstance(v, Nat) else uid()), I.prog.by_s.get("str")))
    I.write(st, sink, I.read(st, sink).cat(t))
    return [st]


def D1(I, st, v):
    if isinstance(v, Ref):
        return v.v
    if isinstance(v, Ptr):
        return I.read(st, v)
    if isinstance(v, T) and v.ty is not None and v.ty.k == "ref":
        return mk_sym(mk("deref", (v,), v.ty.elem), v.ty.elem)
    return v


def find_fmt(prog, tr, ty):
    tab = getattr(prog, "_fmt", None)
    if tab is None:
        tab = {}
        for i in prog.insts.values():
            m = re.search(r"as fmt::(\w+)>::fmt$", i.key)
            if m and i.args and i.args[0] is None:
                pass
            m2 = re.match(r"^<(.*) as std::fmt::(\w+)>::fmt$", i.name) or re.match(
                r"^.*<impl std::fmt::(\w+) for (.*)>::fmt$", i.name)
            if m2:
                g = m2.groups()
                if g[1] in ("Display", "Debug") or re.match(r"^\w+$", g[1] or "") and i.name.startswith("<"):
                    name, t = g[0], g[1]
                else:
                    t, name = g[0], g[1]
                tab[(t, name)] = i
        prog._fmt = tab
    nm = ty.s if ty.k != "adt" else None
    for cand in (ty.d.get("name"), ty.s, "dbus_message_parser::" + ty.s):
        if cand and (tr, cand) in tab:
            return tab[(tr, cand)]
    # match by first parameter type
    for (t, name), i in tab.items():
        if t == tr and i.body is not None:
            lt_ = prog.types[i.body["locals"][1]]
            if lt_.k == "ref" and lt_.elem is ty:
                return i
    return None


def run_template(I, st, args, sink):
    """Format Nat('fmtargs', pieces); -> list of states."""
    states = [st]
    for p in args.f[0]:
        nxt = []
        for s in states:
            if p[0] == "lit":
                I.write(s, sink, I.read(s, sink).cat(bytes_seq(p[1])))
                nxt.append(s)
            else:
                nxt.extend(with_forks(I, s, lambda s_: fmt_value(I, s_, p[1], p[2], p[3], sink)))
        states = nxt
    return states


def with_forks(I, st, fn):
    out = []
    work = [st]
    while work:
        s0 = work.pop()
        s = s0.copy()
        try:
            out.extend(fn(s))
        except Fork as f:
            for alt in f.alts:
                s2 = s0.copy()
                if alt(s2.facts):
                    work.append(s2)
    return out


def parse_template(bs, args):
    out = []
    i = 0
    n = 0
    while True:
        b = bs[i]
        i += 1
        if b == 0:
            return tuple(out)
        if b < 0x80:
            out.append(("lit", bytes(bs[i:i + b])))
            i += b
        elif b == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("lit", bytes(bs[i:i + ln])))
            i += ln
        else:
            plain = True
            if b & 1:
                i += 4
                plain = False
            if b & 2:
                i += 2
                plain = False
            if b & 4:
                i += 2
                plain = False
            if b & 8:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            a = args[n]
            out.append(("arg", a.f[0] if plain else "Padded", a.f[1], a.f[2]))
            n += 1


# ---------------------------------------------------------------- table

TAB = {}
RX = []


def N(*keys):
    def deco(f):
        for k in keys:
            TAB[k] = f
        return f
    return deco


def R(rx):
    def deco(f):
        RX.append((re.compile(rx), f))
        return f
    return deco


class Natives:
    PARTS = False       # equality and copies of parts are taken as their own obligations say

    def __init__(self, prog, extra=None):
        self.prog = prog
        self.cache = {}
        self.extra = extra or {}
        self.used = {}
        self.der = set()
        self.hand = {}
        for it in prog.items:
            if it.get("der") and it.get("inst") is not None:
                self.der.add(it["inst"])

    def lookup(self, inst):
        if inst.id in self.cache:
            return self.cache[inst.id]
        f = self._find(inst)
        self.cache[inst.id] = f
        return f

    def by_hand(self, which):
        """Local types whose equality / copy is written by hand."""
        if which not in self.hand:
            out = set()
            for i in self.prog.insts.values():
                if i.local and i.body is not None and i.id not in self.der and i.key.endswith(which):
                    t = self.prog.types[i.body["locals"][1]]
                    if t.k == "ref" and t.elem.k == "adt":
                        out.add(t.elem.id)
            self.hand[which] = out
        return self.hand[which]

    def structural(self, inst, which):
        """Equality / copying of these arguments is structural."""
        if Natives.PARTS and not inst.local:
            return True
        ts = [self.prog.types[a] for a in inst.args if a is not None]
        if inst.body is not None:
            for k in range(inst.body["argc"]):
                t = self.prog.types[inst.body["locals"][k + 1]]
                while t.k == "ref":
                    t = t.elem
                ts.append(t)
        hand = self.by_hand(which)
        return not any(t.inside() & hand for t in ts)

    def _find(self, inst):
        f = self._find_any(inst)
        if f is n_clone and not self.structural(inst, "clone::Clone>::clone"):
            return None
        if f in (n_eq, n_ne):
            if not self.structural(inst, "cmp::PartialEq>::eq"):
                return None
            if inst.body is not None:
                ts = [self.prog.types[inst.body["locals"][k + 1]] for k in (0, 1)]
                for i, t in enumerate(ts):
                    while t.k == "ref":
                        t = t.elem
                    ts[i] = t
                if ts[0] is not ts[1] and any(t.inside() for t in ts):
                    return None
        return f

    def _find_any(self, inst):
        if inst.local:
            if inst.id in self.der:
                if inst.key.endswith("clone::Clone>::clone"):
                    return n_clone
                if inst.key.endswith("cmp::PartialEq>::eq"):
                    return n_eq
            return None
        f = TAB.get(inst.key)
        if f is not None:
            return f
        for rx, f in RX:
            if rx.search(inst.key):
                return f
        if inst.intr:
            f = INTR.get(inst.intr)
            if f is not None:
                return f
        return None


def n_clone(I, st, inst, a, dty, site):
    return [(st, deep(I, st, a[0]))]


def deep(I, st, v):
    if isinstance(v, Ref):
        return v.v
    if isinstance(v, Ptr):
        return I.read(st, v)
    if isinstance(v, T) and v.ty is not None and v.ty.k == "ref":
        return mk_sym(mk("deref", (v,), v.ty.elem), v.ty.elem)
    return v


def n_eq(I, st, inst, a, dty, site):
    return [(st, val_eq(I, st, a[0], a[1]))]


def n_ne(I, st, inst, a, dty, site):
    return [(st, lnot(val_eq(I, st, a[0], a[1])))]


R(r"as clone::Clone>::clone$|clone::impls::<impl clone::Clone for \w+>::clone$|^clone::Clone::clone$|option::Option<T> as clone")(n_clone)
R(r"cmp::impls::<impl cmp::PartialEq for \w+>::eq$|str::traits::<impl cmp::PartialEq for str>::eq$|<string::String as cmp::PartialEq(<.*>)?>::eq$"
  r"|string::<impl cmp::PartialEq<.*> for .*>::eq$|<boxed::Box<T> as cmp::PartialEq>::eq$|vec::partial_eq::.*::eq$"
  r"|slice::cmp::<impl cmp::PartialEq.*>::eq$|array::equality::.*::eq$|cmp::impls::<impl cmp::PartialEq<&(mut )?B> for &(mut )?A>::eq$"
  r"|<option::Option<T> as cmp::PartialEq>::eq$|tuple::<impl cmp::PartialEq for .*>::eq$|<result::Result<T, E> as cmp::PartialEq>::eq$"
  r"|<bytes::Bytes(Mut)? as cmp::PartialEq(<.*>)?>::eq$")(n_eq)
R(r"cmp::impls::<impl cmp::PartialEq for \w+>::ne$|<string::String as cmp::PartialEq(<.*>)?>::ne$|string::<impl cmp::PartialEq<.*> for .*>::ne$"
  r"|cmp::impls::<impl cmp::PartialEq<&(mut )?B> for &(mut )?A>::ne$|^cmp::PartialEq::ne$|vec::partial_eq::.*::ne$"
  r"|str::traits::<impl cmp::PartialEq for str>::ne$")(n_ne)


# ---- conversions between views of the same sequence

def n_view(I, st, inst, a, dty, site):
    v = a[0]
    if isinstance(v, Ptr):
        return [(st, v)]
    return [(st, Ref(S(I, st, v)))]


N("<string::String as ops::Deref>::deref", "<vec::Vec<T> as ops::Deref>::deref", "<vec::Vec<T> as convert::AsRef<[T]>>::as_ref",
  "<bytes::Bytes as convert::AsRef<[u8]>>::as_ref", "<bytes::Bytes as ops::Deref>::deref", "string::String::as_str",
  "string::String::as_bytes", "str::<impl str>::as_bytes", "slice::<impl [T]>::as_ref", "vec::Vec::<T>::as_slice",
  "<bytes::BytesMut as ops::Deref>::deref", "<bytes::BytesMut as convert::AsRef<[u8]>>::as_ref", "convert::AsRef::as_ref",
  "<string::String as convert::AsRef<str>>::as_ref", "<string::String as borrow::Borrow<str>>::borrow",
  "<str as convert::AsRef<[u8]>>::as_ref", "<str as convert::AsRef<str>>::as_ref", "<string::String as convert::AsRef<[u8]>>::as_ref",
  "<vec::Vec<T> as borrow::Borrow<[T]>>::borrow", "string::String::as_mut_str",
  "<[T] as convert::AsRef<[T]>>::as_ref", "convert::<impl convert::AsRef<[T]> for [T]>::as_ref",
  "<vec::Vec<T> as ops::DerefMut>::deref_mut", "<bytes::BytesMut as ops::DerefMut>::deref_mut",
  "<bytes::BytesMut as convert::AsMut<[u8]>>::as_mut", "bytes::Bytes::as_slice", "str::from_utf8_unchecked",
  "slice::<impl [T]>::as_slice", "array::<impl [T; N]>::as_slice", "<[T; N] as convert::AsRef<[T]>>::as_ref",
  "vec::Vec::<T>::as_mut_slice", "<boxed::Box<T> as ops::Deref>::deref")(n_view)


@N("<boxed::Box<T> as convert::AsRef<T>>::as_ref")
def n_box_ref(I, st, inst, a, dty, site):
    v = D1(I, st, a[0])
    return [(st, Ref(v.v if isinstance(v, BoxV) else v))]


def n_val(I, st, inst, a, dty, site):
    return [(st, S(I, st, a[0]))]


N("str::<impl borrow::ToOwned for str>::to_owned", "slice::<impl [T]>::to_vec", "string::String::from_utf8_unchecked",
  "<string::String as convert::From<&str>>::from", "slice::<impl borrow::ToOwned for [T]>::to_owned",
  "string::String::into_bytes", "<vec::Vec<T> as convert::From<&[T]>>::from", "<vec::Vec<T> as convert::From<[T; N]>>::from",
  "<bytes::Bytes as convert::From<vec::Vec<u8>>>::from", "bytes::BytesMut::freeze", "bytes::Bytes::copy_from_slice",
  "<bytes::BytesMut as convert::From<&[u8]>>::from", "<string::String as convert::From<&string::String>>::from",
  "str::<impl str>::to_string", "vec::Vec::<T>::into_boxed_slice", "str::<impl str>::into_string",
  "<bytes::Bytes as convert::From<&[u8]>>::from", "slice::<impl [T]>::into_vec", "<str as string::SpecToString>::spec_to_string",
  "<bytes::Bytes as convert::From<bytes::BytesMut>>::from", "bytes::Bytes::to_vec", "<[T] as borrow::ToOwned>::to_owned",
  "bytes::Buf::copy_to_bytes_all", "<vec::Vec<T> as convert::From<&str>>::from")(n_val)


@N("<T as convert::From<T>>::from")
def n_same(I, st, inst, a, dty, site):
    return [(st, a[0])]


@N("slice::from_ref")
def n_from_ref(I, st, inst, a, dty, site):
    return [(st, Ref(Seq((("lit", (D1(I, st, a[0]),)),))))]


# ---- lengths

def n_len(I, st, inst, a, dty, site):
    v = D(I, st, a[0])
    if isinstance(v, Nat):
        v = v.f[0]
    return [(st, st.facts.simp(S(I, st, v).len()))]


N("bytes::Bytes::len", "bytes::BytesMut::len", "string::String::len", "str::<impl str>::len", "vec::Vec::<T>::len",
  "slice::<impl [T]>::len", "<slice::Iter<T> as iter::ExactSizeIterator>::len", "bytes::Buf::remaining",
  "<bytes::Bytes as bytes::Buf>::remaining", "<bytes::BytesMut as bytes::Buf>::remaining", "iter::ExactSizeIterator::len")(n_len)


@N("vec::Vec::<T>::capacity", "string::String::capacity", "bytes::BytesMut::capacity")
def n_capacity(I, st, inst, a, dty, site):
    c = fresh("capacity", dty)
    if not st.facts.assume(le(S(I, st, a[0]).len(), c), True):
        return []
    return [(st, c)]


def n_is_empty(I, st, inst, a, dty, site):
    return [(st, eqi(S(I, st, a[0]).len(), 0))]


N("bytes::Bytes::is_empty", "bytes::BytesMut::is_empty", "string::String::is_empty", "str::<impl str>::is_empty",
  "vec::Vec::<T>::is_empty", "slice::<impl [T]>::is_empty")(n_is_empty)


@N("bytes::Buf::has_remaining")
def n_has_remaining(I, st, inst, a, dty, site):
    return [(st, lnot(eqi(S(I, st, a[0]).len(), 0)))]


# ---- constructors

def n_empty(I, st, inst, a, dty, site):
    return [(st, Seq())]


N("vec::Vec::<T>::new", "vec::Vec::<T>::with_capacity", "string::String::new", "string::String::with_capacity", "bytes::BytesMut::new",
  "bytes::BytesMut::with_capacity", "bytes::Bytes::new", "<vec::Vec<T> as default::Default>::default",
  "<string::String as default::Default>::default", "<bytes::BytesMut as default::Default>::default")(n_empty)


@N("boxed::Box::<T>::new")
def n_box(I, st, inst, a, dty, site):
    return [(st, BoxV(a[0]))]


@N("boxed::Box::<T>::new_uninit", "boxed::box_new_uninit")
def n_new_uninit(I, st, inst, a, dty, site):
    ety = I.prog.types[dty.d["args"][0]] if dty is not None and dty.k == "adt" and dty.d["box"] else None
    return [(st, Ptr(I.new_cell(st, UNINIT, ety)))]


@N("boxed::box_assume_init_into_vec_unsafe")
def n_assume_init(I, st, inst, a, dty, site):
    v = D(I, st, a[0])
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return [(st, S(I, st, v))]


def n_unit(I, st, inst, a, dty, site):
    return [(st, unit(I))]


N("bytes::BytesMut::reserve", "vec::Vec::<T>::reserve", "string::String::reserve", "vec::Vec::<T>::shrink_to_fit",
  "intrinsics::cold_path", "string::String::shrink_to_fit", "mem::drop", "vec::Vec::<T>::reserve_exact",
  "<boxed::Box<T, A> as ops::Drop>::drop", "<boxed::Box<T> as ops::Drop>::drop")(n_unit)


# ---- appending

def append(I, st, ptr, s):
    I.write(st, ptr, S(I, st, ptr).cat(s))


@N("vec::Vec::<T>::push", "bytes::BufMut::put_u8", "<bytes::BytesMut as bytes::BufMut>::put_u8", "bytes::BufMut::put_i8")
def n_push(I, st, inst, a, dty, site):
    p = slice_cursor(I, st, a[0])
    if p is not None:
        return overwrite(I, st, inst, a[0], p, Seq((("lit", (a[1],)),)), site)
    append(I, st, a[0], Seq((("lit", (a[1],)),)))
    return [(st, unit(I))]


@N("string::String::push")
def n_push_ch(I, st, inst, a, dty, site):
    I.write(st, a[0], push_char(I, st, S(I, st, a[0]), a[1]))
    return [(st, unit(I))]


@N("string::String::push_str", "<string::String as ops::AddAssign<&str>>::add_assign", "vec::Vec::<T>::extend_from_slice",
   "bytes::BytesMut::extend_from_slice", "<bytes::BytesMut as bytes::BufMut>::put_slice", "bytes::BufMut::put_slice",
   "bytes::BytesMut::unsplit")
def n_append(I, st, inst, a, dty, site):
    p = slice_cursor(I, st, a[0])
    if p is not None:
        return overwrite(I, st, inst, a[0], p, S(I, st, a[1]), site)
    append(I, st, a[0], S(I, st, a[1]))
    return [(st, unit(I))]


@N("vec::Vec::<T>::append")
def n_vec_append(I, st, inst, a, dty, site):
    append(I, st, a[0], S(I, st, a[1]))
    I.write(st, a[1], Seq())
    return [(st, unit(I))]


@N("<string::String as ops::Add<&str>>::add")
def n_str_add(I, st, inst, a, dty, site):
    return [(st, S(I, st, a[0]).cat(S(I, st, a[1])))]


@N("<bytes::BytesMut as bytes::BufMut>::put", "bytes::BufMut::put", "<bytes::BytesMut as iter::Extend<u8>>::extend", "<bytes::BytesMut as iter::Extend<&u8>>::extend",
   "<vec::Vec<T> as iter::Extend<T>>::extend", "<vec::Vec<T> as iter::Extend<&T>>::extend", "<bytes::BytesMut as iter::Extend<bytes::Bytes>>::extend")
def n_extend(I, st, inst, a, dty, site):
    v = a[1]
    x = v
    if isinstance(x, Nat):
        if x.k in ("iter", "into_iter"):
            s = x.f[0]
        elif inst.key.startswith("<vec"):
            return None
        else:
            raise Unsupported("extend from %r" % (x,))
    elif isinstance(x, Agg) and inst.key.startswith("<vec"):
        return None         # an adapter
    else:
        s = S(I, st, x)
    p = slice_cursor(I, st, a[0])
    if p is not None:
        return overwrite(I, st, inst, a[0], p, s, site)
    append(I, st, a[0], s)
    return [(st, unit(I))]


@N("<bytes::BytesMut as bytes::BufMut>::put_bytes", "bytes::BufMut::put_bytes")
def n_put_bytes(I, st, inst, a, dty, site):
    n = st.facts.simp(a[2])
    n = small(I, st, n)
    append(I, st, a[0], Seq((("lit", (a[1],) * n),)))
    return [(st, unit(I))]


def small(I, st, n):
    """Force a small integer to a constant by partitioning."""
    if isinstance(n, int):
        return n
    lo, hi = st.facts.hull(n)
    if hi - lo <= 16:
        raise Fork([(lambda f, i=i: f.assume(eqi(n, i), True)) for i in range(lo, hi + 1)], "small %r" % n)
    raise Unsupported("unbounded count %r" % (n,))


@N("bytes::BytesMut::resize", "vec::Vec::<T>::resize")
def n_resize(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    n = st.facts.simp(sub(a[1], s.len()))
    if isinstance(n, int) and n < 0 or not isinstance(n, int) and st.facts.hull(n)[1] <= 0:
        s, _ = I.seq_split(st, s, a[1])
        I.write(st, a[0], s)
        return [(st, unit(I))]
    n = small(I, st, n)
    append(I, st, a[0], Seq((("lit", (a[2],) * n),)))
    return [(st, unit(I))]


@R(r"^(<.* as (std::)?vec::spec_from_elem::SpecFromElem>::from_elem|(std::)?vec::from_elem(::<.*>)?)$")
def n_from_elem(I, st, inst, a, dty, site):
    if I.RANK and not isinstance(st.facts.simp(a[1]), int):
        v = mk_sym(mk("sym", ("filled", uid()), dty), dty)
        st.facts.assume(eqi(mk("len", (v,)), a[1]), True)
        return [(st, v)]
    return [(st, Seq((("lit", (a[0],) * small(I, st, a[1])),)))]


@N("vec::Vec::<T>::pop")
def n_pop(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    if not I.decide(st, lt(0, s.len())):
        return [(st, none(dty))]
    h, t = I.seq_split(st, s, sub(s.len(), 1))
    v = I.seq_get(st, t, 0)
    I.write(st, a[0], h)
    return [(st, some(dty, v))]


@N("string::String::pop")
def n_str_pop(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    if not I.decide(st, lt(0, s.len())):
        return [(st, none(dty))]
    if s.p[-1][0] == "chr":
        I.write(st, a[0], Seq(s.p[:-1]))
        return [(st, some(dty, s.p[-1][1]))]
    h, t = I.seq_split(st, s, sub(s.len(), 1))
    v = I.seq_get(st, t, 0)
    if not I.decide(st, lt(v, 128)):
        raise Unsupported("pop of a character outside ASCII")
    I.write(st, a[0], h)
    return [(st, some(dty, v))]


@N("str::<impl str>::trim_start_matches", "str::<impl str>::trim_end_matches", "str::<impl str>::trim_matches")
def n_trim(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    k, p = pattern(I, st, a[1])
    if k != "char" or not isinstance(p, int) or p >= 128:
        raise Unsupported("trim pattern")
    if "end" not in inst.key:
        s = trim_one(I, st, s, p, False)
    if "start" not in inst.key:
        s = trim_one(I, st, s, p, True)
    return [(st, Ref(s))]


@N("str::<impl str>::trim", "str::<impl str>::trim_start", "str::<impl str>::trim_end")
def n_trim_space(I, st, inst, a, dty, site):
    """The text without the white space at its ends."""
    s = S(I, st, a[0])
    if len(s.p) != 1 or s.p[0][0] != "sub":
        raise Unsupported("trim of %r" % (s,))
    if "trim_end" not in inst.key:
        s = trim_space(I, st, s, False)
    if "trim_start" not in inst.key:
        s = trim_space(I, st, s, True)
    return [(st, Ref(s))]


SPACE = ((9, 13), (32, 32))
GRAPH = ((0, 8), (14, 31), (33, 127))


def trim_space(I, st, s, back):
    """s without the white space at one of its ends."""
    if not I.decide(st, lt(0, s.len())):
        return s
    _, b, lo, hi = s.p[0]
    lo, hi = st.facts.simp(lo), st.facts.simp(hi)
    q = mk("trimws", (b, lo, hi, int(back)))
    e = mk("elem", (b, sub(hi, 1) if back else lo), I.prog.u8)
    for c in (le(128, e), lt(e, 9), lt(e, 14), lt(e, 32), lt(e, 33)):
        if I.decide(st, c):
            break
    rs = st.facts.ranges(e)
    if rs[-1][1] < 9 or rs[0][0] > 32 and rs[-1][1] < 128 or rs[0][0] > 13 and rs[-1][1] < 32:
        return s
    st.facts.assume(le(lo, q), True)
    st.facts.assume(le(q, hi), True)
    if rs[-1][1] < 128:
        st.facts.assume(le(q, sub(hi, 1)) if back else le(add(lo, 1), q), True)
        st.facts.set_range(mk("elem", (b, q if back else sub(q, 1)), I.prog.u8), SPACE + ((128, 255),))
        r = Seq((("sub", b, lo, q) if back else ("sub", b, q, hi),))
        if I.decide(st, lt(0, r.len())):
            st.facts.set_range(mk("elem", (b, sub(q, 1) if back else q), I.prog.u8), GRAPH + ((128, 255),))
        return r
    return Seq((("sub", b, lo, q) if back else ("sub", b, q, hi),))


def trim_one(I, st, s, ch, back):
    """s without the characters ch at one of its ends."""
    for _ in range(40):
        if not I.decide(st, lt(0, s.len())):
            return s
        part = s.p[-1 if back else 0]
        i = sub(s.len(), 1) if back else 0
        if part[0] == "chr" or not I.decide(st, eqi(I.seq_get(st, s, i), ch)):
            return s
        if part[0] == "lit":
            s = I.seq_split(st, s, i)[0] if back else I.seq_split(st, s, 1)[1]
            continue
        if part[0] == "sub" and len(s.p) == 1:
            _, b, lo, hi = part
            q = mk("trim", (b, lo, hi, ch, back))
            st.facts.assume(le(lo, q), True)
            st.facts.assume(le(q, sub(hi, 1)) if back else le(add(lo, 1), q), True)
            st.facts.assume(le(q, hi), True)
            r = Seq((("sub", b, lo, q) if back else ("sub", b, q, hi),))
            if I.decide(st, lt(0, r.len())):
                st.facts.assume(eqi(I.seq_get(st, r, sub(r.len(), 1) if back else 0), ch), False)
            return r
        break
    raise Unsupported("trim of %r" % (s,))


@N("vec::Vec::<T>::truncate", "bytes::BytesMut::truncate", "string::String::truncate", "bytes::Bytes::truncate")
def n_truncate(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    if I.decide(st, lt(a[1], s.len())):
        h, _ = I.seq_split(st, s, a[1])
        I.write(st, a[0], h)
    return [(st, unit(I))]


@N("vec::Vec::<T>::clear", "bytes::BytesMut::clear", "string::String::clear")
def n_clear(I, st, inst, a, dty, site):
    I.write(st, a[0], Seq())
    return [(st, unit(I))]


# ---- numbers in buffers

@R(r"^bytes::BufMut::put_[uif](16|32|64)(_le|_ne)?$|^<bytes::BytesMut as bytes::BufMut>::put_[uif](16|32|64)(_le)?$")
def n_put_num(I, st, inst, a, dty, site):
    p = slice_cursor(I, st, a[0])
    m = re.search(r"put_([uif])(\d+)(_le|_ne)?$", inst.key)
    part = Seq((words.stored(int(m.group(2)) // 8, "le" if m.group(3) else "be", a[1]),))
    if p is not None:
        return overwrite(I, st, inst, a[0], p, part, site)
    append(I, st, a[0], part)
    return [(st, unit(I))]


def slice_cursor(I, st, v):
    """The part of memory a `&mut [u8]` used as a writer points to, or None."""
    p = I.read(st, v) if isinstance(v, Ptr) else None
    return p if isinstance(p, Ptr) else None


def overwrite(I, st, inst, cursor, p, part, site):
    s = S(I, st, p)
    n = part.len()
    if not I.decide(st, le(n, s.len())):
        return [panic(st, inst, "the slice is full", site)]
    if not p.path or p.path[-1][0] != "s":
        p = Ptr(p.cell, p.path + (("s", 0, s.len()),))
    _, lo, hi = p.path[-1]
    mid = st.facts.simp(add(lo, n))
    I.write(st, Ptr(p.cell, p.path[:-1] + (("s", lo, mid),)), part)
    I.write(st, cursor, Ptr(p.cell, p.path[:-1] + (("s", mid, hi),)))
    return [(st, unit(I))]


@R(r"^bytes::Buf::get_([uif])(8|16|32|64)(_le)?$|^<bytes::Bytes as bytes::Buf>::get_[uif]\d+(_le)?$|<&\[u8\] as bytes::Buf>::get")
def n_get_num(I, st, inst, a, dty, site):
    m = re.search(r"get_([uif])(\d+)(_le)?$", inst.key)
    w = int(m.group(2)) // 8
    s = S(I, st, a[0])
    if not I.decide(st, le(w, s.len())):
        return [panic(st, inst, "buffer underflow", site)]
    v, rest = read_num(I, st, s, w, "le" if m.group(3) else "be", dty)
    I.write(st, a[0], rest)
    return [(st, v)]


@R(r"^num::<impl [uif]\d+>::(to|from)_(le|be|ne)_bytes$")
def n_num_bytes(I, st, inst, a, dty, site):
    m = re.search(r"impl ([uif])(\d+)>::(to|from)_(le|be|ne)", inst.key)
    w = int(m.group(2)) // 8
    e = "be" if m.group(4) == "be" else "le"
    if m.group(3) == "to":
        x = a[0]
        if isinstance(x, int):
            return [(st, bytes_seq((x & ((1 << 8 * w) - 1)).to_bytes(w, "little" if e == "le" else "big")))]
        if w == 1:
            return [(st, Seq((("lit", (x,)),)))]
        return [(st, Seq((words.stored(w, e, x),)))]
    v, _ = read_num(I, st, S(I, st, a[0]), w, e, dty)
    return [(st, v)]


# ---- slicing and indexing

def rng(I, st, r, n):
    """(lo, hi) of a range value over length n."""
    r = D(I, st, r)
    if isinstance(r, T):
        r = expand(r)
    nm = r.ty.d["name"].split("::")[-1]
    if nm == "Range":
        return r.f[0], r.f[1]
    if nm == "RangeFrom":
        return r.f[0], n
    if nm == "RangeTo":
        return 0, r.f[0]
    if nm == "RangeFull":
        return 0, n
    if nm == "RangeInclusive":
        return r.f[0], add(r.f[1], 1)
    if nm == "RangeToInclusive":
        return 0, add(r.f[0], 1)
    raise Unsupported("range %s" % nm)


def n_index(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    i = a[1]
    if isinstance(i, (int, T)) and not (isinstance(i, T) and i.ty is not None and i.ty.k == "adt"):
        if not I.decide(st, lt(i, s.len())):
            return [panic(st, inst, "index out of bounds", site)]
        if isinstance(a[0], Ptr):
            return [(st, Ptr(a[0].cell, a[0].path + (("i", i),)))]
        return [(st, Ref(I.seq_get(st, s, i)))]
    lo, hi = rng(I, st, i, s.len())
    if not I.decide(st, le(lo, hi)) or not I.decide(st, le(hi, s.len())):
        return [panic(st, inst, "slice index out of bounds", site)]
    if "String" in inst.key or "str::traits" in inst.key:
        for x in (lo, hi):
            if not boundary(I, st, s, x):
                return [panic(st, inst, "slice index inside a character", site)]
    if isinstance(a[0], Ptr) and "Mut" in inst.key:
        return [(st, Ptr(a[0].cell, a[0].path + (("s", st.facts.simp(lo), st.facts.simp(hi)),)))]
    return [(st, Ref(I.seq_slice(st, s, lo, hi)))]


R(r"slice::index::<impl ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$|array::<impl ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$"
  r"|<vec::Vec<T> as ops::Index(Mut)?<I>>::index(_mut)?$|<string::String as ops::Index<.*>>::index$|str::traits::<impl ops::Index<I> for str>::index$"
  r"|<vec::Vec<T, A> as ops::Index(Mut)?<I>>::index(_mut)?$")(n_index)


@N("slice::<impl [T]>::copy_from_slice", "slice::<impl [T]>::clone_from_slice")
def n_copy_from(I, st, inst, a, dty, site):
    d, s = a[0], S(I, st, a[1])
    if not I.decide(st, eqi(S(I, st, d).len(), s.len())):
        return [panic(st, inst, "copy_from_slice length", site)]
    I.write(st, d, s)
    return [(st, unit(I))]


@N("slice::<impl [T]>::reverse")
def n_reverse(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    ls = s.lits()
    if ls is None:
        n = small(I, st, st.facts.simp(s.len()))
        ls = [I.seq_get(st, s, i) for i in range(n)]
    I.write(st, a[0], Seq((("lit", tuple(reversed(ls))),)) if ls else Seq())
    return [(st, unit(I))]


@N("slice::<impl [T]>::swap")
def n_swap(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    for i in a[1:]:
        if not I.decide(st, lt(i, s.len())):
            return [panic(st, inst, "index out of bounds", site)]
    x, y = I.seq_get(st, s, a[1]), I.seq_get(st, s, a[2])
    s = I.seq_set(st, s, a[1], lambda old: y)
    I.write(st, a[0], I.seq_set(st, s, a[2], lambda old: x))
    return [(st, unit(I))]


@N("slice::<impl [T]>::fill")
def n_fill(I, st, inst, a, dty, site):
    n = small(I, st, st.facts.simp(S(I, st, a[0]).len()))
    I.write(st, a[0], Seq((("lit", (a[1],) * n),)) if n else Seq())
    return [(st, unit(I))]


@N("vec::Vec::<T, A>::remove", "vec::Vec::<T>::remove", "vec::Vec::<T>::try_remove", "vec::Vec::<T>::swap_remove")
def n_vec_remove(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    i = a[1]
    opt = inst.key.endswith("try_remove")
    if not I.decide(st, lt(i, s.len())):
        return [(st, none(dty))] if opt else [panic(st, inst, "index out of bounds", site)]
    h, t = I.seq_split(st, s, i)
    v = I.seq_get(st, t, 0)
    _, t = I.seq_split(st, t, 1)
    if inst.key.endswith("swap_remove") and not I.decide(st, eqi(t.len(), 0)):
        last = I.seq_get(st, t, st.facts.simp(sub(t.len(), 1)))
        t = Seq((("lit", (last,)),)).cat(I.seq_split(st, t, st.facts.simp(sub(t.len(), 1)))[0])
    I.write(st, a[0], h.cat(t))
    return [(st, some(dty, v) if opt else v)]


@R(r"^vec::<impl convert::TryFrom<vec::Vec<T>> for \[T; N\]>::try_from$")
def n_vec_to_array(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    n = dty.field_tys(dty.variant_index("Ok"))[0].d["n"]
    if not I.decide(st, eqi(s.len(), n)):
        return [(st, err(dty, a[0]))]
    return [(st, ok(dty, Seq((("lit", tuple(I.seq_get(st, s, i) for i in range(n))),)) if n else Seq()))]


@N("slice::<impl [T]>::get")
def n_get(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    i = a[1]
    if isinstance(i, (int, T)):
        if not I.decide(st, lt(i, s.len())):
            return [(st, none(dty))]
        return [(st, some(dty, Ref(I.seq_get(st, s, i))))]
    lo, hi = rng(I, st, i, s.len())
    if not I.decide(st, le(lo, hi)) or not I.decide(st, le(hi, s.len())):
        return [(st, none(dty))]
    return [(st, some(dty, Ref(I.seq_slice(st, s, lo, hi))))]


@N("str::<impl str>::get")
def n_str_get(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    lo, hi = rng(I, st, a[1], s.len())
    if not I.decide(st, le(lo, hi)) or not I.decide(st, le(hi, s.len())):
        return [(st, none(dty))]
    for x in (lo, hi):
        if not boundary(I, st, s, x):
            return [(st, none(dty))]
    return [(st, some(dty, Ref(I.seq_slice(st, s, lo, hi))))]


def ascii_text(t):
    """Is the text of a term the inside of a name or an object path?"""
    return name_kind(t) is not None


def boundary(I, st, s, at):
    """Is byte index `at` a char boundary of the text s (partitioning)?"""
    at = st.facts.simp(at)
    if isinstance(at, int) and at == 0:
        return True
    if st.facts.decide(eqi(at, s.len())):
        return True
    n, off = I.seq_find(st, s, at)
    if n is None:
        return True
    p = s.p[n]
    if p[0] == "lit":
        v = p[1][off] if isinstance(off, int) else None
        if isinstance(v, int):
            return not (0x80 <= v < 0xC0)
        return True
    if p[0] == "sub":
        i = st.facts.simp(add(p[2], off))
        if isinstance(i, T) or isinstance(i, int):
            if isinstance(i, int) and i == 0 or ascii_text(p[1]):
                return True
            b = mk("elem", (p[1], i), I.prog.u8)
            if st.facts.decide(lt(b, 128)) is True:
                return True
            # after an ASCII byte
            pb = mk("elem", (p[1], sub(i, 1)), I.prog.u8)
            if st.facts.decide(lt(pb, 128)) is True:
                return True
            # behind a text it starts with
            if isinstance(at, T):
                for x in lens_in(at):
                    t = full(x) if x.ty is not None else None
                    if t is not None and st.facts.decide(eqi(at, t.len())):
                        h, _ = I.seq_split(st, s, at)
                        if st.facts.decide(seq_eq(I, st, h, t)) is True:
                            return True
            # In a text, a byte that continues no character is at a boundary,
            # and none continues a character after an ASCII byte.
            return I.decide(st, lt(b, 0x80)) or I.decide(st, le(0xC0, b)) or I.decide(st, lt(pb, 128))
    return True


def lens_in(t):
    """What the lengths in a number are of."""
    if isinstance(t, T):
        if t.op == "len":
            yield t.args[0]
            return
        for x in t.args:
            yield from lens_in(x)
    elif isinstance(t, (tuple, list, frozenset)):
        for x in t:
            yield from lens_in(x)


@N("bytes::Bytes::slice")
def n_bytes_slice(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    lo, hi = rng(I, st, a[1], s.len())
    if not I.decide(st, le(lo, hi)) or not I.decide(st, le(hi, s.len())):
        return [panic(st, inst, "slice out of bounds", site)]
    return [(st, I.seq_slice(st, s, lo, hi))]


@N("vec::Vec::<T>::insert", "vec::Vec::<T>::insert_mut", "string::String::insert", "string::String::insert_str")
def n_insert(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    if not I.decide(st, le(a[1], s.len())):
        return [panic(st, inst, "insert out of bounds", site)]
    text = "String" in inst.key
    if text and not boundary(I, st, s, a[1]):
        return [panic(st, inst, "insert inside a char", site)]
    x, y = I.seq_split(st, s, a[1])
    if inst.key.endswith("::insert_str"):
        x = x.cat(S(I, st, a[2]))
    elif text:
        x = push_char(I, st, x, a[2])
    else:
        x = x.cat(bytes_seq([a[2]]))
    I.write(st, a[0], x.cat(y))
    return [(st, unit(I))] if not inst.key.endswith("insert_mut") else [(st, Ptr(a[0].cell, a[0].path + (("i", a[1]),)))]


@N("vec::Vec::<T>::split_off", "string::String::split_off", "bytes::BytesMut::split_off", "bytes::Bytes::split_off")
def n_split_off(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    if not I.decide(st, le(a[1], s.len())):
        return [panic(st, inst, "split_off out of bounds", site)]
    if "String" in inst.key and not boundary(I, st, s, a[1]):
        return [panic(st, inst, "split_off inside a char", site)]
    x, y = I.seq_split(st, s, a[1])
    I.write(st, a[0], x)
    return [(st, y)]


@N("slice::<impl [T]>::split_at", "str::<impl str>::split_at")
def n_split_at(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    if not I.decide(st, le(a[1], s.len())):
        return [panic(st, inst, "split_at out of bounds", site)]
    if "str" in inst.key and not boundary(I, st, s, a[1]):
        return [panic(st, inst, "split_at inside a char", site)]
    x, y = I.seq_split(st, s, a[1])
    return [(st, Agg(dty, 0, [Ref(x), Ref(y)]))]


@N("bytes::Bytes::split_to", "bytes::BytesMut::split_to", "bytes::Buf::copy_to_bytes")
def n_split_to(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    if not I.decide(st, le(a[1], s.len())):
        return [panic(st, inst, "split_to out of bounds", site)]
    x, y = I.seq_split(st, s, a[1])
    I.write(st, a[0], y)
    return [(st, x)]


@N("bytes::Buf::advance", "<bytes::Bytes as bytes::Buf>::advance")
def n_advance(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    if not I.decide(st, le(a[1], s.len())):
        return [panic(st, inst, "advance out of bounds", site)]
    x, y = I.seq_split(st, s, a[1])
    I.write(st, a[0], y)
    return [(st, unit(I))]


@N("slice::<impl [T]>::first", "slice::<impl [T]>::last")
def n_first(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    if not I.decide(st, lt(0, s.len())):
        return [(st, none(dty))]
    i = 0 if inst.key.endswith("first") else sub(s.len(), 1)
    return [(st, some(dty, Ref(I.seq_get(st, s, i))))]


# ---- strings

@N("str::from_utf8", "string::String::from_utf8")
def n_from_utf8(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    ls = s.lits()
    if ls is not None and all(isinstance(x, int) for x in ls):
        c = 1
        try:
            bytes(ls).decode()
        except UnicodeDecodeError:
            c = 0
    else:
        c = mk("b", ("utf8", reify(s)), boolty(I))
    if I.decide(st, c):
        return [(st, ok(dty, Ref(s) if inst.key == "str::from_utf8" else s))]
    ety = dty.field_tys(1)[0]
    return [(st, err(dty, mk("utf8err", (reify(s),), ety)))]


@N("str::<impl str>::chars")
def n_chars(I, st, inst, a, dty, site):
    return [(st, Nat("chars", S(I, st, a[0])))]


@N("str::<impl str>::char_indices")
def n_char_indices(I, st, inst, a, dty, site):
    return [(st, Nat("charidx", S(I, st, a[0]), 0))]


@N("<str::Chars as iter::Iterator>::next")
def n_chars_next(I, st, inst, a, dty, site):
    it = I.read(st, a[0])
    r = next_char(I, st, it.f[0])
    if r is None:
        return [(st, none(dty))]
    I.write(st, a[0], Nat("chars", r[1]))
    return [(st, some(dty, r[0]))]


@N("<str::CharIndices as iter::Iterator>::next")
def n_charidx_next(I, st, inst, a, dty, site):
    it = I.read(st, a[0])
    r = next_char(I, st, it.f[0])
    if r is None:
        return [(st, none(dty))]
    n = sub(it.f[0].len(), r[1].len())
    I.write(st, a[0], Nat("charidx", r[1], st.facts.simp(add(it.f[1], n))))
    ty = dty.field_tys(dty.variant_index("Some"))[0]
    return [(st, some(dty, Agg(ty, 0, [it.f[1], r[0]])))]


ASCII_TYPES = ("ObjectPath", "UniqueConnectionName", "WellKnownBusName", "Interface", "Member", "Error")


def ascii_base(t):
    """Text inside a name type: ASCII by the type's grammar (C04, C05)."""
    if t.op != "fld" or not isinstance(t.args[0], T) or t.args[0].ty is None or t.args[0].ty.k != "adt":
        return False
    n = t.args[0].ty.d["name"].split("::")
    return n[0] == "dbus_message_parser" and "value" in n[1] and n[-1] in ASCII_TYPES


@N("<str::Chars as iter::Iterator>::count")
def n_chars_count(I, st, inst, a, dty, site):
    n = 0
    for p in D(I, st, a[0]).f[0].p:
        if p[0] == "sub" and not ascii_base(p[1]):
            c = mk("nchars", p[1:], dty)
            st.facts.assume(le(c, part_len(p)), True)
            n = add(n, c)
        elif p[0] == "sub" or p[0] == "lit" and all(isinstance(x, int) and x < 128 for x in p[1]):
            n = add(n, part_len(p))
        elif p[0] == "chr":
            n = add(n, 1)
        else:
            raise Unsupported("characters of %r" % (p,))
    return [(st, n)]


@N("str::Chars::as_str")
def n_chars_as_str(I, st, inst, a, dty, site):
    return [(st, Ref(D(I, st, a[0]).f[0]))]


@N("str::CharIndices::offset")
def n_charidx_offset(I, st, inst, a, dty, site):
    return [(st, D(I, st, a[0]).f[1])]


@N("str::<impl str>::bytes")
def n_bytes(I, st, inst, a, dty, site):
    return [(st, Nat("into_iter", S(I, st, a[0])))]


@N("str::<impl str>::starts_with", "slice::<impl [T]>::starts_with")
def n_starts_with(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    k, p = pattern(I, st, a[1])
    if k == "char":
        r = next_char(I, st, s)
        return [(st, 0 if r is None else eqi(r[0], p))]
    if k == "str":
        c, _ = starts_with(I, st, s, p)
        return [(st, c)]
    r = next_char(I, st, s)
    if r is None:
        return [(st, 0)]
    return call_closure(I, st, p, [r[0]], dty, site)


@N("str::<impl str>::eq_ignore_ascii_case", "slice::ascii::<impl [u8]>::eq_ignore_ascii_case")
def n_eq_ic(I, st, inst, a, dty, site):
    x, y = S(I, st, a[0]), S(I, st, a[1])
    if I.decide(st, seq_eq(I, st, x, y)):
        return [(st, 1)]
    if not I.decide(st, eqi(x.len(), y.len())):
        return [(st, 0)]
    return [(st, mk("b", ("eqic", reify(x), reify(y)), boolty(I)))]


@N("str::<impl str>::ends_with", "slice::<impl [T]>::ends_with")
def n_ends_with(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    k, p = pattern(I, st, a[1])
    if k == "char" and isinstance(p, int) and p < 128:
        p = bytes_seq([p])
    elif k != "str":
        raise Unsupported("ends_with pattern")
    n = p.len()
    if not I.decide(st, le(n, s.len())):
        return [(st, 0)]
    _, t = I.seq_split(st, s, sub(s.len(), n))
    return [(st, seq_eq(I, st, t, p))]


@N("str::<impl str>::strip_prefix")
def n_strip_prefix(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    k, p = pattern(I, st, a[1])
    if k == "char":
        r = next_char(I, st, s)
        if r is None or not I.decide(st, eqi(r[0], p)):
            return [(st, none(dty))]
        return [(st, some(dty, Ref(r[1])))]
    if k != "str":
        raise Unsupported("strip_prefix pattern")
    c, rest = starts_with(I, st, s, p)
    if not I.decide(st, c):
        return [(st, none(dty))]
    return [(st, some(dty, Ref(rest())))]


@N("slice::<impl [T]>::strip_prefix", "slice::<impl [T]>::strip_suffix")
def n_slice_strip(I, st, inst, a, dty, site):
    s, p = S(I, st, a[0]), S(I, st, a[1])
    n = p.len()
    if not I.decide(st, le(n, s.len())):
        return [(st, none(dty))]
    if inst.key.endswith("prefix"):
        x, rest = I.seq_split(st, s, n)
    else:
        rest, x = I.seq_split(st, s, sub(s.len(), n))
    if not I.decide(st, seq_eq(I, st, x, p)):
        return [(st, none(dty))]
    return [(st, some(dty, Ref(rest)))]


@N("<slice::Split<T, P> as iter::Iterator>::next")
def n_slice_split_next(I, st, inst, a, dty, site):
    it = I.read(st, a[0])
    if not isinstance(it, Agg) or len(it.f) != 3:
        raise Unsupported("slice split %r" % (it,))
    seq, clo, fin = S(I, st, it.f[0]), it.f[1], it.f[2]
    if I.decide(st, fin if isinstance(fin, T) else int(bool(fin))):
        return [(st, none(dty))]
    c = const_test(I, st, clo, I.prog.u8, site, True)
    if c is not None:
        r = find_delim(I, st, seq, c)
        I.write(st, a[0], Agg(it.ty, it.v, [it.f[0], clo, 1] if r is None else [Ref(r[1]), clo, 0]))
        return [(st, some(dty, Ref(seq if r is None else r[0])))]
    cell = Ptr(I.new_cell(st, Nat("iter", seq)))
    env = Ptr(I.new_cell(st, clo))
    oty = dty

    def step(I, s, e, acc, x):
        r = call_closure(I, s, e[0], [x], boolty(I), site)
        return tested(I, r, lambda s2, b: (s2, 1, Agg(oty, 1, [acc])) if b else (s2, 0, s2.facts.simp(add(acc, 1))))
    out = []
    for r in rets(syn_iter(I, st, "split", pull_iter, step, lambda acc: none(oty), 0, I.prog.usize, [cell, env], site)):
        if r[0] == "panic":
            out.append(r)
            continue
        s, v = r
        clo2 = I.read(s, env)
        if oty.variants[v.v]["n"] == "None":
            I.write(s, a[0], Agg(it.ty, it.v, [it.f[0], clo2, 1]))
            out.append((s, some(dty, Ref(seq))))
        else:
            h, t = I.seq_split(s, seq, v.f[0])
            I.write(s, a[0], Agg(it.ty, it.v, [Ref(I.seq_split(s, t, 1)[1]), clo2, 0]))
            out.append((s, some(dty, Ref(h))))
    return out


@N("str::<impl str>::to_lowercase", "str::<impl str>::to_uppercase", "str::<impl str>::to_ascii_lowercase",
   "str::<impl str>::to_ascii_uppercase", "slice::ascii::<impl [u8]>::to_ascii_lowercase",
   "slice::ascii::<impl [u8]>::to_ascii_uppercase")
def n_to_case(I, st, inst, a, dty, site):
    """Another text; nothing is known of it but where it comes from."""
    s = S(I, st, a[0])
    return [(st, full(mk("recased", (inst.key.split("::")[-1], reify(s)), I.prog.by_s.get("str"))))]


@N("string::String::from_utf8_lossy")
def n_from_utf8_lossy(I, st, inst, a, dty, site):
    """The text itself where it is UTF-8."""
    s = S(I, st, a[0])
    c = mk("b", ("utf8", reify(s)), boolty(I))
    if I.decide(st, c):
        return [(st, Agg(dty, dty.variant_index("Borrowed"), [Ref(s)]))]
    return [(st, Agg(dty, dty.variant_index("Owned"), [full(mk("lossy", (reify(s),), I.prog.by_s.get("str")))]))]


@N("str::<impl str>::strip_suffix")
def n_strip_suffix(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    k, p = pattern(I, st, a[1])
    if k == "char" and isinstance(p, int) and p < 128:
        p = bytes_seq([p])
    elif k != "str":
        raise Unsupported("strip_suffix pattern")
    n = p.len()
    if not I.decide(st, le(n, s.len())):
        return [(st, none(dty))]
    h, t = I.seq_split(st, s, sub(s.len(), n))
    if not I.decide(st, seq_eq(I, st, t, p)):
        return [(st, none(dty))]
    return [(st, some(dty, Ref(h)))]


def char_set(I, st, v):
    """The characters of a pattern that is an array or slice of characters."""
    x = D(I, st, v)
    if isinstance(x, Seq) and x.lits() is not None and x.lits() and \
            all(isinstance(c, int) or isinstance(c, T) and c.ty is not None and c.ty.k == "char" for c in x.lits()):
        return x.lits()
    return None


def pat_ty(I, inst):
    """The pattern's type."""
    t = I.prog.types[inst.body["locals"][2]] if inst.body is not None else None
    while t is not None and t.k == "ref":
        t = t.elem
    return t


def char_test(I, st, inst, a):
    """For patterns that are predicates or sets of characters: test(I, st, env, c) -> results."""
    t = pat_ty(I, inst)
    if t is None:
        return None
    if t.k in ("array", "slice") and t.elem is not None and t.elem.k == "char":
        cs = char_set(I, st, a)
        if cs is None:
            return None

        def test(I, s, env, c, site):
            for x in cs:
                if I.decide(s, eqi(c, x)):
                    return [(s, 1)]
            return [(s, 0)]
        return test
    if t.k in ("closure", "fndef", "fnptr"):
        def test(I, s, env, c, site):
            return call_closure(I, s, env, [c], boolty(I), site)
        return test
    return None


@N("str::<impl str>::split_once", "str::<impl str>::find", "str::<impl str>::contains")
def n_split_once(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    pt = pat_ty(I, inst)
    k, p = ("char", a[1]) if pt is not None and pt.k == "char" and isinstance(a[1], (int, T)) else pattern(I, st, a[1])
    if inst.key.endswith(("contains", "find")):
        test = char_test(I, st, inst, a[1])
        if test is not None:
            env = a[1]
            if isinstance(env, Agg) and env.ty.k == "closure":
                env = Ptr(I.new_cell(st, env))
            ptr = Ptr(I.new_cell(st, Nat("chars", s)))
            if inst.key.endswith("contains"):
                def step(I, s2, e, acc, c):
                    return tested(I, test(I, s2, e[0], c, site), lambda s3, b: (s3, int(b), 1))
                return rets(syn_iter(I, st, "contains", pull_chars, step, lambda acc: 0, 0, I.prog.usize, [ptr, env], site))

            def step(I, s2, e, acc, c):
                w = 1 if s2.facts.decide(lt(c, 128)) else mk("clen", (c,)) if isinstance(c, T) else len(chr(c).encode())
                return tested(I, test(I, s2, e[0], c, site),
                              lambda s3, b: (s3, 1, some(dty, acc)) if b else (s3, 0, s3.facts.simp(add(acc, w))))
            return rets(syn_iter(I, st, "find", pull_chars, step, lambda acc: none(dty), 0, I.prog.usize, [ptr, env], site))
    if inst.key.endswith("contains") and k == "char" and isinstance(p, T) and s.lits() is not None \
            and all(isinstance(x, int) and x < 128 for x in s.lits()):
        for x in s.lits():
            if I.decide(st, eqi(p, x)):
                return [(st, 1)]
        return [(st, 0)]
    if k == "str" and p.lits() is not None and len(p.lits()) == 1:
        p = p.lits()[0]
        k = "char"
    if k != "char" or not isinstance(p, int) or p >= 128:
        raise Unsupported("split_once pattern")
    r = find_delim(I, st, s, p)
    if inst.key.endswith("contains"):
        return [(st, 0 if r is None else 1)]
    if r is None:
        return [(st, none(dty))]
    if inst.key.endswith("find"):
        return [(st, some(dty, r[0].len()))]
    ty = dty.field_tys(dty.variant_index("Some"))[0]
    return [(st, some(dty, Agg(ty, 0, [Ref(r[0]), Ref(r[1])])))]


@R(r"unicode::unicode_data::\w+::(lookup|lookup_slow)$")
def n_unicode(I, st, inst, a, dty, site):
    """Membership of a character in a table of Unicode: some predicate."""
    return [(st, mk("b", ("unicode", inst.key.split("::")[-2], st.facts.simp(D(I, st, a[0]))), boolty(I)))]


@N("str::<impl str>::rsplit_once", "str::<impl str>::rfind")
def n_rsplit_once(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    k, p = pattern(I, st, a[1])
    if k == "str" and p.lits() is not None and len(p.lits()) == 1:
        p = p.lits()[0]
        k = "char"
    if k != "char" or not isinstance(p, int) or p >= 128:
        raise Unsupported("rsplit_once pattern")
    r = find_last(I, st, s, p)
    if r is None:
        return [(st, none(dty))]
    if inst.key.endswith("rfind"):
        return [(st, some(dty, r[0].len()))]
    ty = dty.field_tys(dty.variant_index("Some"))[0]
    return [(st, some(dty, Agg(ty, 0, [Ref(r[0]), Ref(r[1])])))]


def find_last(I, st, seq, ch):
    """None or (before, after) around the last occurrence of the ASCII char ch."""
    if not seq.p:
        return None
    p, front = seq.p[-1], seq.p[:-1]
    if p[0] == "lit":
        for i in reversed(range(len(p[1]))):
            if I.decide(st, eqi(p[1][i], ch)):
                return Seq(front + (("lit", p[1][:i]),)), Seq((("lit", p[1][i + 1:]),))
    elif p[0] == "sub":
        _, base, lo, hi = p
        lo, hi = st.facts.simp(lo), st.facts.simp(hi)
        if st.facts.decide(lt(lo, hi)) and st.facts.decide(eqi(mk("elem", (base, sub(hi, 1)), I.prog.u8), ch)):
            return Seq(front + (("sub", base, lo, sub(hi, 1)),)), Seq()
        if I.decide(st, mk("b", ("has", base, lo, hi, ch), boolty(I))):
            q = mk("lastpos", (base, lo, hi, ch))
            st.facts.assume(le(lo, q), True)
            st.facts.assume(lt(q, hi), True)
            st.facts.assume(le(mk("pos", (base, lo, hi, ch)), q), True)
            st.facts.assume(eqi(mk("elem", (base, q), I.prog.u8), ch), True)
            return Seq(front + (("sub", base, lo, q),)), Seq((("sub", base, add(q, 1), hi),))
    elif p[0] != "chr":
        raise Unsupported("find in %r" % (seq,))
    r = find_last(I, st, Seq(front), ch)
    return None if r is None else (r[0], Seq(r[1].p + (p,)))


@N("str::<impl str>::split")
def n_split(I, st, inst, a, dty, site):
    k, p = pattern(I, st, a[1])
    if k == "str" and p.lits() is not None and len(p.lits()) == 1:
        p = p.lits()[0]
        k = "char"
    if k == "fn" and pat_ty(I, inst) is not None and pat_ty(I, inst).k in ("closure", "fndef", "fnptr"):
        c = const_test(I, st, a[1], I.prog.prim("char"), site, False)
        if c is not None and c < 128:
            k, p = "char", c
    if k != "char" or not isinstance(p, int):
        raise Unsupported("split pattern")
    return [(st, Nat("split", S(I, st, a[0]), p, 0))]


@N("<str::Split<P> as iter::Iterator>::next")
def n_split_next(I, st, inst, a, dty, site):
    it = I.read(st, a[0])
    s, p, fin = it.f
    if fin:
        return [(st, none(dty))]
    r = find_delim(I, st, s, p)
    if r is None:
        I.write(st, a[0], Nat("split", s, p, 1))
        return [(st, some(dty, Ref(s)))]
    I.write(st, a[0], Nat("split", r[1], p, 0))
    return [(st, some(dty, Ref(r[0])))]


@N("str::<impl str>::splitn", "str::<impl str>::rsplitn")
def n_splitn(I, st, inst, a, dty, site):
    k, p = pattern(I, st, a[2])
    if k == "str" and p.lits() is not None and len(p.lits()) == 1:
        p = p.lits()[0]
        k = "char"
    n = st.facts.simp(a[1])
    if k != "char" or not isinstance(p, int) or p >= 128 or not isinstance(n, int):
        raise Unsupported("splitn pattern")
    return [(st, Nat("splitn", S(I, st, a[0]), p, n, inst.key.split("::")[-1]))]


@N("<str::SplitN<P> as iter::Iterator>::next", "<str::RSplitN<P> as iter::Iterator>::next")
def n_splitn_next(I, st, inst, a, dty, site):
    s, p, n, how = I.read(st, a[0]).f
    if n == 0:
        return [(st, none(dty))]
    r = None
    if n > 1:
        r = find_delim(I, st, s, p) if how == "splitn" else find_last(I, st, s, p)
    if r is None:
        I.write(st, a[0], Nat("splitn", s, p, 0, how))
        return [(st, some(dty, Ref(s)))]
    mine, rest = r if how == "splitn" else r[::-1]
    I.write(st, a[0], Nat("splitn", rest, p, n - 1, how))
    return [(st, some(dty, Ref(mine)))]


def parses(I, s):
    """The text is a decimal number that fits 64 bits."""
    return mk("b", ("parses", reify(s)), boolty(I))


def parsed(I, s):
    return mk("parsed", (reify(s),), I.prog.usize)


@N("str::<impl str>::parse", "num::<impl str::FromStr for usize>::from_str")
def n_parse(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    oty = dty.field_tys(0)[0]
    if oty.k != "uint":
        # a local FromStr implementation
        for i in I.prog.insts.values():
            if i.local and i.key.endswith("as str::FromStr>::from_str") and i.body is not None \
                    and I.prog.types[i.body["locals"][0]] is dty:
                return I.call(i, [Ref(s)], st, dty, site)
        if oty.k == "bool":
            for text, v in ((b"true", 1), (b"false", 0)):
                if I.decide(st, seq_eq(I, st, s, bytes_seq(text))):
                    return [(st, ok(dty, v))]
            ety = dty.field_tys(1)[0]
            return [(st, err(dty, Agg(ety, 0, [mk("sym", ("not a bool",))] * len(ety.field_tys(0)))))]
        raise Unsupported("parse to %s" % oty.s)
    ls = s.lits()
    if ls is not None and all(isinstance(x, int) for x in ls):
        t = bytes(ls)
        import re as _re
        if _re.match(rb"^\+?[0-9]+$", t) and int(t) <= oty.int_range()[1]:
            return [(st, ok(dty, int(t)))]
        return [(st, err(dty, mk("interr", (reify(s),), dty.field_tys(1)[0])))]
    if oty.d["w"] > 64:
        raise Unsupported("parse to %s" % oty.s)
    if I.decide(st, eqi(s.len(), 0)):
        return [(st, err(dty, mk("interr", (reify(Seq()),), dty.field_tys(1)[0])))]
    if I.decide(st, parses(I, s)):
        v = parsed(I, s)
        if oty.d["w"] == 64 or I.decide(st, le(v, oty.int_range()[1])):
            return [(st, ok(dty, v))]
    return [(st, err(dty, mk("interr", (reify(s),), dty.field_tys(1)[0])))]


# ---- iterators

def n_iter(I, st, inst, a, dty, site):
    return [(st, Nat("iter", S(I, st, a[0])))]


N("slice::<impl [T]>::iter", "slice::iter::<impl iter::IntoIterator for &[T]>::into_iter", "<&vec::Vec<T> as iter::IntoIterator>::into_iter",
  "slice::Iter::<T>::new", "array::<impl iter::IntoIterator for &[T; N]>::into_iter",
  "array::iter::<impl iter::IntoIterator for &[T; N]>::into_iter")(n_iter)


def n_into_iter(I, st, inst, a, dty, site):
    return [(st, Nat("into_iter", S(I, st, a[0])))]


N("<vec::Vec<T> as iter::IntoIterator>::into_iter", "<bytes::Bytes as iter::IntoIterator>::into_iter",
  "array::iter::<impl iter::IntoIterator for [T; N]>::into_iter", "array::<impl iter::IntoIterator for [T; N]>::into_iter",
  "<bytes::BytesMut as iter::IntoIterator>::into_iter")(n_into_iter)


def n_into_iter_ref(I, st, inst, a, dty, site):
    return [(st, Nat("iter", S(I, st, a[0])))]


N("<&bytes::Bytes as iter::IntoIterator>::into_iter", "<&bytes::BytesMut as iter::IntoIterator>::into_iter")(n_into_iter_ref)


@N("slice::Iter::<T>::as_slice")
def n_iter_as_slice(I, st, inst, a, dty, site):
    return [(st, Ref(D(I, st, a[0]).f[0]))]


def n_next(I, st, inst, a, dty, site):
    it = I.read(st, a[0])
    s = it.f[0]
    if not I.decide(st, lt(0, s.len())):
        return [(st, none(dty))]
    s, v = pop_front(I, st, s)
    I.write(st, a[0], Nat(it.k, s))
    return [(st, some(dty, Ref(v) if it.k == "iter" else v))]


@N("<slice::Iter<T> as iter::Iterator>::__iterator_get_unchecked")
def n_iter_get(I, st, inst, a, dty, site):
    it = D(I, st, a[0])
    if not isinstance(it, Nat) or it.k != "iter":
        raise Unsupported("iterator %r" % (it,))
    return [(st, Ref(I.seq_get(st, it.f[0], a[1])))]


def pop_front(I, st, s):
    v = I.seq_get(st, s, 0)
    _, rest = I.seq_split(st, s, 1)
    return rest, v


def n_next_back(I, st, inst, a, dty, site):
    it = I.read(st, a[0])
    s = it.f[0]
    if not I.decide(st, lt(0, s.len())):
        return [(st, none(dty))]
    h, t = I.seq_split(st, s, sub(s.len(), 1))
    v = I.seq_get(st, t, 0)
    I.write(st, a[0], Nat(it.k, h))
    return [(st, some(dty, Ref(v) if it.k == "iter" else v))]


N("<slice::Iter<T> as iter::Iterator>::next", "<vec::IntoIter<T> as iter::Iterator>::next", "<bytes::buf::IntoIter<T> as iter::Iterator>::next",
  "<array::IntoIter<T, N> as iter::Iterator>::next", "<str::Bytes as iter::Iterator>::next")(n_next)
N("<slice::Iter<T> as iter::DoubleEndedIterator>::next_back", "<vec::IntoIter<T> as iter::DoubleEndedIterator>::next_back",
  "<str::Bytes as iter::DoubleEndedIterator>::next_back")(n_next_back)


@N("iter::range::<impl iter::Iterator for ops::Range<A>>::next")
def n_range_next(I, st, inst, a, dty, site):
    r = I.read(st, a[0])
    if isinstance(r, T):
        r = expand(r)
    lo, hi = r.f
    if not I.decide(st, lt(lo, hi)):
        return [(st, none(dty))]
    I.write(st, a[0], Agg(r.ty, 0, [st.facts.simp(add(lo, 1)), hi]))
    return [(st, some(dty, lo))]


def call_closure(I, st, f, args, dty, site):
    """Call a closure / fn value; -> native-style results."""
    env = f
    v = D(I, st, f)
    if isinstance(v, Fn):
        inst = I.prog.insts[v.inst]
        return [r if r[0] == "panic" else (r[1], r[2]) for r in I.call(inst, args, st, dty, site)]
    if isinstance(v, Agg) and v.ty.k == "closure" and v.ty.d.get("inst") is not None:
        inst = I.prog.insts[v.ty.d["inst"]]
        lt_ = I.prog.types[inst.body["locals"][1]]
        if lt_.k == "ref" and not isinstance(env, (Ref, Ptr)):
            env = Ptr(I.new_cell(st, v)) if lt_.d.get("m") else Ref(v)
        return [r if r[0] == "panic" else (r[1], r[2]) for r in I.call(inst, [env] + args, st, dty, site)]
    raise Unsupported("call of %r" % (v,))


# ---- loops inside library functions: interpreted as small synthetic bodies,
# so that they are analysed exactly like the loops of the crate itself

class SynInst(object):
    """A synthetic function: next element -> step(state, element)."""
    local = False
    kind = "Syn"
    intr = None
    args = ()
    span = None

    def __init__(self, prog, name, locals_, blocks, argc):
        self.id = "syn:%s:%d" % (name, uid())
        self.name = self.def_ = self.key = "<library loop %s>" % name
        self.prog = prog
        self.body = {"locals": locals_, "blocks": blocks, "argc": argc}
        self._cfg = None

    def short(self):
        return self.name

    @property
    def cfg(self):
        from prog import Cfg
        if self._cfg is None:
            self._cfg = Cfg(self.body)
        return self._cfg


def syn_iter(I, st, name, pull, step, finish, init, acc_ty, args, site):
    """while let Some(x) = pull(): match step(acc, x) { Continue(acc) | Break(v) }; finish(acc)

    pull(I, st, ptr) -> [(st, has, x)]; step(I, st, env, acc, x) -> [(st, brk, value)] (or panics);
    args = [pointer to the iterator, environment values...]."""
    key = (name, len(args))
    us, bo = I.prog.usize.id, boolty(I).id
    n = len(args)
    ACC, HAS, X, BRK, VAL = n + 1, n + 2, n + 3, n + 4, n + 5
    fid = lambda fr, i: (fr.id, i)

    def py_init(I, st, fr):
        return [(st, [init])]

    def py_next(I, st, fr):
        return [(s, [h, x]) for s, h, x in pull(I, st, st.mem[fid(fr, 1)])]

    def py_step(I, st, fr):
        env = [st.mem[fid(fr, i + 1)] for i in range(1, n)]
        out = []
        for r in step(I, st, env, st.mem.get(fid(fr, ACC), UNINIT), st.mem[fid(fr, X)]):
            if r[0] == "panic":
                out.append(r)
            else:
                out.append((r[0], [r[1], r[2]]))
        return out

    def py_acc(I, st, fr):
        return [(st, [st.mem[fid(fr, VAL)]])]

    def py_done(I, st, fr):
        return [(st, [finish(st.mem.get(fid(fr, ACC), UNINIT))])]
    blocks = [
        {"s": [], "t": ["py", py_init, [ACC], [], 1]},
        {"s": [], "t": ["py", py_next, [HAS, X], [1], 2]},
        {"s": [], "t": ["switch", ["c", [HAS, []]], [[0, 6]], 3]},
        {"s": [], "t": ["py", py_step, [BRK, VAL], [ACC, X] + list(range(1, n + 1)), 4]},
        {"s": [], "t": ["switch", ["c", [BRK, []]], [[0, 5]], 7]},
        {"s": [], "t": ["py", py_acc, [ACC], [VAL], 1]},
        {"s": [], "t": ["py", py_done, [0], [ACC], 8]},
        {"s": [], "t": ["py", py_acc, [0], [VAL], 8]},
        {"s": [], "t": ["ret"]},
    ]
    ck = (name, acc_ty.id if acc_ty is not None else None, n)
    locals_ = [us] + [us] * n + [acc_ty.id if acc_ty is not None else us, bo, us, bo, us]
    inst = SynInst(I.prog, name, locals_, blocks, n)
    I.prog.insts[inst.id] = inst
    try:
        return I.inline(inst, args, st, site)
    finally:
        pass


def pull_iter(I, st, ptr):
    """Next element of a slice / vector iterator."""
    it = I.read(st, ptr)
    if not (isinstance(it, Nat) and it.k in ("iter", "into_iter")):
        raise Unsupported("library loop over %r" % (it,))
    s = it.f[0]
    if not I.decide(st, lt(0, s.len())):
        return [(st, 0, 0)]
    s, v = pop_front(I, st, s)
    I.write(st, ptr, Nat(it.k, s))
    return [(st, 1, Ref(v) if it.k == "iter" else v)]


def pull_back(I, st, ptr):
    """Last element of a slice / vector iterator."""
    it = I.read(st, ptr)
    s = it.f[0]
    if not I.decide(st, lt(0, s.len())):
        return [(st, 0, 0)]
    h, t = I.seq_split(st, s, st.facts.simp(sub(s.len(), 1)))
    v = I.seq_get(st, t, 0)
    I.write(st, ptr, Nat(it.k, h))
    return [(st, 1, Ref(v) if it.k == "iter" else v)]


def try_type(ty):
    """Variant that goes on of a Result / Option / ControlFlow."""
    for n in ("Ok", "Some", "Continue"):
        i = ty.variant_index(n) if ty.is_enum else None
        if i is not None:
            return i, n
    raise Unsupported("try type %s" % ty.s)


def pull_chars(I, st, ptr):
    """Next character of a string."""
    it = I.read(st, ptr)
    r = next_char(I, st, it.f[0])
    if r is None:
        return [(st, 0, 0)]
    I.write(st, ptr, Nat("chars", r[1]))
    return [(st, 1, r[0])]


def as_bool(I, st, v):
    if isinstance(v, int):
        return [(st, bool(v))]
    return I.split_cond(st, v)


def rets(rs):
    return [r if r[0] == "panic" else (r[1], r[2]) for r in rs]


def tested(I, r, f):
    """Map the boolean results of a call."""
    out = []
    for x in r:
        if x[0] == "panic":
            out.append(x)
        else:
            for s, b in as_bool(I, x[0], x[1]):
                out.append(f(s, b))
    return out


def const_test(I, st, f, ty, site, ref):
    """c when the predicate holds for the element c and for nothing else."""
    v = D(I, st, f)
    if not (isinstance(v, Fn) or (isinstance(v, Agg) and v.ty.k == "closure" and not v.f)):
        return None
    x = fresh("probe", ty)
    yes, no = set(), 0
    try:
        r = call_closure(I, st.copy(), f, [Ref(x) if ref else x], boolty(I), site)
        for y in r:
            if y[0] == "panic":
                return None
            for s, b in as_bool(I, y[0], y[1]):
                n = sum(h - l + 1 for l, h in s.facts.ranges(x))
                if b and n > 1:
                    return None
                if b:
                    yes.add(s.facts.const(x))
                else:
                    no += n
    except Unsupported:
        return None
    top = sum(h - l + 1 for l, h in st.facts.ranges(x))
    if len(yes) == 1 and no == top - 1:
        return yes.pop()
    return None


def is_slice_iter(I, st, a0):
    it = I.read(st, a0) if isinstance(a0, Ptr) else a0
    return isinstance(it, Nat) and it.k in ("iter", "into_iter")


def look_for(I, st, ptr, what, f, dty, site):
    """Search of one byte among bytes: exact, without a loop."""
    it = I.read(st, ptr)
    s = it.f[0]
    if len(s.p) != 1 or s.p[0][0] != "sub":
        return None
    ety = seq_elem_ty(s.p[0][1].ty)
    if ety is None or ety.k != "uint" or I.prog.u8 is not ety:
        return None
    c = const_test(I, st, f, ety, site, it.k == "iter")
    if c is None or c >= 128:
        return None
    r = (find_last if what == "rposition" else find_delim)(I, st, s, c)
    if r is None:
        I.write(st, ptr, Nat(it.k, I.seq_slice(st, s, s.len(), s.len())))
        return [(st, none(dty))]
    I.write(st, ptr, Nat(it.k, r[0] if what == "rposition" else r[1]))
    return [(st, some(dty, r[0].len()))]


@R(r"^<(slice::Iter<T>|vec::IntoIter<T>|str::Bytes) as iter::Iterator>::(any|all|position|rposition|find|for_each|fold|try_fold|try_for_each)$")
def n_library_loop(I, st, inst, a, dty, site):
    what = inst.key.split("::")[-1]
    ptr = a[0]
    if not is_slice_iter(I, st, ptr):
        return None
    if not isinstance(ptr, Ptr):
        ptr = Ptr(I.new_cell(st, ptr))
    init, acc_ty = 0, I.prog.usize
    if what in ("position", "rposition"):
        r = look_for(I, st, ptr, what, a[1], dty, site)
        if r is not None:
            return r
    if what in ("any", "all"):
        def step(I, s, env, acc, x):
            r = call_closure(I, s, env[0], [x], boolty(I), site)
            return tested(I, r, lambda s2, b: (s2, int(b == (what == "any")), int(what == "any")))
        fin = lambda acc: int(what == "all")
    elif what == "position":
        def step(I, s, env, acc, x):
            r = call_closure(I, s, env[0], [x], boolty(I), site)
            return tested(I, r, lambda s2, b: (s2, 1, some(dty, acc)) if b else (s2, 0, s2.facts.simp(add(acc, 1))))
        fin = lambda acc: none(dty)
    elif what == "rposition":
        # from the back: the index is what is left in front
        init = I.read(st, ptr).f[0].len()

        def step(I, s, env, acc, x):
            r = call_closure(I, s, env[0], [x], boolty(I), site)
            i = s.facts.simp(add(acc, -1))
            return tested(I, r, lambda s2, b: (s2, 1, some(dty, i)) if b else (s2, 0, i))
        fin = lambda acc: none(dty)
    elif what == "find":
        def step(I, s, env, acc, x):
            r = call_closure(I, s, env[0], [Ref(x)], boolty(I), site)
            return tested(I, r, lambda s2, b: (s2, 1, some(dty, x)) if b else (s2, 0, 0))
        fin = lambda acc: none(dty)
    elif what == "for_each":
        def step(I, s, env, acc, x):
            r = call_closure(I, s, env[0], [x], I.prog.usize, site)
            return [y if y[0] == "panic" else (y[0], 0, 0) for y in r]
        fin = lambda acc: unit(I)
    elif what in ("try_fold", "try_for_each"):
        good, wrap = try_type(dty)
        acc_ty = dty.field_tys(good)[0] if dty.field_tys(good) else unit(I).ty
        init = a[1] if what == "try_fold" else unit(I)

        def step(I, s, env, acc, x):
            out = []
            for y in call_closure(I, s, env[0], [acc, x] if what == "try_fold" else [x], dty, site):
                if y[0] == "panic":
                    out.append(y)
                elif I.variant_of(y[0], y[1]) == good:
                    out.append((y[0], 0, I.field(y[0], y[1], 0, good)))
                else:
                    out.append((y[0], 1, y[1]))
            return out
        fin = lambda acc: Agg(dty, good, [acc])
        env = a[-1]
        if isinstance(env, Agg):
            env = Ptr(I.new_cell(st, env))
        return rets(syn_iter(I, st, what, pull_iter, step, fin, init, acc_ty, [ptr, env], site))
    else:
        init, acc_ty = a[1], dty

        def step(I, s, env, acc, x):
            r = call_closure(I, s, env[0], [acc, x], dty, site)
            return [y if y[0] == "panic" else (y[0], 0, y[1]) for y in r]
        fin = lambda acc: acc
        return rets(syn_iter(I, st, what, pull_iter, step, fin, init, acc_ty, [ptr, a[2]], site))
    env = a[1]
    if isinstance(env, Agg):
        env = Ptr(I.new_cell(st, env))       # FnMut: the closure keeps its state
    return rets(syn_iter(I, st, what, pull_back if what == "rposition" else pull_iter, step, fin, init, acc_ty, [ptr, env], site))


def next_inst(I, ity):
    """The instance of Iterator::next for an iterator type, or None."""
    tab = getattr(I.prog, "_next", None)
    if tab is None:
        tab = I.prog._next = {}
        for i in I.prog.insts.values():
            if isinstance(i, SynInst) or not i.key.endswith("Iterator>::next") and not re.search(r"impl iter::Iterator for .*>::next$", i.key):
                continue
            if i.body is None:
                continue
            t = I.prog.types[i.body["locals"][1]]
            if t.k == "ref" and t.d.get("m"):
                tab.setdefault(t.elem.id, i)
    return tab.get(ity.id)


def pull_any(ity):
    """Next element of any iterator, through its Iterator::next."""
    def pull(I, st, ptr):
        v = I.read(st, ptr)
        if isinstance(v, Nat) and v.k in ("iter", "into_iter"):
            return pull_iter(I, st, ptr)
        p = ptr
        t = ity
        while t.k == "ref" and t.d.get("m"):
            p = I.read(st, p)
            t = t.elem
            if not isinstance(p, Ptr):
                raise Unsupported("iterator behind %r" % (p,))
        inst = next_inst(I, t)
        if inst is None:
            raise Unsupported("no Iterator::next for %s" % t.s)
        out = []
        rty = I.prog.types[inst.body["locals"][0]]
        for r in I.call(inst, [p], st, rty, None):
            if r[0] == "panic":
                raise Unsupported("an iterator panics")
            s, o = r[1], r[2]
            if isinstance(o, T):
                for i in sorted(s.facts.variants(o)):
                    s2 = s.copy()
                    if s2.facts.assume_variant(o, frozenset([i])):
                        if o.ty.variants[i]["n"] == "Some":
                            out.append((s2, 1, sym_field(o, i, 0)))
                        else:
                            out.append((s2, 0, 0))
            elif o.ty.variants[o.v]["n"] == "Some":
                out.append((s, 1, o.f[0]))
            else:
                out.append((s, 0, 0))
        return out
    return pull


def iter_arg_ty(I, inst, k):
    """Type of the k-th parameter."""
    return I.prog.types[inst.body["locals"][k + 1]] if inst.body is not None else None


def feed(I, st, name, it, ity, push, init, acc_ty, env, site, fin=None):
    """Consume an iterator, adding each element to the accumulator."""
    if not isinstance(it, Ptr) or ity.k != "ref":
        it = Ptr(I.new_cell(st, it, ity))

    def step(I, s, e, acc, x):
        return [(s, 0, push(I, s, e, acc, x))]
    return rets(syn_iter(I, st, name, pull_any(ity), step, fin or (lambda acc: acc), init, acc_ty, [it] + env, site))


def seq_add(I, s, acc, x, ety):
    """acc followed by the element x (a character or text for strings)."""
    if ety.k == "char":
        return push_char(I, s, acc, D(I, s, x))
    if ety.k == "str" or is_seq_ty(ety):
        return acc.cat(S(I, s, x))
    return acc.cat(Seq((("lit", (x,)),)))


def item_ty(I, ity):
    t = ity
    while t.k == "ref":
        t = t.elem
    inst = next_inst(I, t)
    if inst is None:
        return None
    rty = I.prog.types[inst.body["locals"][0]]
    return rty.field_tys(rty.variant_index("Some"))[0]


def seq_iter(v):
    """The rest of a sequence iterator whose elements are taken as they are."""
    return v.f[0] if isinstance(v, Nat) and v.k == "into_iter" else None


@R(r"^<vec::Vec<T> as iter::FromIterator<T>>::from_iter$|^<string::String as iter::FromIterator<.*>>::from_iter$"
   r"|^<bytes::BytesMut as iter::FromIterator<.*>>::from_iter$|^<bytes::Bytes as iter::FromIterator<.*>>::from_iter$")
def n_from_iter(I, st, inst, a, dty, site):
    v = a[0]
    ity = iter_arg_ty(I, inst, 0)
    if isinstance(v, Seq) or isinstance(v, Ref):
        return None
    is_vec = inst.key.startswith("<vec")
    if seq_iter(v) is not None and is_vec:
        return [(st, seq_iter(v))]
    if ity is None or item_ty(I, ity) is None:
        return None
    ety = item_ty(I, ity)
    while not is_vec and ety.k == "ref":
        ety = ety.elem
    if not is_vec and ety.k == "uint":
        push = lambda I, s, e, acc, x: acc.cat(Seq((("lit", (D(I, s, x),)),)))
    elif is_vec:
        push = lambda I, s, e, acc, x: acc.cat(Seq((("lit", (x,)),)))
    else:
        push = lambda I, s, e, acc, x: seq_add(I, s, acc, x, ety)
    return feed(I, st, "collect", v, ity, push, Seq(), I.prog.types[inst.body["locals"][0]], [], site)


@R(r"^<vec::Vec<T> as vec::spec_extend::SpecExtend<.*>>::spec_extend$|^vec::Vec::<T>::extend_desugared$|^vec::Vec::<T>::extend_trusted$")
def n_spec_extend(I, st, inst, a, dty, site):
    v = a[1]
    ity = iter_arg_ty(I, inst, 1)
    if isinstance(v, Nat) and v.k in ("into_iter", "iter"):
        # elements by value (or copied from a slice of scalars)
        append(I, st, a[0], v.f[0])
        return [(st, unit(I))]
    if ity is None or item_ty(I, ity) is None:
        return None
    vp = a[0]
    by_ref = "SpecExtend<&T" in inst.key

    def push(I, s, e, acc, x):
        I.write(s, vp, I.read(s, vp).cat(Seq((("lit", (D(I, s, x) if by_ref else x,)),))))
        return 0
    return feed(I, st, "extend", v, ity, push, 0, I.prog.usize, [], site, fin=lambda acc: unit(I))


@R(r"^<string::String as iter::Extend<.*>>::extend$")
def n_string_extend(I, st, inst, a, dty, site):
    ity = iter_arg_ty(I, inst, 1)
    if ity is None or item_ty(I, ity) is None:
        return None
    ety = item_ty(I, ity)
    while ety.k == "ref":
        ety = ety.elem
    vp = a[0]

    def push(I, s, e, acc, x):
        I.write(s, vp, seq_add(I, s, I.read(s, vp), x, ety))
        return 0
    return feed(I, st, "extend", a[1], ity, push, 0, I.prog.usize, [], site, fin=lambda acc: unit(I))


@R(r"^<(slice::Iter<T>|vec::IntoIter<T>|str::Bytes) as iter::Iterator>::(nth|count|last|size_hint|advance_by)$")
def n_iter_jump(I, st, inst, a, dty, site):
    what = inst.key.split("::")[-1]
    it = I.read(st, a[0]) if isinstance(a[0], Ptr) else (a[0].v if isinstance(a[0], Ref) else a[0])
    if not (isinstance(it, Nat) and it.k in ("iter", "into_iter")):
        return None
    s = it.f[0]
    wrap = (lambda v: Ref(v)) if it.k == "iter" else (lambda v: v)
    if what == "count":
        return [(st, s.len())]
    if what == "size_hint":
        oty = dty.field_tys()[1]
        return [(st, Agg(dty, 0, [s.len(), some(oty, s.len())]))]
    if what == "last":
        if not I.decide(st, lt(0, s.len())):
            return [(st, none(dty))]
        return [(st, some(dty, wrap(I.seq_get(st, s, sub(s.len(), 1)))))]
    n = a[1]
    if what == "advance_by":
        if I.decide(st, le(n, s.len())):
            I.write(st, a[0], Nat(it.k, I.seq_split(st, s, n)[1]))
            return [(st, ok(dty, unit(I)))]
        raise Unsupported("advance_by past the end")
    if not I.decide(st, lt(n, s.len())):
        I.write(st, a[0], Nat(it.k, Seq()))
        return [(st, none(dty))]
    v = I.seq_get(st, s, n)
    I.write(st, a[0], Nat(it.k, I.seq_split(st, s, add(n, 1))[1]))
    return [(st, some(dty, wrap(v)))]


@N("slice::<impl [T]>::contains")
def n_slice_contains(I, st, inst, a, dty, site):
    x = D(I, st, a[1])
    if not isinstance(x, (int, T)) or isinstance(x, T) and not (x.ty is None or x.ty.is_int):
        raise Unsupported("contains of %r" % (x,))
    ptr = Ptr(I.new_cell(st, Nat("iter", S(I, st, a[0]))))

    def step(I, s, env, acc, y):
        return tested(I, [(s, eqi(D(I, s, y), x))], lambda s2, b: (s2, int(b), 1))
    return rets(syn_iter(I, st, "contains", pull_iter, step, lambda acc: 0, 0, I.prog.usize, [ptr], site))


# ---- lazy_static, mem

@N("lazy_static::lazy::Lazy::<T>::get")
def n_lazy(I, st, inst, a, dty, site):
    f = a[1]
    out = []
    for r in I.call(I.prog.insts[f.inst], [], st, None, site):
        if r[0] == "ret":
            out.append((r[1], Ref(r[2])))
        else:
            out.append(r)
    return out


@N("mem::take", "mem::replace")
def n_take(I, st, inst, a, dty, site):
    old = I.read(st, a[0])
    if inst.key == "mem::replace":
        new = a[1]
    elif is_seq_ty(dty):
        new = Seq()
    elif dty.is_adt("std::option::Option"):
        new = none(dty)
    else:
        raise Unsupported("mem::take of %s" % dty.s)
    I.write(st, a[0], new)
    return [(st, old)]


@N("option::Option::<T>::take")
def n_opt_take(I, st, inst, a, dty, site):
    old = I.read(st, a[0])
    I.write(st, a[0], none(dty))
    return [(st, old)]


@N("option::Option::<T>::as_deref")
def n_as_deref(I, st, inst, a, dty, site):
    v = D1(I, st, a[0])
    if I.variant_of(st, v) == 0:
        return [(st, none(dty))]
    x = I.field(st, v, 0)
    return [(st, some(dty, Ref(D(I, st, x))))]


@N("hint::must_use")
def n_must_use(I, st, inst, a, dty, site):
    return [(st, a[0])]


# ---- formatting

@N("fmt::rt::Argument::::new_display", "fmt::rt::Argument::::new_debug", "fmt::rt::Argument::::new_lower_hex", "fmt::rt::Argument::::new_upper_hex")
def n_new_arg(I, st, inst, a, dty, site):
    tr = {"new_display": "Display", "new_debug": "Debug"}.get(inst.key.split("::")[-1], "Hex")
    ty = None
    for x in inst.args:
        if x is not None:
            ty = I.prog.types[x]
    return [(st, Nat("fmtarg", tr, ty, a[0]))]


@N("fmt::Arguments::::new")
def n_args_new(I, st, inst, a, dty, site):
    t = S(I, st, a[0]).lits()
    args = S(I, st, a[1]).lits()
    return [(st, Nat("fmtargs", parse_template(t, args)))]


@N("fmt::Arguments::::from_str", "fmt::Arguments::::from_str_nonconst")
def n_args_str(I, st, inst, a, dty, site):
    return [(st, Nat("fmtargs", (("lit", bytes(S(I, st, a[0]).lits())),)))]


def fmt_ok(I, dty):
    if dty is None:
        for t in I.prog.types.values():
            if t.is_adt("std::result::Result") and t.field_tys(0)[0].k == "tuple" and "fmt::Error" in t.s:
                dty = t
                break
    return ok(dty, unit(I))


@N("fmt::Formatter::::write_str", "<string::String as fmt::Write>::write_str")
def n_write_str(I, st, inst, a, dty, site):
    sink = fmt_sink(I, st, a[0])
    I.write(st, sink, I.read(st, sink).cat(S(I, st, a[1])))
    return [(st, fmt_ok(I, dty))]


@N("<fmt::Formatter as fmt::Write>::write_char", "<string::String as fmt::Write>::write_char")
def n_write_char(I, st, inst, a, dty, site):
    sink = fmt_sink(I, st, a[0])
    I.write(st, sink, push_char(I, st, I.read(st, sink), a[1]))
    return [(st, fmt_ok(I, dty))]


TAB["<fmt::Formatter as fmt::Write>::write_str"] = n_write_str


def fmt_sink(I, st, f):
    v = I.read(st, f)
    if isinstance(v, Nat) and v.k == "fmtr":
        return v.f[0]
    if isinstance(v, Seq):
        return f
    raise Unsupported("formatter %r" % (v,))


@N("fmt::Formatter::::write_fmt", "fmt::Write::write_fmt")
def n_write_fmt(I, st, inst, a, dty, site):
    sink = fmt_sink(I, st, a[0])
    return [(s, fmt_ok(I, dty)) for s in run_template(I, st, a[1], sink)]


@R(r"^fmt::Formatter::::pad$|^<str as fmt::Display>::fmt$|^<string::String as fmt::Display>::fmt$")
def n_pad(I, st, inst, a, dty, site):
    if inst.key.endswith("pad"):
        f, s = a[0], a[1]
    else:
        f, s = a[1], a[0]
    sink = fmt_sink(I, st, f)
    I.write(st, sink, I.read(st, sink).cat(S(I, st, s)))
    return [(st, fmt_ok(I, dty))]


@N("<&T as fmt::Display>::fmt", "fmt::impls::<impl fmt::Display for &T>::fmt")
def n_ref_display(I, st, inst, a, dty, site):
    ty = I.prog.types[inst.args[-1]] if inst.args and inst.args[-1] is not None else None
    sink = fmt_sink(I, st, a[1])
    return [(s, fmt_ok(I, dty)) for s in fmt_value(I, st, "Display", ty, D1(I, st, a[0]), sink)]


@N("fmt::format", "fmt::format::format_inner")
def n_format(I, st, inst, a, dty, site):
    c = Ptr(I.new_cell(st, Seq()))
    return [(s, I.read(s, c)) for s in run_template(I, st, a[0], c)]


@N("<T as string::ToString>::to_string")
def n_to_string(I, st, inst, a, dty, site):
    ty = I.prog.types[inst.args[0]]
    c = Ptr(I.new_cell(st, Seq()))
    return [(s, I.read(s, c)) for s in fmt_value(I, st, "Display", ty, a[0], c)]


@R(r"^fmt::Formatter::::debug_")
def n_debug(I, st, inst, a, dty, site):
    return [(st, fmt_ok(I, dty))]


# ---- panics

@R(r"^panicking::(panic|panic_fmt|panic_nounwind|panic_nounwind_fmt|panic_explicit|panic_display|assert_failed|unreachable_display|panic_str_2015|panic_bounds_check)$|^option::(unwrap_failed|expect_failed)$"
   r"|^result::unwrap_failed$|slice::index::slice_.*fail|str::slice_error_fail|^panicking::const_panic_fmt|^rt::(panic_fmt|begin_panic)|^panicking::panic_const::|begin_panic")
def n_panic(I, st, inst, a, dty, site):
    return [panic(st, inst, "panic", site)]


@R(r"precondition_check$")
def n_precond(I, st, inst, a, dty, site):
    return [(st, unit(I))]


# ---- integer helpers

@R(r"^num::<impl [ui]\w+>::(checked|wrapping|saturating|overflowing)_(add|sub|mul)$")
def n_int_op(I, st, inst, a, dty, site):
    m = re.search(r"impl (\w+)>::(\w+)_(\w+)$", inst.key)
    ity = I.prog.by_s.get(m.group(1))
    if ity is None:
        raise Unsupported(inst.key)
    lo, hi = ity.int_range()
    x, y = I.cond_int(st, a[0]), I.cond_int(st, a[1])
    if m.group(3) == "add":
        r = add(x, y)
    elif m.group(3) == "sub":
        r = sub(x, y)
    elif isinstance(x, int):
        r = scale(y, x)
    elif isinstance(y, int):
        r = scale(x, y)
    else:
        raise Unsupported("mul")
    r = st.facts.simp(r)
    fits = I.decide(st, ge0(sub(r, lo))) and I.decide(st, ge0(sub(hi, r)))
    k = m.group(2)
    if k == "checked":
        return [(st, some(dty, r) if fits else none(dty))]
    if k == "overflowing":
        return [(st, Agg(dty, 0, [r if fits else I.wrap(st, r, ity), 0 if fits else 1]))]
    if fits:
        return [(st, r)]
    if k == "saturating":
        return [(st, hi if I.decide(st, ge0(sub(r, hi))) else lo)]
    return [(st, I.wrap(st, r, ity))]


@R(r"^num::<impl [ui]\w+>::(is_power_of_two|next_multiple_of|checked_next_multiple_of)$")
def n_int_misc(I, st, inst, a, dty, site):
    k = inst.key.split("::")[-1]
    if k == "is_power_of_two" and isinstance(a[0], int):
        return [(st, int(a[0] > 0 and a[0] & (a[0] - 1) == 0))]
    if k.endswith("next_multiple_of") and isinstance(a[1], int) and a[1] in (1, 2, 4, 8):
        r = I.residue(st, a[0], a[1])
        v = a[0] if r == 0 else add(a[0], a[1] - r)
        if k.startswith("checked"):
            fits = I.decide(st, ge0(sub((1 << 64) - 1, v)))
            return [(st, some(dty, v) if fits else none(dty))]
        return [(st, v)]
    raise Unsupported(inst.key)


@N("cmp::max", "cmp::Ord::max", "cmp::min", "cmp::Ord::min")
def n_max(I, st, inst, a, dty, site):
    k = inst.key.endswith("max")
    if all(isinstance(x, (int, T)) and not (isinstance(x, T) and x.ty is not None and x.ty.k == "adt") for x in a):
        if I.decide(st, le(a[0], a[1])):
            return [(st, a[1] if k else a[0])]
        return [(st, a[0] if k else a[1])]
    # Option<int>: None < Some(x)
    va, vb = I.variant_of(st, a[0]), I.variant_of(st, a[1])
    if va != vb:
        big = a[0] if va > vb else a[1]
        sml = a[1] if va > vb else a[0]
        return [(st, big if k else sml)]
    if va == 0:
        return [(st, a[0])]
    x, y = I.field(st, a[0], 0), I.field(st, a[1], 0)
    if I.decide(st, le(x, y)):
        return [(st, a[1] if k else a[0])]
    return [(st, a[0] if k else a[1])]


@N("option::Option::<T>::is_some", "option::Option::<T>::is_none")
def n_is_some(I, st, inst, a, dty, site):
    v = D1(I, st, a[0])
    w = int(inst.key.endswith("is_some"))
    if isinstance(v, T):
        vs = st.facts.variants(v)
        if len(vs) == 1:
            return [(st, int(next(iter(vs)) == w))]
        return [(st, mk("b", ("is", v, w), boolty(I)))]
    return [(st, int(v.v == w))]


# ---- intrinsics

def i_zero(I, st, inst, a, dty, site):
    return [(st, 0)]


INTR = {
    "cold_path": n_unit,
    "assert_inhabited": n_unit,
}


def i_simple(I, st, inst, a, dty, site):
    k = inst.intr
    if k in ("unchecked_add", "wrapping_add", "unchecked_sub", "wrapping_sub", "unchecked_mul", "wrapping_mul"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[k.split("_")[1]]
        return [(st, I.arith(st, op + ("Unchecked" if k.startswith("unchecked") else ""), a[0], a[1], dty))]
    if k in ("likely", "unlikely", "black_box"):
        return [(st, a[0])]
    if k == "bswap":
        return [(st, words.bswap(I, st, a[0], words.width(dty), dty))]
    if k in ("saturating_add", "saturating_sub"):
        lo, hi = dty.int_range()
        r = st.facts.simp((add if k.endswith("add") else sub)(I.cond_int(st, a[0]), I.cond_int(st, a[1])))
        if not I.decide(st, ge0(sub(r, lo))):
            return [(st, lo)]
        return [(st, r if I.decide(st, ge0(sub(hi, r))) else hi)]
    raise Unsupported("intrinsic %s" % k)


for _k in ("unchecked_add", "wrapping_add", "unchecked_sub", "wrapping_sub", "unchecked_mul", "wrapping_mul", "likely", "unlikely", "black_box", "bswap",
           "saturating_add", "saturating_sub"):
    INTR[_k] = i_simple
