"""Contracts that replace re-entrant (recursive) functions and verified
sub-functions while their callers are analysed."""
from common import *


def ret_ty(I, inst):
    return I.prog.types[inst.body["locals"][0]]


def recursion_cut(I, st, inst, a, dty, site):
    raise Unsupported("unexpected recursion of %s" % inst.short())


def fld(ptr, i):
    return Ptr(ptr.cell, ptr.path + (("f", i),))


SHAPES = {"Decoder": {"buf": r"^&.*\[u8\]$|Bytes$", "offset": r"^usize$", "fds": r"^&.*\[i32\]$", "offset_fds": r"Option<usize>$"},
          "Encoder": {"buf": r"BytesMut$|Vec<u8>$", "fds": r"Vec<i32>$"}}


class DecLayout:
    """Field indices of the decoder / encoder state, by type."""

    def __init__(self, prog, name):
        self.ty = the_adt(prog, name)
        if self.ty is None:
            raise KeyError(name)
        names = self.ty.field_names(0)
        self.ix = {n: i for i, n in enumerate(names)}
        tys = self.ty.field_tys(0)
        for n, rx in SHAPES[name].items():
            if n not in self.ix:
                c = [i for i, t in enumerate(tys) if re.search(rx, t.s)]
                if len(c) == 1:
                    self.ix[n] = c[0]


def fork_result(I, st, rty, ok_val, ok_state, err_state, tag):
    """Two successors: Ok(ok_val) and Err(fresh)."""
    s1 = st
    s2 = st.copy()
    out = []
    ok_state(s1)
    v1 = Agg(rty, rty.variant_index("Ok"), [ok_val])
    out.append((s1, v1))
    ety = rty.field_tys(rty.variant_index("Err"))[0]
    err_state(s2)
    v2 = Agg(rty, rty.variant_index("Err"), [mk_sym(mk("sym", ("err_" + tag, uid()), ety), ety)])
    out.append((s2, v2))
    return out


def deref_seq(v):
    while isinstance(v, (Ref, BoxV)):
        v = v.v
    return v


def dec_cut(name, lay, pre, ok_val, progress):
    """Contract of a decoder method: args (&mut Decoder, ...).

    Ok: the offset advanced by at least `progress` and is within the buffer;
    Err: the offset is arbitrary.  offset_fds is arbitrary in both cases."""
    io, iofd, ibuf = lay.ix["offset"], lay.ix["offset_fds"], lay.ix["buf"]

    def cut(I, st, inst, a, dty, site):
        d = a[0]
        off = I.read(st, fld(d, io))
        ofd = I.read(st, fld(d, iofd))
        n = I.read(st, fld(d, ibuf)).len()
        rty = ret_ty(I, inst)
        ofd_ty = lay.ty.field_tys(0)[iofd]
        v = ok_val(I, st, inst, a, rty)
        args = pre(I, st, a)
        o1 = fresh("off", I.prog.usize)
        fd1 = mk_sym(mk("sym", ("ofd", uid()), ofd_ty), ofd_ty)
        nfds = deref_seq(I.read(st, fld(d, lay.ix["fds"]))).len()

        def okst(s):
            s.facts.assume(le(add(off, progress), o1), True)
            s.facts.assume(le(o1, n), True)
            if ofd_ty.is_enum:
                if not s.facts.assume(lt(sym_field(fd1, ofd_ty.variant_index("Some"), 0), nfds), True):
                    # there are no descriptors
                    I.write(s, fld(d, io), o1)
                    I.write(s, fld(d, iofd), Agg(ofd_ty, ofd_ty.variant_index("None"), ()))
                    return
            I.write(s, fld(d, io), o1)
            I.write(s, fld(d, iofd), fd1)

        def errst(s):
            I.write(s, fld(d, io), fresh("off", I.prog.usize))
            I.write(s, fld(d, iofd), mk_sym(mk("sym", ("ofd", uid()), ofd_ty), ofd_ty))

        out = fork_result(I, st, rty, v, okst, errst, name)
        for s, r in out:
            s.event("call", name, (off, ofd) + args,
                    (I.read(s, fld(d, io)), I.read(s, fld(d, iofd)), r))
        return out
    return cut


def payload(tag, I, inst, rty):
    t = rty.field_tys(rty.variant_index("Ok"))[0]
    return mk_sym(mk("sym", (tag, uid()), t), t)


def cut_value(lay):
    def pre(I, st, a):
        return (a[1], a[2], seq_like(I, st, a[3]))
    return dec_cut("value", lay, pre, lambda I, st, inst, a, rty: payload("val", I, inst, rty), 1)


def cut_array(lay):
    def pre(I, st, a):
        return (a[1], a[2], D(I, st, a[3]))
    return dec_cut("array", lay, pre, lambda I, st, inst, a, rty: payload("arr", I, inst, rty), 4)


def cut_fields(I, st, inst, a, dty, site):
    """Conversion of the decoded array into header fields (C15)."""
    rty = ret_ty(I, inst)
    v = payload("fields", I, inst, rty)
    out = fork_result(I, st, rty, v, lambda s: None, lambda s: None, "fields")
    for s, r in out:
        s.event("call", "fields", (D(I, s, a[0]),), (r,))
    return out


def seq_like(I, st, v):
    return D(I, st, v)


# ---------------------------------------------------------------- validated names

NAME_TYPES = {"Interface": "interface", "Member": "member", "UniqueConnectionName": "unique",
              "WellKnownBusName": "wellknown", "Bus": "bus", "ObjectPath": "path"}
ERROR_NAME = "dbus_message_parser::value::error::Error"


def valid(I, kind, seq):
    return mk("b", ("valid", kind, reify(seq)), boolty(I))


def is_valid_term(c):
    return isinstance(c, T) and c.op == "b" and c.args[0] == "valid"


def utf8_of(c):
    return mk("b", ("utf8", c.args[2]), c.ty)


def text_len(t):
    """Length of a reified text."""
    if isinstance(t, T) and t.op == "seq":
        return Seq(t.args).len() if all(p[0] in ("sub", "num", "lit") for p in t.args) else None
    return None


def _valid_on(f, c, pol):
    if is_valid_term(c) and pol:
        return f.assume(utf8_of(c), True)
    if is_valid_term(c) and c.args[1] == "sig":
        # the empty text is the signature of no values (C02)
        n = text_len(c.args[2])
        if n is not None:
            return f.assume(le(1, n), True)
    if isinstance(c, T) and c.op == "b" and c.args[0] == "utf8" and not pol:
        for x, v in f.bl.items():
            if v and is_valid_term(x) and x.args[2] is c.args[1]:
                return False
    return True


def _valid_derive(f, c):
    if is_valid_term(c) and f.bl.get(utf8_of(c)) is False:
        return False
    if is_valid_term(c) and c.args[1] == "sig":
        n = text_len(c.args[2])
        if n is not None and f.decide(eqi(n, 0)):
            return True
    return None


import core as _core
_core._on.append(_valid_on)
_core._derive.append(_valid_derive)


def name_value(I, ty, kind, seq):
    if kind == "bus":
        return mk_sym(mk("busof", (reify(seq),), ty), ty)
    return Agg(ty, 0, [seq])


def cut_name(kind):
    def cut(I, st, inst, a, dty, site):
        s = S(I, st, a[0])
        lits = s.lits()
        if lits is not None and all(isinstance(x, int) for x in lits):
            return None         # a constant text: interpret the parser itself
        rty = ret_ty(I, inst)
        ty = rty.field_tys(rty.variant_index("Ok"))[0]
        if I.decide(st, valid(I, kind, s)):
            return [(st, Agg(rty, rty.variant_index("Ok"), [name_value(I, ty, kind, s)]))]
        ety = rty.field_tys(rty.variant_index("Err"))[0]
        return [(st, Agg(rty, rty.variant_index("Err"), [mk_sym(mk("nameerr", (kind, reify(s)), ety), ety)]))]
    return cut


def name_cuts(prog):
    """Name validators replaced by their verified predicate (C04, C05)."""
    out = {}
    for i in prog.insts.values():
        if not i.local or i.body is None or not i.name.endswith("::try_from"):
            continue
        rty = prog.types[i.body["locals"][0]]
        if rty.k != "adt" or not rty.d["name"].endswith("result::Result"):
            continue
        t = rty.field_tys(rty.variant_index("Ok"))[0]
        if t.k != "adt":
            continue
        last = t.d["name"].split("::")[-1]
        kind = NAME_TYPES.get(last)
        if last == "Error" and t.d["name"].startswith("dbus_message_parser::value"):
            kind = "error"
        if kind is None or not t.d["name"].startswith("dbus_message_parser::value"):
            continue
        a = prog.types[i.body["locals"][1]]
        while a.k == "ref":
            a = a.elem
        if is_seq_ty(a):
            out[i.id] = (cut_name(kind), True)
    return out


def types_len(f, kind, v, s):
    """A signature of one to 255 bytes names at least one type, each by at least one byte (C02)."""
    if kind == "sig":
        f.assume(le(v.len(), s.len()), True)
        f.assume(le(s.len(), scale(v.len(), 255)), True)


def cut_type(kind):
    def cut(I, st, inst, a, dty, site):
        s = S(I, st, a[0])
        if s.lits() is not None and s.p:
            return None         # a constant text: interpret the parser itself
        rty = ret_ty(I, inst)
        ty = rty.field_tys(rty.variant_index("Ok"))[0]
        if I.decide(st, valid(I, kind, s)):
            v = mk_sym(mk("typesof" if kind == "sig" else "typeof", (reify(s),), ty), ty)
            types_len(st.facts, kind, v, s)
            return [(st, Agg(rty, rty.variant_index("Ok"), [v]))]
        ety = rty.field_tys(rty.variant_index("Err"))[0]
        return [(st, Agg(rty, rty.variant_index("Err"), [mk_sym(mk("typeerr", (kind, reify(s)), ety), ety)]))]
    return cut


def type_cuts(prog):
    """Signature parsers replaced by their verified predicate (C11)."""
    out = {}
    for i in prog.insts.values():
        if not i.local or i.body is None:
            continue
        b = i.body
        if b["argc"] != 1:
            continue
        a = prog.types[b["locals"][1]]
        if not (a.k == "ref" and is_seq_ty(a.elem)):
            continue
        rty = prog.types[b["locals"][0]]
        if rty.k != "adt" or not rty.d["name"].endswith("result::Result"):
            continue
        t = rty.field_tys(rty.variant_index("Ok"))[0]
        if t.k == "adt" and t.d["name"].endswith("value::type_enum::Type"):
            out[i.id] = (cut_type("type"), True)
        elif t.is_adt("std::vec::Vec") and prog.types[t.d["args"][0]].k == "adt" \
                and prog.types[t.d["args"][0]].d["name"].endswith("value::type_enum::Type"):
            out[i.id] = (cut_type("sig"), True)
    return out


# ---------------------------------------------------------------- encoder

def growth(tag, I, st, ty, lo=0, key=None):
    g = mk("sym", (tag, uid() if key is None else key), ty)
    st.facts.assume(le(lo, mk("len", (g,))), True)
    return full(g)


def seq_ty_of(I, inst, s, dflt):
    for p in s.p:
        if p[0] == "sub":
            return p[1].ty
    return I.prog.by_s[dflt]


def cut_enc_value(lay):
    """Encoder::value appends at least one byte (a function of the value, the
    byte order and the position modulo 8) and possibly new descriptors."""
    ib, ifd = lay.ix["buf"], lay.ix["fds"]

    def cut(I, st, inst, a, dty, site):
        e = a[0]
        buf, fds = I.read(st, fld(e, ib)), I.read(st, fld(e, ifd))
        rty = ret_ty(I, inst)
        g = growth("enc", I, st, I.prog.by_s["[u8]"], 1)
        h = growth("fds", I, st, I.prog.by_s["[i32]"])

        def okst(s):
            I.write(s, fld(e, ib), buf.cat(g))
            I.write(s, fld(e, ifd), fds.cat(h))

        def errst(s):
            I.write(s, fld(e, ib), buf.cat(growth("enc", I, s, I.prog.by_s["[u8]"])))
            I.write(s, fld(e, ifd), fds.cat(growth("fds", I, s, I.prog.by_s["[i32]"])))
        out = fork_result(I, st, rty, unit(I), okst, errst, "enc")
        for s, r in out:
            s.event("call", "encode", (buf.len(), fds, D(I, s, a[1]), a[2]), (g, h, r))
        return out
    return cut


def pure_ok(name, v):
    """The predicate 'this partial conversion succeeds'."""
    return mk("b", (name, v))


def sigstr(I, seq):
    """Text of a list of types."""
    return full(mk("sigstr", (reify(seq),), I.prog.by_s["str"]))


def sigstr_ok(I, seq):
    return mk("b", ("sigstr", reify(seq)), boolty(I))


def cut_sig_to_string(I, st, inst, a, dty, site):
    s = S(I, st, a[0])
    rty = ret_ty(I, inst)
    if I.decide(st, sigstr_ok(I, s)):
        v = sigstr(I, s)
        st.facts.assume(le(v.len(), 255), True)
        return [(st, Agg(rty, rty.variant_index("Ok"), [v]))]
    return [(st, err_of(I, rty, "sigstr"))]


def err_of(I, rty, tag):
    ety = rty.field_tys(rty.variant_index("Err"))[0]
    return Agg(rty, rty.variant_index("Err"), [mk_sym(mk("sym", ("err_" + tag, uid()), ety), ety)])


def vtype(I, v, ty):
    """Type of a value; the predicate says whether it has one (depth limits)."""
    k = valkey(I, v)
    return mk("b", ("vtype", k), boolty(I)), mk_sym(mk("vtype", (k,), ty), ty)


def valkey(I, v):
    return reify(deref_seq(v))


def cut_get_type(I, st, inst, a, dty, site):
    rty = ret_ty(I, inst)
    c, t = vtype(I, D(I, st, a[0]), rty.field_tys(rty.variant_index("Ok"))[0])
    if I.decide(st, c):
        return [(st, Agg(rty, rty.variant_index("Ok"), [t]))]
    return [(st, err_of(I, rty, "vtype"))]


def vsig(I, v):
    k = valkey(I, v)
    return mk("b", ("vsig", k), boolty(I)), full(mk("vsig", (k,), I.prog.by_s["str"]))


def cut_to_sig(I, st, inst, a, dty, site):
    """Value::to_signature_string(&self, &mut String, 0, 0, 0)."""
    for x in a[2:]:
        if x != 0:
            raise Unsupported("signature of a value at a depth")
    rty = ret_ty(I, inst)
    c, t = vsig(I, D(I, st, a[0]))
    st.facts.assume(le(1, t.len()), True)
    old = I.read(st, a[1])
    if I.decide(st, c) and I.decide(st, le(add(old.len(), t.len()), 255)):
        I.write(st, a[1], old.cat(t))
        return [(st, Agg(rty, rty.variant_index("Ok"), [unit(I)]))]
    I.write(st, a[1], growth("sigjunk", I, st, I.prog.by_s["str"]))
    return [(st, err_of(I, rty, "vsig"))]


def cut_fieldvec(I, st, inst, a, dty, site):
    g = growth("fieldvec", I, st, value_slice_ty(I))
    st.event("call", "fieldvec", (D(I, st, a[0]),), (g,))
    return [(st, g)]


def value_slice_ty(I):
    for t in I.prog.types.values():
        if t.k == "slice" and t.elem.k == "adt" and t.elem.d["name"].endswith("value_enum::Value"):
            return t
    raise Unsupported("no slice of values")
