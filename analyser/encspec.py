"""Specification of the D-Bus wire format (encoding side)."""
from decspec import *
import words

TYPE_CODES = {"Byte": "y", "Boolean": "b", "Int16": "n", "Uint16": "q", "Int32": "i", "Uint32": "u", "Int64": "x",
              "Uint64": "t", "Double": "d", "String": "s", "ObjectPath": "o", "Signature": "g", "UnixFD": "h",
              "Variant": "v"}
PATCH = 4


class Enc:
    """Writer state of the spec: `base` bytes written before, then `out`."""

    def __init__(self, s, prog, base, fds, out=None):
        self.s = s
        self.prog = prog
        self.base = base        # length written before
        self.out = out if out is not None else Seq()
        self.fds = fds

    def pos(self):
        return self.s.facts.simp(add(self.base, self.out.len()))

    def put(self, seq):
        self.out = self.out.cat(seq)

    def align(self, a):
        r = self.s.mod(self.pos(), a)
        if r:
            self.put(bytes_seq([0] * (a - r)))

    def num(self, w, le_, v):
        self.align(w)
        self.put(Seq((words.stored(w, "le" if self.s.br(le_) else "be", v),)))

    def byte(self, v):
        self.put(Seq((("lit", (v,)),)))

    def text(self, b, le_):
        self.num(4, le_, b.len())
        self.put(b)
        self.byte(0)

    def signature(self, types):
        s = self.s
        s.require(sigstr_ok(s.I, types), "the list of types has no signature")
        t = sigstr(s.I, types)
        s.facts.assume(le(t.len(), 255), True)
        self.byte(t.len())
        self.put(t)
        self.byte(0)

    def suppose(self):
        """A successful outcome of a call the code has not made."""
        I, s = self.s.I, self.s
        s.nsupposed += 1            # the same in every evaluation of the path
        g = growth("supposed-enc", I, s, I.prog.by_s["[u8]"], 1, s.nsupposed)
        rty = next(t for t in I.prog.types.values() if t.k == "adt" and t.d["name"].endswith("result::Result")
                   and t.field_tys(0)[0].k == "tuple" and not t.field_tys(0)[0].d["f"])
        return g, growth("supposed-fds", I, s, I.prog.by_s["[i32]"], 0, s.nsupposed), Agg(rty, rty.variant_index("Ok"), [unit(I)])

    def value_call(self, v, le_, ty=None):
        s = self.s
        e = s.peek()
        g, h, r = s.call("encode", ("the position", None), ("the descriptors", self.fds), ("the value", v),
                         ("the byte order", le_), hyp=self.suppose)
        p = e[2][0] if e is not None else self.pos()
        if ty is not None and not s.same(p, self.pos()):
            # (the zeros before the value may have been written already)
            self.align(align_of(s, ty))
        if not s.same(p, self.pos()) and s.mod(p, 8) != s.mod(self.pos(), 8):
            raise Mismatch("a value is encoded at another alignment than its final one")
        if not is_ok(r):
            raise SpecErr("an inner value cannot be encoded")
        self.put(g)
        self.fds = self.fds.cat(h)

    def values_loop(self, values, le_, name):
        s = self.s
        base = self.pos()

        def body(s2, lv):
            if not s2.br(lt(lv.idx, values.len())):
                return ("done", lv)
            e = Enc(s2, self.prog, base, lv.seqs["descriptors"], lv.grow)
            e.value_call(s2.I.seq_get(s2.st, values, lv.idx), le_)
            return ("next", lv.but(grow=e.out, seqs={"descriptors": e.fds}, idx=add(lv.idx, 1)))
        r = s.loop(LoopVars(grow=Seq(), seqs={"descriptors": self.fds}, idx=0), body, name)
        self.put(r[1].grow)
        self.fds = r[1].seqs["descriptors"]

    def array(self, elem, values, le_):
        s = self.s
        self.align(4)
        at = self.pos()
        # where the elements start, relative to the length
        e = Enc(s, self.prog, add(at, PATCH), self.fds)
        e.align(align_of(s, elem))
        pad = e.out
        e2 = Enc(s, self.prog, e.pos(), self.fds)
        e2.values_loop(values, le_, "array")
        n = s.facts.simp(e2.out.len())
        s.require(le(n, MAX_ARRAY), "the array is longer than 64 MiB")
        self.put(Seq((("num", 4, "le" if s.br(le_) else "be", n),)))
        self.put(pad)
        self.put(e2.out)
        self.fds = e2.fds

    def value(self, v, le_):
        s = self.s
        k = s.variant(v)
        f = s.field(v, 0)
        if k == "Byte":
            return self.byte(f)
        if k == "Boolean":
            return self.num(4, le_, 1 if s.br(f) else 0)
        if k in SCALARS:
            return self.num(SCALARS[k][0], le_, f)
        if k in ("String", "ObjectPath"):
            return self.text(seq_of(f), le_)
        if k == "Signature":
            return self.signature(seq_of(f))
        if k == "Array":
            a = fields_of(deref(f))
            return self.array(a["type_"] if "type_" in a else one_of(a, "Type"),
                              seq_of(a["array"] if "array" in a else one_of(a, "Vec")), le_)
        if k == "Struct":
            self.align(8)
            return self.values_loop(seq_of(f), le_, "struct")
        if k == "DictEntry":
            self.align(8)
            p = deref(f)
            self.value_call(s.field(p, 0), le_)
            return self.value_call(s.field(p, 1), le_)
        if k == "Variant":
            inner = deref(f)
            c, t = vtype(s.I, inner, the_adt(self.prog, "Type"))
            s.require(c, "the value of the variant has no type")
            self.signature(bytes_seq([t]))
            return self.value_call(inner, le_, t)
        raise Undecided("unknown value variant %s" % k)


class MsgEnc:
    """The bytes of a whole message."""

    def __init__(self, s, prog, msg):
        self.s = s
        self.prog = prog
        m = fields_of(msg)
        self.header = fields_of(m["header"])
        self.body = seq_of(m["body"])

    def encode_body(self, le_):
        """-> (bytes, descriptors, signature text)."""
        s = self.s

        def body(s2, lv):
            if not s2.br(lt(lv.idx, self.body.len())):
                return ("done", lv)
            v = s2.I.seq_get(s2.st, self.body, lv.idx)
            c, t = vsig(s2.I, v)
            s2.facts.assume(le(1, t.len()), True)
            s2.require(c, "a value has no signature")
            sig = lv.seqs["signature"]
            s2.require(le(add(sig.len(), t.len()), 255), "the signature is longer than 255 bytes")
            e = Enc(s2, self.prog, 0, lv.seqs["descriptors"], lv.seqs["body"])
            e.value_call(v, le_)
            return ("next", lv.but(seqs={"signature": sig.cat(t), "body": e.out, "descriptors": e.fds},
                                   idx=add(lv.idx, 1)))
        r = s.loop(LoopVars(idx=0, seqs={"signature": Seq(), "body": Seq(), "descriptors": Seq()}), body, "body")
        q = r[1].seqs
        return q["body"], q["descriptors"], q["signature"]

    def encode(self):
        s, p, h = self.s, self.prog, self.header
        le_ = h["is_le"]
        out, fds, sig = self.encode_body(le_)
        s.require(le(out.len(), MAX_MESSAGE), "the body is longer than 128 MiB")
        fields = fields_of(h["fields"])
        fty = h["fields"].ty
        sty, uty = option_of(fty, "signature"), option_of(fty, "unix_fds")
        if s.br(eqi(out.len(), 0)):
            # nothing but values without bytes: there are none
            s.require(eqi(sig.len(), 0), "a body without bytes has a signature")
            fields["signature"] = Agg(sty, sty.variant_index("None"), ())
        else:
            if s.br(eqi(sig.len(), 0)):
                raise SpecErr("a body without signature")
            s.require(valid(s.I, "sig", sig), "the body has no signature")
            ts = sty.field_tys(sty.variant_index("Some"))[0]
            types = mk_sym(mk("typesof", (reify(sig),), ts), ts)
            fields["signature"] = Agg(sty, sty.variant_index("Some"), [types])
        if s.br(eqi(fds.len(), 0)):
            fields["unix_fds"] = Agg(uty, uty.variant_index("None"), ())
        else:
            fields["unix_fds"] = Agg(uty, uty.variant_index("Some"), [fds.len()])
        e = Enc(s, p, 0, fds)
        e.byte(0x6c if s.br(le_) else 0x42)
        e.byte(MESSAGE_TYPES[s.variant(h["message_type"])])
        e.byte(s.I.scalar(s.st, seqless(h["message_flags"])))
        e.byte(h["version"])
        e.num(4, le_, out.len())
        e.num(4, le_, h["serial"])
        g, = s.call("fieldvec", ("the header fields", Agg(fty, 0, [fields[n] for n in fty.field_names(0)])),
                    hyp=lambda: (growth("supposed-fieldvec", s.I, s, value_slice_ty(s.I), 0, 0),), pure=True)
        T_ = the_adt(p, "Type")
        kind = lambda n: Agg(T_, T_.variant_index(n), ())
        pair = Agg(T_, T_.variant_index("Struct"), [bytes_seq([kind("Byte"), kind("Variant")])])
        e.array(pair, g, le_)
        e.align(8)
        e.put(out)
        s.require(le(e.out.len(), MAX_MESSAGE), "the message is longer than 128 MiB")
        return e.out, e.fds


def option_of(ty, name):
    return ty.field_tys(0)[ty.field_names(0).index(name)]


def seqless(v):
    """The number inside a one-field wrapper."""
    while not isinstance(v, int):
        if isinstance(v, Agg) and len(v.f) == 1:
            v = v.f[0]
        elif isinstance(v, T) and v.ty is not None and v.ty.k == "adt":
            v = expand(v).f[0]
        else:
            break
    return v


def fields_of(v):
    v = expand(v) if isinstance(v, T) else v
    return dict(zip(v.ty.field_names(0), v.f))


def one_of(d, what):
    raise Undecided("the fields of the array value are not known")
