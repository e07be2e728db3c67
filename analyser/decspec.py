"""Specification of the D-Bus wire format (decoding side), written against the
abstract domain: what each byte layout means, independently of the code."""
from contracts import *
from spec import *

MAX_ARRAY = 1 << 26
MAX_MESSAGE = 1 << 27
MAX_DEPTH = 4
USIZE_MAX = (1 << 64) - 1


def find_state(lay, names):
    """Locations of the reader/writer state: the one cell of that type."""
    def places(st):
        c = [k for k, v in st.mem.items() if isinstance(v, (Agg, T)) and v.ty is lay.ty]
        if len(c) != 1:
            raise Undecided("%d objects of type %s are live in the loop" % (len(c), lay.ty.s))
        return {short: (c[0], (("f", lay.ix[full_]),)) for short, full_ in names.items()}
    return places


class Dec:
    """Reader state of the spec."""

    def __init__(self, s, prog, buf, off, ofd, fds, fld_places=None):
        self.s = s
        self.prog = prog
        self.buf = buf
        self.off = off
        self.ofd = ofd
        self.fds = fds
        self.places = fld_places or {}
        self.value_ty = the_adt(prog, "Value")

    # -- primitive reads
    def read(self, n):
        s = self.s
        s.require(le(add(self.off, n), USIZE_MAX), "the offset overflows")
        s.require(le(add(self.off, n), self.buf.len()), "there are not enough bytes")
        b = s.I.seq_slice(s.st, self.buf, self.off, add(self.off, n))
        self.off = s.facts.simp(add(self.off, n))
        return b

    def align(self, a):
        s = self.s
        r = s.mod(self.off, a)
        if r:
            for x in range(a - r):
                b = self.read(1)
                s.require(eqi(s.I.seq_get(s.st, b, 0), 0), "a padding byte is not zero")

    def num(self, w, le_, ty):
        self.align(w)
        b = self.read(w)
        v, _ = read_num(self.s.I, self.s.st, b, w, "le" if self.s.br(le_) else "be", ty)
        return v

    def u8(self):
        return self.num(1, 1, self.prog.u8)

    def u32(self, le_):
        return self.num(4, le_, self.prog.by_s["u32"])

    def nul(self):
        self.s.require(eqi(self.u8(), 0), "the terminating byte is not NUL")

    def text32(self, le_):
        n = self.u32(le_)
        b = self.read(n)
        self.nul()
        return b

    def text8(self):
        n = self.u8()
        b = self.read(n)
        self.nul()
        return b

    def val(self, variant, *f):
        i = self.value_ty.variant_index(variant)
        return Agg(self.value_ty, i, f)

    # -- calls
    def suppose(self, what, end=None):
        """A successful outcome of a call the code has not made (up to `end`)."""
        s, p = self.s, self.prog
        name = {"value": r"value_enum::Value$", "array": r"::Array$", "fields": r"HeaderFields$"}[what]
        for rty in p.types.values():
            if rty.k == "adt" and rty.d["name"].endswith("result::Result"):
                t, e = rty.field_tys(0)[0], rty.field_tys(1)[0]
                if t.k == "adt" and re.search(name, t.d["name"]) and e.k == "adt" and "Decode" in e.s:
                    break
        else:
            raise Undecided("no type for the outcome of " + what)
        # the same in every evaluation of the path
        s.nsupposed += 1
        nr = s.nsupposed
        r = Agg(rty, rty.variant_index("Ok"), [mk_sym(mk("sym", ("supposed", nr), t), t)])
        if what == "fields":
            return (r,)
        if end is not None:
            ty = self.ofd.ty
            return end, mk_sym(mk("sym", ("supposed-ofd", nr), ty), ty), r
        off = mk("sym", ("supposed-off", nr), p.usize)
        s.facts.assume(le(add(self.off, 1 if what == "value" else 4), off), True)
        s.facts.assume(le(off, self.buf.len()), True)
        ty = self.ofd.ty
        return off, mk_sym(mk("sym", ("supposed-ofd", nr), ty), ty), r

    def value_call(self, le_, depth, ty, end=None):
        off, ofd, r = self.s.call("value", ("the offset", self.off), ("the highest fd index", self.ofd),
                                  ("the byte order", le_), ("the nesting depth", depth), ("the type", ty),
                                  hyp=lambda: self.suppose("value", end))
        if not is_ok(r):
            raise SpecErr("an inner value is malformed")
        self.off, self.ofd = off, ofd
        return r.f[0]

    # -- composite
    def values_loop(self, le_, depth, types, name):
        """One value per type, in order."""
        s = self.s

        def body(s2, lv):
            if not s2.br(lt(lv.idx, types.len())):
                return ("done", lv)
            d = self.at(s2, lv)
            v = d.value_call(le_, depth, s2.I.seq_get(s2.st, types, lv.idx))
            return ("next", lv.but(acc=lv.acc.push(v), idx=add(lv.idx, 1), off=d.off, ofd=d.ofd))
        lv = LoopVars(self.places, acc=Seq(), idx=0, off=self.off, ofd=self.ofd)
        r = s.loop(lv, body, name)
        self.off, self.ofd = r[1].off, r[1].ofd
        return r[1].acc

    def at(self, s2, lv):
        return Dec(s2, self.prog, self.buf, lv.off, lv.ofd, self.fds, self.places)

    def array(self, le_, depth, elem):
        s = self.s
        n = self.u32(le_)
        s.require(le(n, MAX_ARRAY), "the array is longer than 64 MiB")
        self.align(align_of(s, elem))
        s.require(le(add(self.off, n), USIZE_MAX), "the offset overflows")
        end = add(self.off, n)

        def body(s2, lv):
            if not s2.br(lt(lv.off, end)):
                return ("done", lv)
            d = self.at(s2, lv)
            v = d.value_call(le_, depth, elem, end)
            return ("next", lv.but(acc=lv.acc.push(v), off=d.off, ofd=d.ofd))
        r = s.loop(LoopVars(self.places, acc=Seq(), off=self.off, ofd=self.ofd), body, "array")
        self.off, self.ofd = r[1].off, r[1].ofd
        s.require(eqi(self.off, end), "the elements do not fill the array exactly")
        return r[1].acc

    def variant(self, le_, depth):
        s = self.s
        s.require(lt(depth, MAX_DEPTH), "variants are nested too deep")
        b = self.text8()
        k = valid(s.I, "type", b)
        s.require(k, "the signature is not a single complete type")
        t = the_adt(self.prog, "Type")
        ty = mk_sym(mk("typeof", (reify(b),), t), t)
        v = self.value_call(le_, add(depth, 1), ty)
        return self.val("Variant", BoxV(v))

    def value(self, le_, depth, ty):
        s = self.s
        p = self.prog
        k = s.variant(ty)
        if k == "Byte":
            return self.val(k, self.u8())
        if k == "Boolean":
            n = self.u32(le_)
            if s.br(eqi(n, 0)):
                return self.val(k, 0)
            s.require(eqi(n, 1), "the boolean is neither 0 nor 1")
            return self.val(k, 1)
        if k in SCALARS:
            w, prim = SCALARS[k]
            return self.val(k, self.num(w, le_, p.by_s[prim]))
        if k == "UnixFD":
            i = self.u32(le_)
            s.require(lt(i, self.fds.len()), "there is no such file descriptor")
            # highest index used so far
            if s.variant(self.ofd) == "None" or s.br(le(s.field(self.ofd, 0), i)):
                self.ofd = Agg(self.ofd.ty, self.ofd.ty.variant_index("Some"), [i])
            return self.val(k, s.I.seq_get(s.st, self.fds, i))
        if k == "String":
            b = self.text32(le_)
            s.require(mk("b", ("utf8", reify(b)), boolty(s.I)), "the string is not UTF-8")
            return self.val(k, b)
        if k == "ObjectPath":
            b = self.text32(le_)
            s.require(valid(s.I, "path", b), "the object path is malformed")
            return self.val(k, Agg(the_adt(p, "ObjectPath"), 0, [b]))
        if k == "Signature":
            b = self.text8()
            s.require(valid(s.I, "sig", b), "the signature is malformed")
            vt = self.value_ty.field_tys(self.value_ty.variant_index("Signature"))[0]
            return self.val(k, mk_sym(mk("typesof", (reify(b),), vt), vt))
        if k == "Variant":
            return self.variant(le_, depth)
        if k == "Array":
            elem = deref(s.field(ty, 0))
            acc = self.array(le_, depth, elem)
            at = the_adt(p, "Array")
            return self.val(k, struct_by_names(at, array=acc, type_=elem))
        if k == "Struct":
            types = deref(s.field(ty, 0))
            self.align(8)
            acc = self.values_loop(le_, depth, types, "struct")
            s.require(lt(0, acc.len()), "the struct has no field")
            return self.val(k, Agg(the_adt(p, "Struct"), 0, [acc]))
        if k == "DictEntry":
            self.align(8)
            pair = deref(s.field(ty, 0))
            key = self.value_call(le_, depth, s.field(pair, 0))
            val = self.value_call(le_, depth, s.field(pair, 1))
            vt = self.value_ty.field_tys(self.value_ty.variant_index(k))[0]
            tup = p.types[vt.d["args"][0]]
            return self.val(k, BoxV(Agg(tup, 0, [key, val])))
        raise Undecided("unknown type variant %s" % k)

    # -- messages
    def header_fields(self, le_):
        """The array of (code, value) pairs, turned into header fields."""
        s, p = self.s, self.prog
        T_ = the_adt(p, "Type")
        kind = lambda n: Agg(T_, T_.variant_index(n), ())
        pair = Agg(T_, T_.variant_index("Struct"), [bytes_seq([kind("Byte"), kind("Variant")])])
        off, ofd, r = s.call("array", ("the offset", self.off), ("the highest fd index", self.ofd),
                             ("the byte order", le_), ("the nesting depth", 0), ("the element type", pair),
                             hyp=lambda: self.suppose("array"))
        if not is_ok(r):
            raise SpecErr("the header field array is malformed")
        self.off, self.ofd = off, ofd
        r2, = s.call("fields", ("the header field array", r.f[0]), hyp=lambda: self.suppose("fields"), pure=True)
        if not is_ok(r2):
            raise SpecErr("the header fields are malformed")
        return r2.f[0]

    def header(self):
        """-> (header value, None | (body length, body types))"""
        s, p = self.s, self.prog
        b = self.u8()
        if s.br(eqi(b, 0x6c)):
            le_ = 1
        else:
            s.require(eqi(b, 0x42), "the byte order mark is neither 'l' nor 'B'")
            le_ = 0
        t = self.u8()
        mt = the_adt(p, "MessageType")
        kind = None
        for n, code in MESSAGE_TYPES.items():
            if s.br(eqi(t, code)):
                kind = n
                break
        if kind is None:
            raise SpecErr("the message type is unknown")
        fl = self.u8()
        s.require(le(fl, 7), "an undefined flag is set")
        version = self.u8()
        body_len = self.u32(le_)
        serial = self.u32(le_)
        fields = self.header_fields(le_)
        fty = fields.ty
        names = fty.field_names(0)
        fs = dict(zip(names, expand(fields).f if isinstance(fields, T) else fields.f))
        for need in REQUIRED[kind]:
            if s.variant(fs[need]) == "None":
                raise SpecErr("a %s message has no %s" % (kind, need))
        sig = fs["signature"]
        fs["signature"] = Agg(sig.ty, sig.ty.variant_index("None"), ())
        hty = the_adt(p, "header_struct::Header")
        header = struct_by_names(hty, is_le=le_, message_type=Agg(mt, mt.variant_index(kind), ()),
                                 message_flags=Agg(the_adt(p, "MessageFlags"), 0, [fl]), version=version,
                                 serial=serial, fields=Agg(fty, 0, [fs[n] for n in names]))
        has_sig = s.variant(sig) == "Some"
        types = deref(s.field(sig, 0)) if has_sig else None
        if s.br(eqi(body_len, 0)):
            if has_sig:
                s.require(eqi(types.len(), 0), "the body is empty but the signature is not")
            return le_, header, None
        if not has_sig:
            raise SpecErr("there is a body but no signature")
        return le_, header, (body_len, types)

    def message(self):
        s, p = self.s, self.prog
        le_, header, body = self.header()
        self.align(8)
        if body is None:
            vals = Seq()
        else:
            s.require(le(add(self.off, body[0]), USIZE_MAX), "the offset overflows")
            end = add(self.off, body[0])
            vals = self.values_loop(le_, 0, body[1], "body")
            s.require(eqi(self.off, end), "the body does not have the announced length")
        return struct_by_names(the_adt(p, "message_struct::Message"), header=header, body=vals)


MESSAGE_TYPES = {"MethodCall": 1, "MethodReturn": 2, "Error": 3, "Signal": 4}
REQUIRED = {"MethodCall": ("path", "member"), "Signal": ("path", "interface", "member"),
            "Error": ("error_name", "reply_serial"), "MethodReturn": ("reply_serial",)}


SCALARS = {"Int16": (2, "i16"), "Uint16": (2, "u16"), "Int32": (4, "i32"), "Uint32": (4, "u32"),
           "Int64": (8, "i64"), "Uint64": (8, "u64"), "Double": (8, "f64")}

ALIGN = {"Byte": 1, "Boolean": 4, "Int16": 2, "Uint16": 2, "Int32": 4, "Uint32": 4, "UnixFD": 4, "Int64": 8,
         "Uint64": 8, "Double": 8, "String": 4, "ObjectPath": 4, "Signature": 1, "Array": 4, "Struct": 8,
         "DictEntry": 8, "Variant": 1}


def align_of(s, ty):
    return ALIGN[s.variant(ty)]


def deref(v):
    while isinstance(v, (Ref, BoxV)):
        v = v.v
    return v


def struct_by_names(ty, **kw):
    """A struct value from its fields: by name, else in order."""
    names = ty.field_names(0)
    if set(names) == set(kw):
        return Agg(ty, 0, [kw[n] for n in names])
    return Agg(ty, 0, list(kw.values()))
