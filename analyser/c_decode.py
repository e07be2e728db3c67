"""C07, C09, C12, ...: decoding of values."""
from decspec import *
from par import parallel


def decoder_env(rep):
    prog = rep.prog
    try:
        lay = DecLayout(prog, "Decoder")
    except KeyError:
        rep.private_missing("the Decoder type")
        return None
    for n in ("buf", "offset", "fds", "offset_fds"):
        if n not in lay.ix:
            rep.private_missing("Decoder." + n)
            return None
    return lay


def decode_fn(rep, name):
    r = [i for i in rep.prog.insts.values() if i.local and i.body is not None
         and re.search(r"decode::.*Decoder(<[^>]*>)?>?::%s$" % name, i.key)]
    if not r:
        rep.private_missing("Decoder::" + name)
        return None
    return r[0]


def run_value(rep, lay, cuts, setup):
    inst = decode_fn(rep, "value")
    if inst is None:
        return None
    c = dict(cuts)
    c[inst.id] = (cut_value(lay), False)
    return (inst,) + analyse(rep, inst, cuts=c, setup=setup)


def value_pre(I, st, lay, args):
    """Contract of Decoder::value, checked at its callers through the spec."""
    base = mk("in", ("a0",), I.celltype[args[0].cell])
    fds = deref(sym_field(base, 0, lay.ix["fds"]))
    ofd = sym_field(base, 0, lay.ix["offset_fds"])
    st.facts.assume(le(sym_field(base, 0, lay.ix["offset"]), sym_field(base, 0, lay.ix["buf"]).len()), True)
    if ofd.ty.is_enum:
        st.facts.assume(lt(sym_field(ofd, ofd.ty.variant_index("Some"), 0), fds.len()), True)
    st.facts.assume(le(args[2], MAX_DEPTH), True)


def check_kind(rep, lay, cuts, kind):
    prog = rep.prog
    ob = "decoding a %s follows the wire format" % kind
    tyT = the_adt(prog, "Type")

    def setup(I, st, args):
        ty = deref(args[3])
        st.facts.assume_variant(ty, frozenset([tyT.variant_index(kind)]))
        value_pre(I, st, lay, args)
    try:
        r = run_value(rep, lay, cuts, setup)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    if r is None:
        return
    inst, I, args, rs = r
    dp, le_, depth, ty = args[0], args[1], args[2], deref(args[3])
    st0 = State()
    base = mk("in", ("a0",), I.celltype[dp.cell])
    buf = sym_field(base, 0, lay.ix["buf"])
    off = sym_field(base, 0, lay.ix["offset"])
    ofd = sym_field(base, 0, lay.ix["offset_fds"])
    fds = deref(sym_field(base, 0, lay.ix["fds"]))
    places = {"off": (dp.cell, (("f", lay.ix["offset"]),)), "ofd": (dp.cell, (("f", lay.ix["offset_fds"]),))}

    def spec(s):
        d = Dec(s, prog, buf, off, ofd, fds, places)
        v = d.value(le_, depth, ty)
        return (v, d.off, d.ofd)

    def final(s, st, v):
        if variant_name(v) is None:
            raise Undecided("result %s" % brief(v))
        if not is_ok(v):
            return None
        return (v.f[0], I.read(st, Ptr(*places["off"])), I.read(st, Ptr(*places["ofd"])))
    if Interp.RANK == "loops":
        progress(rep, kind, inst, rs, final, off)
    conform(rep, ob, I, rs, spec, final, "decode:" + kind, "decoding a " + kind,
            ["the value", "the end position", "the highest fd index"])


def progress(rep, kind, inst, rs, final, off):
    """A value takes at least one byte (loops over the elements of an array count on it)."""
    ob = "decoding a %s gets further in the message" % kind
    good = True
    for r in rs:
        if r[0] != "ret":
            continue
        f = r[1].facts.copy()
        try:
            o = final(None, r[1], r[2])
        except Undecided as e:
            rep.unsure(ob, str(e))
            good = False
            continue
        if o is None or f.decide(lt(off, o[1])) is True:
            continue
        good = False
        if f.assume(le(o[1], off), True) and f.settle() and not mentions_op([o[1]], ("phi", "sym")):
            rep.bad("decode:%s:progress" % kind, "%s can give a value that takes no bytes" % inst.short(), ob)
        else:
            rep.unsure(ob, "the end position is %s" % brief(o[1]))
    if good:
        rep.ok(ob)


def check_kinds(rep, kinds):
    lay = decoder_env(rep)
    if lay is None:
        return
    cuts = dict(name_cuts(rep.prog))
    cuts.update(type_cuts(rep.prog))
    rep.rule("for every byte sequence, offset, depth, byte order and descriptor list, each path of Decoder::value for "
             "the type returns the value, the end position and the descriptor count the wire format prescribes, or fails "
             "where it prescribes failure")
    rep.assumptions.append("the recursive calls of Decoder::value obey the same specification (induction over the type)")
    parallel(rep, [(check_kind, lay, cuts, k) for k in kinds])
    rep.floor("kinds", len(kinds), len(kinds))


def check_C07(rep):
    check_kinds(rep, ["Byte", "Boolean", "Int16", "Uint16", "Int32", "Uint32", "Int64", "Uint64", "Double"])


def check_C08(rep):
    check_kinds(rep, ["String", "ObjectPath", "Signature"])


def check_C09(rep):
    check_kinds(rep, ["Array", "Struct", "DictEntry", "Variant"])


def check_C10(rep):
    check_kinds(rep, ["UnixFD"])


def fields_try_from(rep):
    r = [i for i in rep.prog.insts.values() if i.local and i.body is not None and i.name.endswith("::try_from")
         and "Fields as " in i.name and "Vec<" in i.name]
    if not r:
        rep.private_missing("TryFrom<Vec<Value>> for the header fields")
        return None
    return r[0]


def message_cuts(rep, lay):
    v, a, f = decode_fn(rep, "value"), decode_fn(rep, "d_array"), fields_try_from(rep)
    if v is None or a is None or f is None:
        return None
    cuts = dict(name_cuts(rep.prog))
    cuts.update(type_cuts(rep.prog))
    cuts[v.id] = (cut_value(lay), True)
    cuts[a.id] = (cut_array(lay), True)
    cuts[f.id] = (cut_fields, True)
    return cuts


def check_message(rep, lay, rx, with_fds):
    prog = rep.prog
    cuts = message_cuts(rep, lay)
    inst = one(rep, rx, "Message::decode" + ("_with_fds" if with_fds else ""))
    if cuts is None or inst is None:
        return
    ob = "%s follows the message format" % inst.short()
    try:
        I, args, rs = analyse(rep, inst, cuts=cuts)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    buf0 = args[0]
    fds = deref(args[1]) if with_fds else Seq()
    ofd_ty = lay.ty.field_tys(0)[lay.ix["offset_fds"]]
    places = find_state(lay, {"off": "offset", "ofd": "offset_fds"})

    def spec(s):
        b = buf0
        if s.br(lt(MAX_MESSAGE, b.len())):
            b = s.I.seq_slice(s.st, b, 0, MAX_MESSAGE)
        d = Dec(s, prog, b, 0, Agg(ofd_ty, ofd_ty.variant_index("None"), ()), fds, places)
        m = d.message()
        if not with_fds:
            return (m, d.off)
        n = 0
        if s.variant(d.ofd) == "Some":
            n = add(s.field(d.ofd, 0), 1)
        return (m, d.off, n)

    def final(s, st, v):
        if not is_ok(v):
            return None
        return tuple(v.f[0].f)
    conform(rep, ob, I, rs, spec, final, "message:" + ("fds" if with_fds else "plain"), inst.short(),
            ["the message", "the consumed length", "the number of consumed fds"])


def check_C13(rep):
    lay = decoder_env(rep)
    if lay is None:
        return
    rep.rule("for every byte sequence and descriptor list, each path of the message decoders returns the message, the "
             "consumed length and the consumed descriptors the message format prescribes, or fails where it prescribes failure")
    rep.assumptions.append("values, arrays and header fields are decoded as C07-C10 and C15 decide")
    parallel(rep, [(check_message, lay, r"message_struct.*Message.*::decode$", False),
                   (check_message, lay, r"message_struct.*Message.*::decode_with_fds$", True)])
