"""C11, C12, C14: encoding of values and messages."""
from encspec import *
from par import parallel


def encoder_env(rep):
    try:
        lay = DecLayout(rep.prog, "Encoder")
    except (KeyError, AttributeError):
        rep.private_missing("the Encoder type")
        return None
    for n in ("buf", "fds"):
        if n not in lay.ix:
            rep.private_missing("Encoder." + n)
            return None
    return lay


def local_fn(rep, rx, what):
    r = [i for i in rep.prog.insts.values() if i.local and i.body is not None and re.search(rx, i.key)]
    if not r:
        rep.private_missing(what)
        return None
    return r[0]


def encode_cuts(rep, lay, value_always):
    v = local_fn(rep, r"encode::.*Encoder(<[^>]*>)?>?::value$", "Encoder::value")
    s2s = local_fn(rep, r"Type::from_signature_to_string$", "Type::from_signature_to_string")
    gt = local_fn(rep, r"Value::get_type$", "Value::get_type")
    tss = [i for i in rep.prog.insts.values() if i.local and i.body is not None and i.key.endswith("Value::to_signature_string")]
    fv = [i for i in rep.prog.insts.values() if i.local and i.body is not None and "From<" in i.name
          and "Fields> for" in i.name and i.name.endswith("::from")]
    if not fv:
        rep.private_missing("From<HeaderFields> for Vec<Value>")
    if None in (v, s2s, gt) or not fv:
        return None, None
    cuts = dict(type_cuts(rep.prog))
    cuts[v.id] = (cut_enc_value(lay), value_always)
    cuts[s2s.id] = (cut_sig_to_string, True)
    cuts[gt.id] = (cut_get_type, True)
    if tss:
        cuts[tss[0].id] = (cut_to_sig, True)
    cuts[fv[0].id] = (cut_fieldvec, True)
    return v, cuts


def check_kind(rep, lay, kind):
    prog = rep.prog
    inst, cuts = encode_cuts(rep, lay, False)
    if inst is None:
        return
    ob = "encoding a %s follows the wire format" % kind
    tyV = the_adt(prog, "Value")
    ib, ifd = lay.ix["buf"], lay.ix["fds"]

    def setup(I, st, args):
        v = deref(args[1])
        st.facts.assume_variant(v, frozenset([tyV.variant_index(kind)]))
        base = mk("in", ("a0",), I.celltype[args[0].cell])
        st.facts.assume(le(sym_field(base, 0, ifd).len(), MAX_MESSAGE), True)
        if kind in ("String", "ObjectPath"):
            f = seq_of(sym_field(v, tyV.variant_index(kind), 0))
            st.facts.assume(le(f.len(), MAX_MESSAGE), True)
    try:
        I, args, rs = analyse(rep, inst, cuts=cuts, setup=setup)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    v, le_ = deref(args[1]), args[2]
    base = mk("in", ("a0",), I.celltype[args[0].cell])
    buf, fds = sym_field(base, 0, ib), sym_field(base, 0, ifd)
    ptr = args[0]

    def spec(s):
        e = Enc(s, prog, buf.len(), fds)
        if kind == "UnixFD":
            unix_fd(s, e, s.field(v, 0), le_, I, ptr, lay, s.code_state)
        else:
            e.value(v, le_)
        return (buf.cat(e.out), e.fds)

    def final(s, st, r):
        if not is_ok(r):
            return None
        return (I.read(st, fld(ptr, ib)), I.read(st, fld(ptr, ifd)))
    conform(rep, ob, I, rs, spec, final, "encode:" + kind, "encoding a " + kind, ["the bytes", "the descriptors"])


def unix_fd(s, e, fd, le_, I, ptr, lay, code):
    """Index of the descriptor in the list: its first position, or it is appended."""
    def body(s2, lv):
        if not s2.br(lt(lv.idx, e.fds.len())):
            return ("new", lv)
        if s2.br(eqi(s2.I.seq_get(s2.st, e.fds, lv.idx), fd)):
            return ("found", lv)
        return ("next", lv.but(idx=add(lv.idx, 1)))
    r = s.loop(LoopVars(idx=0), body, "descriptor search")
    if r[0] == "found":
        i = r[1].idx
    else:
        i = e.fds.len()
        e.fds = e.fds.cat(bytes_seq([fd]))
    e.num(4, le_, i)


def check_kinds(rep, kinds):
    lay = encoder_env(rep)
    if lay is None:
        return
    rep.rule("for every value, buffer position, byte order and descriptor list, each path of Encoder::value appends exactly "
             "the bytes and descriptors the wire format prescribes, or fails where no encoding exists")
    rep.assumptions.append("the recursive calls of Encoder::value obey the same specification (induction over the value)")
    rep.assumptions.append("texts and descriptor lists are at most 128 MiB long (longer ones cannot be part of a message, C14)")
    parallel(rep, [(check_kind, lay, k) for k in kinds])
    rep.floor("kinds", len(kinds), len(kinds))


def check_C11(rep):
    check_kinds(rep, ["Byte", "Boolean", "Int16", "Uint16", "Int32", "Uint32", "Int64", "Uint64", "Double", "String",
                      "ObjectPath", "Signature", "UnixFD"])


def check_C12(rep):
    check_kinds(rep, ["Array", "Struct", "DictEntry", "Variant"])


def check_message(rep, lay, rx, with_fds):
    prog = rep.prog
    inst = one(rep, rx, "Message::encode" + ("_with_fds" if with_fds else ""))
    v, cuts = encode_cuts(rep, lay, True)
    if inst is None or v is None:
        return
    ob = "%s follows the message format" % inst.short()
    try:
        I, args, rs = analyse(rep, inst, cuts=cuts)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    msg = deref(args[0])

    def spec(s):
        out, fds = MsgEnc(s, prog, msg).encode()
        return (out, fds) if with_fds else (out,)

    def final(s, st, r):
        if not is_ok(r):
            return None
        return tuple(r.f[0].f) if with_fds else (r.f[0],)
    conform(rep, ob, I, rs, spec, final, "message:" + ("fds" if with_fds else "plain"), inst.short(),
            ["the bytes of the message", "the descriptors"])


def check_C14(rep):
    lay = encoder_env(rep)
    if lay is None:
        return
    rep.rule("for every message, each path of the message encoders returns exactly the bytes and descriptors the message "
             "format prescribes (header, field array, padding, body), or fails where no valid message exists")
    rep.assumptions.append("values and header fields are encoded as C11, C12 and C15 decide")
    parallel(rep, [(check_message, lay, r"message_struct.*Message.*::encode$", False),
                   (check_message, lay, r"message_struct.*Message.*::encode_with_fds$", True)])
