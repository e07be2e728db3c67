"""C02, C03, C06: signatures, types of values."""
from encspec import *
from c_messages import fn_conform, api_fn
from par import either, parallel

CODE_TYPES = {ord(c): n for n, c in TYPE_CODES.items()}
MAX_NEST = 32
MAX_SIG = 255


class Roles:
    """Parameters of a recursive function by their types: the depths are the u8s."""

    def __init__(self, prog, inst):
        self.depths = []
        self.of = {}
        for k in range(inst.body["argc"]):
            t = prog.types[inst.body["locals"][k + 1]]
            if t.s == "u8":
                self.depths.append(k)
            elif t.k == "ref" and is_seq_ty(t.elem) and not t.d.get("m"):
                self.of["text"] = k
            elif t.k == "ref" and t.d.get("m") and t.elem.s == "usize":
                self.of["offset"] = k
            elif t.k == "ref" and t.d.get("m") and is_seq_ty(t.elem):
                self.of["out"] = k
            elif t.k == "ref" and t.elem.k == "adt":
                self.of["self"] = k
        # array, struct, dict by the names of the parameters, else by position
        nm = [inst.argname(k) for k in self.depths]
        order = []
        for want in ("array", "struct", "dict"):
            c = [k for k, n in zip(self.depths, nm) if n and want in n]
            order.append(c[0] if len(c) == 1 else None)
        if None not in order:
            self.depths = order


def rec_fn(rep, what, ret, shape):
    """The local function of that shape: {role: check}, found by its types."""
    prog = rep.prog
    out = []
    for i in prog.insts.values():
        if not i.local or i.body is None:
            continue
        rt = prog.types[i.body["locals"][0]]
        if rt.k != "adt" or not rt.d["name"].endswith("result::Result"):
            continue
        if not ret(rt.field_tys(rt.variant_index("Ok"))[0]):
            continue
        r = Roles(prog, i)
        if set(r.of) == set(shape) and len(r.depths) == 3 and i.body["argc"] == 3 + len(shape) \
                and all(shape[n](prog.types[i.body["locals"][r.of[n] + 1]].elem) for n in shape):
            out.append((i, r))
    if len(out) != 1:
        rep.unsure(what, "%d functions look like the recursive %s" % (len(out), what))
        return None, None
    return out[0]


def is_type(t):
    return t.k == "adt" and t.d["name"].endswith("value::type_enum::Type")


def is_value(t):
    return t.k == "adt" and t.d["name"].endswith("value_enum::Value")


def is_unit(t):
    return t.k == "tuple" and not t.d["f"]


def next_type_fn(rep):
    return rec_fn(rep, "type parser", is_type, {"text": is_seq_ty, "offset": lambda t: True})


def print_fn(rep):
    return rec_fn(rep, "type printer", is_unit, {"self": is_type, "out": is_seq_ty})


def vprint_fn(rep):
    return rec_fn(rep, "value signature printer", is_unit, {"self": is_value, "out": is_seq_ty})


def vtype_fn(rep):
    return rec_fn(rep, "value type", is_type, {"self": is_value})


def bump(depths, k):
    return tuple(add(d, 1) if i == k else d for i, d in enumerate(depths))


def depth_ok(s, depths):
    for d in depths:
        s.require(le(d, MAX_NEST), "the nesting is too deep")


# ---------------------------------------------------------------- contracts of the recursive calls

def cut_next_type(roles):
    def cut(I, st, inst, a, dty, site):
        rty = ret_ty(I, inst)
        text = S(I, st, a[roles.of["text"]])
        p = a[roles.of["offset"]]
        off = I.read(st, p)
        depths = tuple(a[k] for k in roles.depths)
        o1 = fresh("off", I.prog.usize)
        v = payload("type", I, inst, rty)

        def okst(s):
            s.facts.assume(le(add(off, 1), o1), True)
            s.facts.assume(le(o1, text.len()), True)
            I.write(s, p, o1)

        def errst(s):
            I.write(s, p, fresh("off", I.prog.usize))
        out = fork_result(I, st, rty, v, okst, errst, "next")
        for s, r in out:
            s.event("call", "parse", (text, off) + depths, (I.read(s, p), r))
        return out
    return cut


def cut_print(roles, name):
    def cut(I, st, inst, a, dty, site):
        rty = ret_ty(I, inst)
        p = a[roles.of["out"]]
        old = I.read(st, p)
        depths = tuple(a[k] for k in roles.depths)
        g = growth("text", I, st, I.prog.by_s["str"], 1)

        def okst(s):
            s.facts.assume(le(add(old.len(), g.len()), MAX_SIG), True)
            I.write(s, p, old.cat(g))

        def errst(s):
            I.write(s, p, old.cat(growth("junk", I, s, I.prog.by_s["str"])))
        out = fork_result(I, st, rty, unit(I), okst, errst, name)
        for s, r in out:
            s.event("call", name, (D(I, s, a[roles.of["self"]]),) + depths, (g, r))
        return out
    return cut


def cut_vtype(roles):
    def cut(I, st, inst, a, dty, site):
        rty = ret_ty(I, inst)
        v = payload("vtype", I, inst, rty)
        depths = tuple(a[k] for k in roles.depths)
        out = fork_result(I, st, rty, v, lambda s: None, lambda s: None, "vtype")
        for s, r in out:
            s.event("call", "type_of", (D(I, s, a[roles.of["self"]]),) + depths, (r,))
        return out
    return cut


def depth_args(ds):
    return [("the %s depth" % n, d) for n, d in zip(("array", "struct", "dict entry"), ds)]


# ---------------------------------------------------------------- C02: parsing

def parse_call(s, text, off, depths):
    o1, r = s.call("parse", ("the text", text), ("the offset", off), *depth_args(depths))
    if not is_ok(r):
        raise SpecErr("an inner type is malformed")
    return o1, r.f[0]


def ty_agg(prog, kind, *f):
    t = the_adt(prog, "Type")
    return Agg(t, t.variant_index(kind), f)


def check_next_type(rep, code):
    prog = rep.prog
    inst, roles = next_type_fn(rep)
    if inst is None:
        return
    what = {None: "an unknown code", 0: "a missing code"}.get(code) or "the code '%s'" % chr(code)
    ob = "parsing a type at %s follows the signature grammar" % what

    def text_of(args):
        return seq_of(args[roles.of["text"]])

    def setup(I, st, args):
        p = args[roles.of["offset"]]
        off = I.read(st, p)
        t = text_of(args)
        f = st.facts
        f.assume(le(off, t.len()), True)
        f.assume(le(t.len(), MAX_SIG), True)
        f.assume(lt(off, t.len()), code != 0)
        if code != 0:
            c = I.seq_get(st, t, off)
            if code is not None:
                f.assume(eqi(c, code), True)
            else:
                for k in list(CODE_TYPES) + [ord(x) for x in "a({"]:
                    f.assume(eqi(c, k), False)
    try:
        I, args, rs = analyse(rep, inst, cuts={inst.id: (cut_next_type(roles), False)}, setup=setup)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    p = args[roles.of["offset"]]
    text = text_of(args)
    off0 = mk("in", ("a%d" % roles.of["offset"],), prog.usize)
    d0 = tuple(args[k] for k in roles.depths)
    loc = {"off": (p.cell, p.path)}

    def spec(s):
        depth_ok(s, d0)
        if code == 0:
            raise SpecErr("the text ends too early")
        if code is None:
            raise SpecErr("there is no such type code")
        off = add(off0, 1)
        at = lambda o: s.I.seq_get(s.st, text, o)
        if code in CODE_TYPES:
            return (ty_agg(prog, CODE_TYPES[code]), off)
        if code == ord("a"):
            off, t = parse_call(s, text, off, bump(d0, 0))
            return (ty_agg(prog, "Array", BoxV(t)), off)
        if code == ord("{"):
            d = bump(d0, 2)
            off, k = parse_call(s, text, off, d)
            off, v = parse_call(s, text, off, d)
            s.require(lt(off, text.len()), "the text ends too early")
            s.require(eqi(at(off), ord("}")), "the dict entry is not closed")
            tt = the_adt(prog, "Type").field_tys(the_adt(prog, "Type").variant_index("DictEntry"))[0]
            pair = Agg(prog.types[tt.d["args"][0]], 0, [k, v])
            return (ty_agg(prog, "DictEntry", BoxV(pair)), add(off, 1))
        d = bump(d0, 1)
        off, t = parse_call(s, text, off, d)

        def body(s2, lv):
            s2.require(lt(lv.off, text.len()), "the text ends too early")
            if s2.br(eqi(s2.I.seq_get(s2.st, text, lv.off), ord(")"))):
                return ("done", lv)
            o, t2 = parse_call(s2, text, lv.off, d)
            return ("next", lv.but(acc=lv.acc.cat(bytes_seq([t2])), off=o))
        r = s.loop(LoopVars(loc, acc=bytes_seq([t]), off=off), body, "struct")[1]
        return (ty_agg(prog, "Struct", r.acc), add(r.off, 1))

    def final(s, st, r):
        if not is_ok(r):
            return None
        return (r.f[0], I.read(st, p))
    conform(rep, ob, I, rs, spec, final, "parse:%s" % (chr(code) if code else code), "parsing a type at " + what,
            ["the type", "the end"], never=code in (0, None))


def check_parse_top(rep, rx, what, many):
    prog = rep.prog
    inst, roles = next_type_fn(rep)
    if inst is None:
        return
    z = (0, 0, 0)

    def spec(s, I, a):
        text = seq_of(a[0])
        s.require(le(text.len(), MAX_SIG), "the signature is longer than 255 bytes")
        if not many:
            off, t = parse_call(s, text, 0, z)
            s.require(eqi(off, text.len()), "there is more than one type")
            return (t,)

        def body(s2, lv):
            if not s2.br(lt(lv.idx, text.len())):
                return ("done", lv)
            o, t = parse_call(s2, text, lv.idx, z)
            return ("next", lv.but(acc=lv.acc.cat(bytes_seq([t])), idx=o))
        r = s.loop(LoopVars(acc=Seq(), idx=0), body, "signature")[1]
        return (r.acc,)

    def final(I, a, st, r):
        if not is_ok(r):
            return None
        return (seq_of(r.f[0]),) if many else (r.f[0],)
    fn_conform(rep, rx, what, spec, final, cuts={inst.id: (cut_next_type(roles), True)},
               obs=["the types" if many else "the type"])


def check_C02(rep):
    rep.rule("each path of the recursive type parser consumes, for every text, offset and nesting depth, exactly one type of "
             "the signature grammar, and each path of the entry points consumes the whole text of at most 255 bytes")
    rep.assumptions.append("the recursive calls of the type parser obey the same specification (induction over the text)")
    tasks = [(check_next_type, c) for c in sorted(CODE_TYPES) + [ord(x) for x in "a({"] + [0, None]]
    tasks += [(check_parse_top, r"Type::from_bytes_to_signature$", "Type::from_bytes_to_signature", True),
              (check_parse_top, r"Type::from_string_to_signature$", "Type::from_string_to_signature", True),
              (check_parse_top, r"type_enum::Type as .*TryFrom<&\[u8\]>>::try_from$", "Type::try_from(&[u8])", False),
              (check_parse_top, r"type_enum::Type as .*TryFrom<&str>>::try_from$", "Type::try_from(&str)", False)]
    parallel(rep, tasks)


# ---------------------------------------------------------------- C03: printing

def print_call(s, ty, out, depths, name="print"):
    g, r = s.call(name, ("the type", ty), *depth_args(depths))
    if not is_ok(r):
        raise SpecErr("an inner type cannot be printed")
    return out.cat(g)


def check_print(rep, kind):
    prog = rep.prog
    inst, roles = print_fn(rep)
    if inst is None:
        return
    ob = "printing the type %s" % kind
    tty = the_adt(prog, "Type")
    vi = tty.variant_index(kind)

    def setup(I, st, args):
        st.facts.assume_variant(deref(args[roles.of["self"]]), frozenset([vi]))
        st.facts.assume(le(I.read(st, args[roles.of["out"]]).len(), MAX_SIG), True)
    try:
        I, args, rs = analyse(rep, inst, cuts={inst.id: (cut_print(roles, "print"), False)}, setup=setup)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    ty = deref(args[roles.of["self"]])
    p = args[roles.of["out"]]
    d0 = tuple(args[k] for k in roles.depths)
    out0 = mk_sym(mk("in", ("a%d" % roles.of["out"],), I.celltype[p.cell]), I.celltype[p.cell])

    def spec(s):
        depth_ok(s, d0)
        out = print_type(s, ty, kind, out0, d0)
        s.require(le(out.len(), MAX_SIG), "the signature is longer than 255 bytes")
        return (out,)

    def final(s, st, r):
        return (I.read(st, p),) if is_ok(r) else None
    conform(rep, ob, I, rs, spec, final, "print:" + kind, ob, ["the text"])


def lit(t):
    return bytes_seq(t.encode())


def print_type(s, ty, kind, out, d, call=print_call):
    if kind in TYPE_CODES:
        return out.cat(lit(TYPE_CODES[kind]))
    f = s.field(ty, 0)
    if kind == "Array":
        return call(s, deref(f), out.cat(lit("a")), bump(d, 0))
    if kind == "DictEntry":
        q = deref(f)
        out = call(s, s.field(q, 0), out.cat(lit("{")), bump(d, 2))
        out = call(s, s.field(q, 1), out, bump(d, 2))
        return out.cat(lit("}"))
    q = seq_of(f)
    s.require(lt(0, q.len()), "a struct without members has no signature")
    return print_seq(s, q, out.cat(lit("(")), bump(d, 1), call).cat(lit(")"))


def print_seq(s, q, out, d, call):
    def body(s2, lv):
        if not s2.br(lt(lv.idx, q.len())):
            return ("done", lv)
        o = call(s2, s2.I.seq_get(s2.st, q, lv.idx), lv.seqs["text"], d)
        return ("next", lv.but(seqs={"text": o}, idx=add(lv.idx, 1)))
    return s.loop(LoopVars(idx=0, seqs={"text": out}), body, "member")[1].seqs["text"]


def check_print_top(rep):
    # whether the length is looked at on the way or in the end is all the same
    either(rep, check_print_top_, (True,), (False,))


def check_print_top_(rep, always):
    inst, roles = print_fn(rep)
    if inst is None:
        return

    def call(s, ty, out, depths):
        out = print_call(s, ty, out, depths)
        if always:
            s.require(le(out.len(), MAX_SIG), "the signature is longer than 255 bytes")
        return out

    def spec(s, I, a):
        out = print_seq(s, seq_of(a[0]), Seq(), (0, 0, 0), call)
        s.require(le(out.len(), MAX_SIG), "the signature is longer than 255 bytes")
        return (out,)
    fn_conform(rep, r"Type::from_signature_to_string$", "Type::from_signature_to_string", spec,
               lambda I, a, st, r: (seq_of(r.f[0]),) if is_ok(r) else None,
               cuts={inst.id: (cut_print(roles, "print"), True)}, obs=["the text"])


def cut_display(I, st, inst, a, dty, site):
    f = I.read(st, a[1])
    sink = f.f[0] if isinstance(f, Nat) else None
    if sink is None:
        return None
    g = full(mk("display", (reify(D(I, st, a[0])),), I.prog.by_s["str"]))
    I.write(st, sink, I.read(st, sink).cat(g))
    rty = ret_ty(I, inst)
    return [(st, Agg(rty, rty.variant_index("Ok"), [unit(I)]))]


def display_spec(s, ty, out, d=None):
    return out.cat(full(mk("display", (reify(ty),), s.I.prog.by_s["str"])))


def check_display(rep):
    prog = rep.prog
    inst = api_fn(rep, r"type_enum::Type as fmt::Display>::fmt$", "Display for Type")
    if inst is None:
        return
    ob = "Display of a type is its signature text"
    sinks = []

    def args(I, st):
        ty = prog.types[inst.body["locals"][1]]
        s = Ptr(I.new_cell(st, Seq()))
        sinks.append(s)
        return [mk_sym(mk("in", ("a0",), ty), ty), Ptr(I.new_cell(st, Nat("fmtr", s)))]
    try:
        I, a, rs = analyse(rep, inst, args=args, cuts={inst.id: (cut_display, False)})
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    ty = deref(a[0])

    def spec(s):
        kind = s.variant(ty)
        if kind == "Struct":
            return (print_seq(s, seq_of(s.field(ty, 0)), lit("("), (0, 0, 0), lambda s_, t, o, d: display_spec(s_, t, o)).cat(lit(")")),)
        return (print_type(s, ty, kind, Seq(), (0, 0, 0), lambda s_, t, o, d: display_spec(s_, t, o)),)
    conform(rep, ob, I, rs, spec, lambda s, st, r: (I.read(st, sinks[-1]),) if is_ok(r) else None, "display:type", ob,
            ["the text"])


ALIGN = {"Byte": 1, "Boolean": 4, "Int16": 2, "Uint16": 2, "Int32": 4, "Uint32": 4, "Int64": 8, "Uint64": 8, "Double": 8,
         "String": 4, "ObjectPath": 4, "Signature": 1, "UnixFD": 4, "Variant": 1, "Array": 4, "Struct": 8, "DictEntry": 8}


def check_alignment(rep):
    fn_conform(rep, r"Type::get_alignment$", "Type::get_alignment",
               lambda s, I, a: (ALIGN[s.variant(deref(a[0]))],), obs=["the alignment"])


def check_C03(rep):
    rep.rule("each path of the recursive type printer appends, for every type, depth and prior text, exactly the signature "
             "text of the type, or fails where none exists; Display and the alignment table agree with the specification")
    rep.assumptions.append("the recursive calls of the printers obey the same specification (induction over the type)")
    tasks = [(check_print, k) for k in ALIGN] + [(check_print_top,), (check_display,), (check_alignment,)]
    parallel(rep, tasks)


# ---------------------------------------------------------------- C06: types of values

def check_vtype(rep, kind):
    prog = rep.prog
    inst, roles = vtype_fn(rep)
    if inst is None:
        return
    ob = "the type of a %s value" % kind
    vty, tty = the_adt(prog, "Value"), the_adt(prog, "Type")

    def setup(I, st, args):
        st.facts.assume_variant(deref(args[roles.of["self"]]), frozenset([vty.variant_index(kind)]))
    try:
        I, args, rs = analyse(rep, inst, cuts={inst.id: (cut_vtype(roles), False)}, setup=setup)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    v = deref(args[roles.of["self"]])
    d0 = tuple(args[k] for k in roles.depths)

    def inner(s, x, d):
        r, = s.call("type_of", ("the value", x), *depth_args(d))
        if not is_ok(r):
            raise SpecErr("an inner value has no type")
        return r.f[0]

    def spec(s):
        depth_ok(s, d0)
        if kind in TYPE_CODES:
            return (ty_agg(prog, kind),)
        f = s.field(v, 0)
        if kind == "Array":
            return (ty_agg(prog, "Array", BoxV(fields_of(deref(f))["type_"])),)
        if kind == "DictEntry":
            q = deref(f)
            d = bump(d0, 2)
            tt = tty.field_tys(tty.variant_index("DictEntry"))[0]
            k1 = inner(s, s.field(q, 0), d)
            v1 = inner(s, s.field(q, 1), d)
            return (ty_agg(prog, "DictEntry", BoxV(Agg(prog.types[tt.d["args"][0]], 0, [k1, v1]))),)
        q = seq_of(f)

        def body(s2, lv):
            if not s2.br(lt(lv.idx, q.len())):
                return ("done", lv)
            t = inner(s2, s2.I.seq_get(s2.st, q, lv.idx), bump(d0, 1))
            return ("next", lv.but(acc=lv.acc.cat(bytes_seq([t])), idx=add(lv.idx, 1)))
        return (ty_agg(prog, "Struct", s.loop(LoopVars(acc=Seq(), idx=0), body, "member")[1].acc),)
    conform(rep, ob, I, rs, spec, lambda s, st, r: (r.f[0],) if is_ok(r) else None, "type:" + kind, ob, ["the type"])


def check_get_type(rep):
    inst, roles = vtype_fn(rep)
    if inst is None:
        return

    def spec(s, I, a):
        r, = s.call("type_of", ("the value", deref(a[0])), *depth_args((0, 0, 0)))
        if not is_ok(r):
            raise SpecErr("the value has no type")
        return (r.f[0],)
    fn_conform(rep, r"Value::get_type$", "Value::get_type", spec, lambda I, a, st, r: (r.f[0],) if is_ok(r) else None,
               cuts={inst.id: (cut_vtype(roles), True)}, obs=["the type"])


def check_vprint(rep, kind):
    prog = rep.prog
    inst, roles = vprint_fn(rep)
    tp, troles = print_fn(rep)
    if inst is None or tp is None:
        return
    ob = "the signature text of a %s value" % kind
    vty = the_adt(prog, "Value")

    def setup(I, st, args):
        st.facts.assume_variant(deref(args[roles.of["self"]]), frozenset([vty.variant_index(kind)]))
        st.facts.assume(le(I.read(st, args[roles.of["out"]]).len(), MAX_SIG), True)
        v = deref(args[roles.of["self"]])
        if kind == "Struct":
            st.facts.assume(lt(0, seq_of(sym_field(v, vty.variant_index(kind), 0)).len()), True)
    try:
        I, args, rs = analyse(rep, inst, cuts={inst.id: (cut_print(roles, "vprint"), False),
                                               tp.id: (cut_print(troles, "print"), True)}, setup=setup)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    v = deref(args[roles.of["self"]])
    p = args[roles.of["out"]]
    d0 = tuple(args[k] for k in roles.depths)
    out0 = mk_sym(mk("in", ("a%d" % roles.of["out"],), I.celltype[p.cell]), I.celltype[p.cell])

    def vcall(s, x, out, d):
        return print_call(s, x, out, d, "vprint")

    def spec(s):
        depth_ok(s, d0)
        if kind == "Array":
            out = print_call(s, fields_of(deref(s.field(v, 0)))["type_"], out0.cat(lit("a")), bump(d0, 0))
        else:
            out = print_type(s, v, kind, out0, d0, vcall)
        s.require(le(out.len(), MAX_SIG), "the signature is longer than 255 bytes")
        return (out,)
    conform(rep, ob, I, rs, spec, lambda s, st, r: (I.read(st, p),) if is_ok(r) else None, "vprint:" + kind, ob,
            ["the text"])


def check_array_new(rep):
    prog = rep.prog
    gt = api_fn(rep, r"Value::get_type$", "Value::get_type")
    if gt is None:
        return
    tty = the_adt(prog, "Type")

    def spec(s, I, a):
        vals, ty = seq_of(a[0]), a[1]

        def body(s2, lv):
            if not s2.br(lt(lv.idx, vals.len())):
                return ("done", lv)
            c, t = vtype(s2.I, s2.I.seq_get(s2.st, vals, lv.idx), tty)
            s2.require(c, "an element has no type")
            s2.require(val_eq(s2.I, s2.st, t, ty), "an element has another type")
            return ("next", lv.but(idx=add(lv.idx, 1)))
        s.loop(LoopVars(idx=0), body, "element")
        return (ty, vals)

    def final(I, a, st, r):
        if not is_ok(r):
            return None
        f = fields_of(r.f[0])
        return (f["type_"], seq_of(f["array"]))
    fn_conform(rep, r"container::Array::new$", "Array::new", spec, final, cuts={gt.id: (cut_get_type, True)},
               obs=["the element type", "the elements"])


def check_containers(rep):
    fn_conform(rep, r"container::Struct as .*TryFrom<(vec::)?Vec<.*>>>::try_from$", "Struct::try_from",
               lambda s, I, a: (s.require(lt(0, seq_of(a[0]).len()), "a struct has no members"), seq_of(a[0]))[1:],
               lambda I, a, st, r: (seq_of(r.f[0]),) if is_ok(r) else None, obs=["the members"])
    fn_conform(rep, r"From<.*container::Struct>>?::from$|From<.*container::Struct> for .*::from$", "Vec::from(Struct)",
               lambda s, I, a: (seq_of(a[0]),), lambda I, a, st, r: (seq_of(r),))
    fn_conform(rep, r"From<.*container::Array>>?::from$|From<.*container::Array> for .*::from$", "Vec::from(Array)",
               lambda s, I, a: (seq_of(fields_of(a[0])["array"]),), lambda I, a, st, r: (seq_of(r),))
    fn_conform(rep, r"container::Struct as .*AsRef<.*>>::as_ref$", "Struct::as_ref",
               lambda s, I, a: (seq_of(a[0]),), lambda I, a, st, r: (seq_of(r),))
    fn_conform(rep, r"container::Array as .*AsRef<.*>>::as_ref$", "Array::as_ref",
               lambda s, I, a: (seq_of(fields_of(deref(a[0]))["array"]),), lambda I, a, st, r: (seq_of(r),))
    fn_conform(rep, r"container::Array::get_type$", "Array::get_type",
               lambda s, I, a: (fields_of(deref(a[0]))["type_"],), lambda I, a, st, r: (deref(r),))


def check_C06(rep):
    rep.rule("each path of the functions that give a value its type and signature text yields, for every value and depth, "
             "the type that mirrors the value; arrays and structs are built exactly from well-typed lists of values")
    rep.assumptions.append("the recursive calls obey the same specification (induction over the value)")
    tasks = [(check_vtype, k) for k in ALIGN] + [(check_vprint, k) for k in ALIGN]
    tasks += [(check_get_type,), (check_array_new,), (check_containers,)]
    parallel(rep, tasks)
