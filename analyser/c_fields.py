"""C15, C16: header fields."""
from decspec import *
from encspec import *
from par import parallel

CODES = {1: ("path", "ObjectPath", "path"), 2: ("interface", "String", "interface"), 3: ("member", "String", "member"),
         4: ("error_name", "String", "error"), 5: ("reply_serial", "Uint32", None), 6: ("destination", "String", "bus"),
         7: ("sender", "String", "bus"), 8: ("signature", "Signature", None), 9: ("unix_fds", "Uint32", None)}


def fields_fns(rep):
    frm = [i for i in rep.prog.insts.values() if i.local and i.body is not None and "From<" in i.name
           and "Fields> for" in i.name and i.name.endswith("::from")]
    try_ = [i for i in rep.prog.insts.values() if i.local and i.body is not None and i.name.endswith("::try_from")
            and "Fields as " in i.name and "Vec<" in i.name]
    if not frm:
        rep.private_missing("From<HeaderFields> for Vec<Value>")
    if not try_:
        rep.private_missing("TryFrom<Vec<Value>> for HeaderFields")
    return (frm or [None])[0], (try_ or [None])[0]


def field_struct(prog, vty, code, inner):
    sty = the_adt(prog, "Struct")
    mkv = lambda n, x: Agg(vty, vty.variant_index(n), [x])
    return mkv("Struct", Agg(sty, 0, [bytes_seq([mkv("Byte", code), mkv("Variant", BoxV(inner))])]))


def text_in(s, v, kind):
    """Text of a name value."""
    if kind == "bus":
        n = s.variant(v)
        v = s.field(v, 0)
    return seq_of(v)


def check_to_values(rep, inst):
    prog = rep.prog
    ob = "header fields become (code, variant) pairs"
    try:
        I, args, rs = analyse(rep, inst, cuts=dict(name_cuts(prog)))
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    f0 = args[0]
    vty = the_adt(prog, "Value")

    def spec(s):
        fs = fields_of(f0)
        out = []
        for code, (name, kind, g) in sorted(CODES.items()):
            o = fs[name]
            if s.variant(o) == "None":
                continue
            x = s.field(o, 0)
            if g and kind == "String":
                x = text_in(s, x, g)
            out.append(field_struct(prog, vty, code, Agg(vty, vty.variant_index(kind), [x])))
        return (bytes_seq(out),)

    def final(s, st, r):
        q = seq_of(r)
        lits = q.lits() if isinstance(q, Seq) else None
        if lits is None:
            return (q,)
        try:
            lits = sorted(lits, key=lambda v: code_of(v))
        except (TypeError, AttributeError, IndexError):
            pass
        return (bytes_seq(lits),)
    conform(rep, ob, I, rs, spec, final, "fields:to", inst.short(), ["the list of header fields"])


def code_of(v):
    return seq_of(v.f[0]).lits()[0].f[0]


def check_from_values(rep, inst):
    prog = rep.prog
    ob = "(code, variant) pairs become header fields"
    try:
        I, args, rs = analyse(rep, inst, cuts=dict(name_cuts(prog)))
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    vals = seq_of(args[0])
    rty = prog.types[inst.body["locals"][0]]
    fty = rty.field_tys(rty.variant_index("Ok"))[0]
    names = fty.field_names(0)

    def places(st):
        c = [k for k, v in st.mem.items() if isinstance(v, (Agg, T)) and v.ty is fty]
        if len(c) != 1:
            raise Undecided("%d objects of type %s are live in the loop" % (len(c), fty.s))
        return {"fields": (c[0], ())}
    nothing = []
    for t in fty.field_tys(0):
        nothing.append(Agg(t, t.variant_index("None"), ()))

    def one_field(s, fields, v):
        if s.variant(v) != "Struct":
            raise SpecErr("a header field is not a struct")
        members = seq_of(s.field(v, 0))
        s.require(eqi(members.len(), 2), "a header field has not two members")
        b, x = s.I.seq_get(s.st, members, 0), s.I.seq_get(s.st, members, 1)
        if s.variant(b) != "Byte":
            raise SpecErr("the code of a header field is not a byte")
        if s.variant(x) != "Variant":
            raise SpecErr("the value of a header field is not a variant")
        code, x = s.field(b, 0), deref(s.field(x, 0))
        for k, (name, kind, g) in CODES.items():
            if s.br(eqi(code, k)):
                break
        else:
            raise SpecErr("there is no such header field")
        i = names.index(name)
        if s.variant(s.I.field(s.st, fields, i)) != "None":
            raise SpecErr("the header field %s is given twice" % name)
        if s.variant(x) != kind:
            raise SpecErr("the header field %s has another type" % name)
        y = s.field(x, 0)
        oty = fty.field_tys(0)[i]
        if g and kind == "String":
            y = seq_of(y)
            s.require(valid(s.I, g, y), "the header field %s is not a valid name" % name)
            y = name_value(s.I, oty.field_tys(oty.variant_index("Some"))[0], g, y)
        fs = [s.I.field(s.st, fields, j) for j in range(len(names))]
        fs[i] = Agg(oty, oty.variant_index("Some"), [y])
        return Agg(fty, 0, fs)

    def spec(s):
        def body(s2, lv):
            if not s2.br(lt(lv.idx, vals.len())):
                return ("done", lv)
            v = s2.I.seq_get(s2.st, vals, lv.idx)
            return ("next", lv.but(idx=add(lv.idx, 1), fields=one_field(s2, lv.fields, v)))
        r = s.loop(LoopVars(places, idx=0, fields=Agg(fty, 0, nothing)), body, "field")
        return (r[1].fields,)

    def final(s, st, r):
        return (r.f[0],) if is_ok(r) else None
    conform(rep, ob, I, rs, spec, final, "fields:from", inst.short(), ["the header fields"])


def check_C15(rep):
    rep.rule("each path of the conversions between header fields and the list of (code, variant) pairs yields, for every "
             "input, exactly the codes, types and values of the header field table, and fails exactly on unknown codes, "
             "repeated fields, other types and malformed names")
    to, frm = fields_fns(rep)
    if to is None or frm is None:
        return
    parallel(rep, [(check_to_values, to), (check_from_values, frm)])
