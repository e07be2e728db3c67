"""C16, C18, C19, C23: headers, replies, builders and accessors of messages."""
from decspec import *
from encspec import *
from c_fields import fields_fns
from c_decode import decoder_env, message_cuts
from par import parallel

NO_REPLY = 1


def api_fn(rep, rx, what):
    r = [i for i in rep.prog.insts.values() if i.local and i.body is not None and re.search(rx, i.key)]
    if not r:
        rep.anchor_missing(what)
        return None
    return r[0]


def fn_conform(rep, rx, what, spec, final=None, cuts=None, setup=None, obs=None,
               args=None):
    """spec(s, I, args) gives the observation, final(I, args, st, r) that of the code (None: it failed)."""
    inst = api_fn(rep, rx, what)
    if inst is None:
        return
    ob = "%s does what is specified" % what
    try:
        I, args, rs = analyse(rep, inst, cuts=cuts if cuts is not None else name_cuts(rep.prog), setup=setup, args=args)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return

    def fin(s, st, r):
        if final is None:
            return (r,)
        st = st.copy()
        st.facts = s.facts
        return final(I, args, st, r)
    conform(rep, ob, I, rs, lambda s: spec(s, I, args), fin, what, what, obs)


def some(ty, v):
    return Agg(ty, ty.variant_index("Some"), [v])


def nothing(ty):
    return Agg(ty, ty.variant_index("None"), ())


class Msg:
    """Builds expected messages."""

    def __init__(self, prog):
        self.prog = prog
        self.mty = the_adt(prog, "message_struct::Message")
        self.hty = the_adt(prog, "header_struct::Header")
        self.fty = the_adt(prog, "fields::Fields")
        self.kind = the_adt(prog, "MessageType")
        self.flags = the_adt(prog, "MessageFlags")
        self.vty = the_adt(prog, "Value")

    def value(self, kind, x):
        return Agg(self.vty, self.vty.variant_index(kind), [x])

    def fields(self, **kw):
        out = []
        for n, t in zip(self.fty.field_names(0), self.fty.field_tys(0)):
            v = kw.get(n)
            out.append(nothing(t) if v is None else v if isinstance(v, Agg) and v.ty is t else some(t, v))
        return Agg(self.fty, 0, out)

    def header(self, le_, kind, flags, version, serial, fields):
        return struct_by_names(self.hty, is_le=le_, message_type=Agg(self.kind, self.kind.variant_index(kind), ()),
                               message_flags=Agg(self.flags, 0, [flags]), version=version, serial=serial, fields=fields)

    def message(self, header, body):
        return struct_by_names(self.mty, header=header, body=bytes_seq(body))

    def name(self, kind, text):
        t = the_adt(self.prog, {"interface": "Interface", "member": "Member", "error": "value::error::Error"}[kind])
        return Agg(t, 0, [bytes_seq(text.encode())])


# ---------------------------------------------------------------- C18: replies

def header_of(arg):
    v = deref(arg)
    f = fields_of(v)
    return fields_of(f["header"]) if "header" in f else f


def opt(s, o):
    """Payload of an optional field, or None."""
    return s.field(o, 0) if s.variant(o) == "Some" else None


def reply(s, m, arg, kind, body, error=None):
    h = header_of(arg)
    f = fields_of(h["fields"])
    kw = {"reply_serial": h["serial"]}
    if opt(s, f["sender"]) is not None:
        kw["destination"] = opt(s, f["sender"])
    if opt(s, f["destination"]) is not None:
        kw["sender"] = opt(s, f["destination"])
    if error is not None:
        kw["error_name"] = error
    return m.message(m.header(h["is_le"], kind, NO_REPLY, 1, 0, m.fields(**kw)), body)


def as_string(m, seq):
    return m.value("String", seq)


def in_seq(v):
    return seq_of(v)


ERR = "org.freedesktop.DBus.Error."


def reply_specs(m):
    def err(name, text):
        def spec(s, I, a):
            return (reply(s, m, a[0], "Error", [as_string(m, text(s, a))], m.name("error", ERR + name)),)
        return spec

    def lit(t):
        return bytes_seq(t.encode())

    def opt_err(name, field, text):
        def spec(s, I, a):
            f = fields_of(header_of(a[0])["fields"])
            x = opt(s, f[field])
            if x is None:
                raise SpecErr("the message has no %s" % field)
            return (reply(s, m, a[0], "Error", [as_string(m, lit(text).cat(in_seq(x)))], m.name("error", ERR + name)),)
        return spec

    def method_return(s, I, a):
        if s.variant(header_of(a[0])["message_type"]) == "MethodCall":
            return (1, reply(s, m, a[0], "MethodReturn", []))
        return (0, reply(s, m, a[0], "Error", [as_string(m, lit("Message is not a method call"))],
                         m.name("error", ERR + "MessageType")))
    opt_final = lambda I, a, st, r: (r.f[0],) if is_ok(r) else None
    return [
        ("method_return", method_return, lambda I, a, st, r: (int(is_ok(r)), r.f[0])),
        ("error", lambda s, I, a: (reply(s, m, a[0], "Error", [as_string(m, in_seq(a[2]))], a[1]),), None),
        ("invalid_args", err("InvalidArgs", lambda s, a: in_seq(a[1])), None),
        ("unknown_property", err("UnknownProperty", lambda s, a: lit("does not have a property ").cat(in_seq(a[1]))), None),
        ("unknown_path", opt_err("UnknownPath", "path", "does not have a path "), opt_final),
        ("unknown_interface", opt_err("UnknownInterface", "interface", "does not have an interface "), opt_final),
        ("unknown_member", opt_err("UnknownMember", "member", "does not have a member "), opt_final),
    ]


def check_reply(rep, owner, name):
    m = Msg(rep.prog)
    for n, spec, final in reply_specs(m):
        if n == name:
            fn_conform(rep, r"%s::%s$" % (owner, n), "%s::%s" % (owner.split("::")[-1], n), spec, final,
                       obs=["whether it is a reply", "the reply"] if n == "method_return" else ["the reply"])


def check_C18(rep):
    rep.rule("each path of the reply constructors returns, for every message, exactly the specified reply")
    names = [n for n, _, _ in reply_specs(Msg(rep.prog))]
    parallel(rep, [(check_reply, o, n) for o in ("header_struct::Header", "message_struct::Message") for n in names])
    rep.floor("reply constructors", 2 * len(names), 14)


# ---------------------------------------------------------------- C19: builders

def check_builder(rep, name):
    m = Msg(rep.prog)
    props = lambda: m.name("interface", "org.freedesktop.DBus.Properties")
    text = lambda v: m.value("String", seq_of(v))

    def call(a, interface, member, body):
        return (m.message(m.header(1, "MethodCall", 0, 1, 0, m.fields(
            destination=a[0], path=a[1], interface=interface, member=member)), body),)
    specs = {
        "method_call": lambda s, I, a: call(a, a[2], a[3], []),
        "signal": lambda s, I, a: (m.message(m.header(1, "Signal", NO_REPLY, 1, 0, m.fields(
            path=a[0], interface=a[1], member=a[2])), []),),
        "property_get": lambda s, I, a: call(a, props(), m.name("member", "Get"), [text(a[2]), text(a[3])]),
        "properties_get_all": lambda s, I, a: call(a, props(), m.name("member", "GetAll"), [text(a[2])]),
        "property_set": lambda s, I, a: call(a, props(), m.name("member", "Set"),
                                             [text(a[2]), text(a[3]), m.value("Variant", BoxV(a[4]))]),
        "new": lambda s, I, a: (struct_by_names(m.mty, header=a[0], body=seq_of(a[1])),),
    }
    fn_conform(rep, r"message_struct::Message::%s$" % name, "Message::" + name, specs[name], obs=["the message"])


BUILDERS = ("method_call", "signal", "property_get", "properties_get_all", "property_set", "new")


def check_C19(rep):
    rep.rule("each path of the message constructors returns, for every argument, exactly the specified message")
    parallel(rep, [(check_builder, n) for n in BUILDERS])
    rep.floor("constructors", len(BUILDERS), 6)


# ---------------------------------------------------------------- C23: accessors

GETTERS = ("path", "interface", "member", "error_name", "destination", "sender", "reply_serial", "unix_fds")


def payload_of(I, a, st, r):
    """What is inside an optional result."""
    if isinstance(r, T):
        if r.ty.variants[I.variant_of(st, r)]["n"] != "Some":
            return None
        return (deref(sym_field(r, r.ty.variant_index("Some"), 0)),)
    return (deref(r.f[0]),) if is_ok(r) else None


def check_getter(rep, owner, name):
    def get(s, I, a):
        o = fields_of(header_of(a[0])["fields"])[name]
        x = opt(s, o)
        if x is None:
            raise SpecErr("there is no such field")
        return (x,)

    def has(s, I, a):
        return (int(s.variant(fields_of(header_of(a[0])["fields"])[name]) == "Some"),)
    short = owner.split("::")[-1]
    if not (short == "Message" and name == "signature"):
        fn_conform(rep, r"%s::get_%s$" % (owner, name), "%s::get_%s" % (short, name), get,
                   payload_of)
    fn_conform(rep, r"%s::has_%s$" % (owner, name), "%s::has_%s" % (short, name), has)


def check_plain(rep, owner):
    short = owner.split("::")[-1]
    fn_conform(rep, owner + r"::get_serial$", short + "::get_serial", lambda s, I, a: (header_of(a[0])["serial"],))
    fn_conform(rep, owner + r"::get_type$", short + "::get_type", lambda s, I, a: (header_of(a[0])["message_type"],))
    if short != "Message":
        return

    def state(a, I, st):
        return I.read(st, a[0])

    def before(I, a):
        return mk("in", ("a0",), I.celltype[a[0].cell])

    def set_serial(s, I, a):
        m = fields_of(before(I, a))
        h = m["header"]
        hf = fields_of(h)
        hf["serial"] = a[1]
        return (Agg(h.ty, 0, [hf[n] for n in h.ty.field_names(0)]), seq_of(m["body"]))

    def both(I, a, st, r):
        m = fields_of(state(a, I, st))
        return (m["header"], seq_of(m["body"]))
    fn_conform(rep, owner + r"::set_serial$", "Message::set_serial", set_serial, both)
    fn_conform(rep, owner + r"::add_value$", "Message::add_value",
               lambda s, I, a: (fields_of(before(I, a))["header"], seq_of(fields_of(before(I, a))["body"]).cat(bytes_seq([a[1]]))),
               both)
    fn_conform(rep, owner + r"::get_body$", "Message::get_body",
               lambda s, I, a: (seq_of(fields_of(deref(a[0]))["body"]),), lambda I, a, st, r: (seq_of(r),))


def body_types(s, body, tty):
    """The types of the body values, in order."""
    def step(s2, lv):
        if not s2.br(lt(lv.idx, body.len())):
            return ("done", lv)
        c, t = vtype(s2.I, s2.I.seq_get(s2.st, body, lv.idx), tty)
        s2.require(c, "a value has no type")
        return ("next", lv.but(idx=add(lv.idx, 1), acc=lv.acc.cat(bytes_seq([t]))))
    return s.loop(LoopVars(acc=Seq(), idx=0), step, "body")[1].acc


def check_split(rep):
    prog = rep.prog
    tty = the_adt(prog, "Type")
    gt = api_fn(rep, r"Value::get_type$", "Value::get_type")
    if gt is None:
        return
    cuts = dict(name_cuts(prog))
    cuts[gt.id] = (cut_get_type, True)

    def sig(s, I, a):
        return (body_types(s, seq_of(fields_of(deref(a[0]))["body"]), tty),)

    def split(s, I, a):
        m = fields_of(a[0])
        ts = body_types(s, seq_of(m["body"]), tty)
        h = m["header"]
        if s.br(eqi(ts.len(), 0)):
            return (h, seq_of(m["body"]))
        hf = fields_of(h)
        ff = fields_of(hf["fields"])
        fty = hf["fields"].ty
        ff["signature"] = some(option_of(fty, "signature"), ts)
        hf["fields"] = Agg(fty, 0, [ff[n] for n in fty.field_names(0)])
        return (Agg(h.ty, 0, [hf[n] for n in h.ty.field_names(0)]), seq_of(m["body"]))
    fn_conform(rep, r"message_struct::Message::get_signature$", "Message::get_signature", sig,
               lambda I, a, st, r: (seq_of(r.f[0]),) if is_ok(r) else None, cuts=cuts)
    fn_conform(rep, r"message_struct::Message::split$", "Message::split", split,
               lambda I, a, st, r: (r.f[0].f[0], seq_of(r.f[0].f[1])) if is_ok(r) else None, cuts=cuts)


def check_C23(rep):
    rep.rule("each path of the accessors returns the field it is named after, and the setters change nothing else")
    tasks = []
    for o in ("header_struct::Header", "message_struct::Message"):
        tasks += [(check_getter, o, n) for n in GETTERS + ("signature",)]
        tasks.append((check_plain, o))
    tasks.append((check_split,))
    parallel(rep, tasks)


# ---------------------------------------------------------------- C16: required fields

def check_header_new(rep):
    m = Msg(rep.prog)

    def spec(s, I, a):
        kind = s.variant(a[1])
        fs = fields_of(a[5])
        for need in REQUIRED[kind]:
            if s.variant(fs[need]) == "None":
                raise SpecErr("a %s message has no %s" % (kind, need))
        return (struct_by_names(m.hty, is_le=a[0], message_type=a[1], message_flags=a[2], version=a[3], serial=a[4],
                                fields=a[5]),)
    fn_conform(rep, r"header_struct::Header::new$", "Header::new", spec,
               lambda I, a, st, r: (r.f[0],) if is_ok(r) else None, obs=["the header"])


def mentions(prog, ty, targets, seen=None):
    """Does a value of type ty own a value of one of the target types?"""
    seen = set() if seen is None else seen
    if ty in targets:
        return True
    if ty.id in seen or ty.k in ("ref", "ptr"):
        return False
    seen.add(ty.id)
    if ty.k == "adt":
        kids = [t for i in range(len(ty.variants)) for t in ty.field_tys(i)]
    elif ty.k == "tuple":
        kids = [prog.types[f] if not hasattr(f, "k") else f for f in ty.d["f"]]
    else:
        kids = []
    return any(mentions(prog, t, targets, seen) for t in kids)


def public_insts(rep):
    """Every function a user of the crate can call (not generic)."""
    out = []
    by = {}
    for i in rep.prog.insts.values():
        if i.local and i.body is not None:
            by.setdefault(i.id, i)
    for it in rep.prog.items:
        if it["reach"] and not it["generic"] and it["inst"] in by and it["dk"] in ("Fn", "AssocFn"):
            out.append((it, by[it["inst"]]))
    return out


def headers_in(I, st, v, hty, out):
    """Header values inside a result."""
    if isinstance(v, (Ref, BoxV)):
        return headers_in(I, st, v.v, hty, out)
    if isinstance(v, Ptr):
        return
    if isinstance(v, T):
        if v.ty is hty:
            out.append(v)
        elif v.ty is not None and v.ty.k == "adt" and mentions(I.prog, v.ty, (hty,)):
            if v.ty.is_enum:
                vs = st.facts.variants(v)
                for i in vs:
                    for k in range(len(v.ty.field_tys(i))):
                        headers_in(I, st, sym_field(v, i, k), hty, out)
            else:
                headers_in(I, st, expand(v), hty, out)
        return
    if isinstance(v, Agg):
        if v.ty is hty:
            out.append(v)
        else:
            for x in v.f:
                headers_in(I, st, x, hty, out)


def opt_is_some(st, o):
    if isinstance(o, Agg):
        return o.ty.variants[o.v]["n"] == "Some"
    vs = st.facts.variants(o)
    n = [o.ty.variants[i]["n"] for i in vs]
    return True if n == ["Some"] else None if len(n) > 1 else False


def required_ok(st, h):
    """(True | False | None, why)"""
    f = fields_of(h)
    mt = f["message_type"]
    if isinstance(mt, Agg):
        kinds = [mt.ty.variants[mt.v]["n"]]
    elif isinstance(mt, T):
        kinds = [mt.ty.variants[i]["n"] for i in st.facts.variants(mt)]
    else:
        return None, "message type %s" % brief(mt)
    fs = fields_of(f["fields"])
    for kind in kinds:
        for need in REQUIRED[kind]:
            r = opt_is_some(st, fs[need])
            if r is not True:
                return False, "a %s message %s %s" % (kind, "may have no" if r is None else "has no", need)
    return True, None


def has_mut(prog, t, depth=0):
    """May a value of the type be used to write to what it was made from?"""
    if t.k == "ref":
        return bool(t.d.get("m"))
    if depth > 4:
        return False
    if t.k == "adt":
        return "Mut" in t.d["name"] or any(has_mut(prog, x, depth + 1) for x in t.adt_args())
    if t.k == "tuple":
        return any(has_mut(prog, prog.types[f] if not hasattr(f, "k") else f, depth + 1) for f in t.d["f"])
    return False


def pointers(v):
    if isinstance(v, Ptr):
        yield v
    elif isinstance(v, (Ref, BoxV)):
        yield from pointers(v.v)
    elif isinstance(v, (Agg, Nat)):
        for x in v.f:
            if isinstance(x, (Ptr, Ref, BoxV, Agg, Nat)):
                yield from pointers(x)


GUARDED = ("message_type", "fields", "path", "interface", "member", "error_name", "reply_serial")


def guarded_part(ty, path, hty):
    """The part of a header the requirements are about that a place lies in."""
    name = None
    for p in path:
        if ty is None or p[0] != "f":
            return None
        if ty.k != "adt" or ty.is_enum:
            return None
        if ty is hty or name is not None:
            name = ty.field_names(0)[p[1]]
            if name not in GUARDED:
                return None
        ty = ty.field_tys(0)[p[1]]
        if name is not None and name != "fields":
            return name
    return name


def check_public_parts(rep):
    for path, parts in (("header_struct::Header", ("message_type", "fields")),):
        t = the_adt(rep.prog, path)
        for fname, _, vis in t.variants[0]["f"]:
            if fname in parts:
                ob = "the %s of a header is not public" % fname
                if vis == "Public":
                    rep.bad("public:%s" % fname, "the %s of a header is public: anyone can take a required field away" % fname, ob)
                else:
                    rep.ok(ob)


def check_public(rep, it, inst, kind):
    prog = rep.prog
    hty = the_adt(prog, "header_struct::Header")
    kty = the_adt(prog, "MessageType")
    ob = "%s yields only complete headers%s" % (inst.short(), "" if kind is None else " (given a %s)" % kind)
    lay = decoder_env(rep)
    cuts = message_cuts(rep, lay)
    gt = api_fn(rep, r"Value::get_type$", "Value::get_type")
    if gt is None:
        return
    cuts[gt.id] = (cut_get_type, True)

    def setup(I, st, args):
        ins = []
        for a in args:
            headers_in(I, st, I.read(st, a) if isinstance(a, Ptr) else a, hty, ins)
        for h in ins:
            f = fields_of(h)
            st.facts.assume_variant(f["message_type"], frozenset([kty.variant_index(kind)]))
            fs = fields_of(f["fields"])
            for need in REQUIRED[kind]:
                o = fs[need]
                st.facts.assume_variant(o, frozenset([o.ty.variant_index("Some")]))
    try:
        I, args, rs = analyse(rep, inst, cuts=cuts, setup=setup if kind else None)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    n = 0
    good = True
    cells = {a.cell: I.celltype[a.cell] for a in args if isinstance(a, Ptr)}
    hands_out = has_mut(prog, prog.types[inst.body["locals"][0]])
    for r in rs:
        if r[0] == "panic":
            continue
        out = []
        if hands_out and good:
            for p in pointers(r[2]):
                part = guarded_part(cells.get(p.cell), p.path, hty)
                if part is not None:
                    good = False
                    rep.bad("writes:%s" % inst.short(), "%s hands out write access to the %s of a header, which is not "
                            "validated again" % (inst.short(), part), ob)
        headers_in(I, r[1], r[2], hty, out)
        for a in args:
            if isinstance(a, Ptr):
                headers_in(I, r[1], I.read(r[1], a), hty, out)
        for h in out:
            n += 1
            v, why = required_ok(r[1], h)
            if v is False and good:
                good = False
                rep.bad("complete:%s" % inst.short(), "%s can return a header that is not complete: %s" % (inst.short(), why), ob)
    rep.count("headers", n)
    if good:
        rep.ok(ob)


def check_C16(rep):
    rep.rule("Header::new accepts exactly the complete headers; every function a user can call returns only headers "
             "and messages that have the fields their message type requires, given that those it is passed have them")
    prog = rep.prog
    hty = the_adt(prog, "header_struct::Header")
    tasks = [(check_header_new,), (check_public_parts,)]
    n = 0
    for it, i in public_insts(rep):
        if it["der"] and it["name"].split("::")[-1] != "default":
            continue
        rt = prog.types[i.body["locals"][0]]
        ins = []
        mutated = False
        for k in range(i.body["argc"]):
            t = prog.types[i.body["locals"][k + 1]]
            while t.k == "ref":
                if t.d.get("m") and mentions(prog, t.elem, (hty,)):
                    mutated = True
                t = t.elem
            if mentions(prog, t, (hty,)):
                ins.append(t)
        if not (mentions(prog, rt, (hty,)) or mutated):
            continue
        n += 1
        kinds = ["MethodCall", "MethodReturn", "Error", "Signal"] if ins else [None]
        tasks += [(check_public, it, i, k) for k in kinds]
    parallel(rep, tasks)
    rep.floor("public functions returning messages", n, 20)
