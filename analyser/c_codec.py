"""C21, C22: match rules as text."""
from c_match import *

QUOTE, COMMA, BACK, EQUAL = 39, 44, 92, 61


def str_fn(rep, what, name, rets):
    """The local function over one text of that name and result."""
    for i in rep.prog.insts.values():
        if i.local and i.body is not None and i.body["argc"] == 1 and re.search(r"match_rule::.*\b%s$" % name, i.key) \
                and rets(rep.prog.types[i.body["locals"][0]]):
            return i
    return None


def ok_of(t):
    return t.field_tys(t.variant_index("Ok"))[0] if t.k == "adt" and t.d["name"].endswith("result::Result") else None


def private(rep, ob, inst):
    """A private helper; its absence only leaves the obligation undecided."""
    if inst is None:
        rep.unsure(ob, "the private function this is decided on is gone")
    return inst


def run(rep, inst, what, spec, final=None, cuts=None, obs=None, setup=None, args=None):
    ob = "%s does what is specified" % what
    if private(rep, ob, inst) is None:
        return
    try:
        I, args, rs = analyse(rep, inst, cuts=cuts or {}, setup=setup, args=args)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return

    def fin(s, st, r):
        if final is None:
            return (r,)
        st = st.copy()
        st.facts = s.facts
        return final(I, args, st, r)
    conform(rep, ob, I, rs, lambda s: spec(s, I, args), fin, what, what, obs)


# ---- characters of a text

def char_at(s, text, i):
    """(char, position behind it) at byte i, or None at the end."""
    rest = s.I.seq_split(s.st, text, i)[1]
    if not s.br(lt(i, text.len())):
        return None
    c, r = next_char(s.I, s.st, rest)
    return c, sub(text.len(), r.len())


def is_char(s, c, x):
    return s.br(eqi(c, x))


def put(s, seq, c):
    return push_char(s.I, s.st, seq, c)


def unescape_spec(s, text):
    """Text with the quoting removed."""
    def step(s2, lv):
        n = char_at(s2, text, lv.idx)
        out = lv.seqs["text"]
        if n is None:
            if lv.state == "quoted":
                raise SpecErr("a quote is not closed")
            return ("done", put(s2, out, BACK) if lv.state == "back" else out)
        c, nxt = n
        state = lv.state
        if state == "plain":
            if is_char(s2, c, BACK):
                state = "back"
            elif is_char(s2, c, QUOTE):
                state = "quoted"
            else:
                out = put(s2, out, c)
        elif state == "quoted":
            if is_char(s2, c, QUOTE):
                state = "plain"
            else:
                out = put(s2, out, c)
        elif is_char(s2, c, BACK):
            out = put(s2, out, BACK)
        elif is_char(s2, c, QUOTE):
            out, state = put(s2, out, QUOTE), "plain"
        else:
            out, state = put(s2, put(s2, out, BACK), c), "plain"
        return ("next", lv.but(idx=nxt, state=state, seqs={"text": out}))
    return s.loop(LoopVars(idx=0, seqs={"text": Seq()}, state="plain"), step, "character")[1]


def text_result(I, a, st, r):
    return (seq_of(r.f[0]),) if is_ok(r) else None


def unescape_fn(rep):
    return str_fn(rep, "unescape", "unescape", lambda t: ok_of(t) is not None and ok_of(t).s.endswith("String"))


def escape_fn(rep):
    return str_fn(rep, "escape", "escape", lambda t: t.s.endswith("String"))


def check_unescape(rep):
    run(rep, unescape_fn(rep), "removing the quoting of a value", lambda s, I, a: (unescape_spec(s, seq_of(a[0])),),
        text_result, obs=["the text"])


def check_escape(rep):
    def spec(s, I, a):
        text = seq_of(a[0])

        def step(s2, lv):
            n = char_at(s2, text, lv.idx)
            if n is None:
                return ("done", lv.seqs["text"])
            c, nxt = n
            out = lv.seqs["text"]
            for ch, t in ((QUOTE, "\\'"), (COMMA, "','"), (BACK, "'\\'")):
                if is_char(s2, c, ch):
                    return ("next", lv.but(idx=nxt, seqs={"text": out.cat(bytes_seq(t.encode()))}))
            return ("next", lv.but(idx=nxt, seqs={"text": put(s2, out, c)}))
        return (s.loop(LoopVars(idx=0, seqs={"text": Seq()}), step, "character")[1],)
    run(rep, escape_fn(rep), "quoting a value", spec, lambda I, a, st, r: (seq_of(r),), obs=["the text"])


# ---- where a rule ends

def position_fn(rep):
    return str_fn(rep, "position", "next_position", lambda t: ok_of(t) is not None and ok_of(t).s == "usize")


def word(s, c):
    for a, b in ((48, 57), (65, 90), (97, 122)):
        if s.br(le(a, c)) and s.br(le(c, b)):
            return True
    return s.br(eqi(c, 95))


def end_spec(s, text):
    """Position of the comma that ends the first rule, or the length of the text."""
    def step(s2, lv):
        n = char_at(s2, text, lv.idx)
        st = lv.state
        if n is None:
            if st in ("start", "key"):
                raise SpecErr("there is no complete key")
            if st == "quoted":
                raise SpecErr("a quote is not closed")
            return ("done", text.len())
        c, nxt = n
        if st in ("start", "key"):
            if word(s2, c):
                st = "key"
            elif st == "key" and is_char(s2, c, EQUAL):
                st = "value"
            else:
                raise SpecErr("the key is malformed")
        elif st == "quoted":
            if is_char(s2, c, QUOTE):
                st = "value"
        elif is_char(s2, c, BACK):
            st = "back"
        elif is_char(s2, c, COMMA):
            return ("done", lv.idx)
        elif st == "value" and is_char(s2, c, QUOTE):
            st = "quoted"
        else:
            st = "value"
        return ("next", lv.but(idx=nxt, state=st))
    return s.loop(LoopVars(idx=0, state="start"), step, "character")[1]


def check_position(rep):
    run(rep, position_fn(rep), "finding the end of a rule", lambda s, I, a: (end_spec(s, seq_of(a[0])),),
        lambda I, a, st, r: (r.f[0],) if is_ok(r) else None, obs=["the position"])


# ---- one rule

def rule_fn(rep):
    return api_fn(rep, r"<[\w:]*MatchRule as convert::TryFrom<&str>>::try_from$", "TryFrom<&str> for MatchRule")


def cut_unescape(I, st, inst, a, dty, site):
    t = S(I, st, a[0])
    rty = ret_ty(I, inst)
    if I.decide(st, valid(I, "quoting", t)):
        return [(st, Agg(rty, rty.variant_index("Ok"), [plain_text(I, inst, t)]))]
    ety = rty.field_tys(rty.variant_index("Err"))[0]
    return [(st, Agg(rty, rty.variant_index("Err"), [mk_sym(mk("quoteerr", (reify(t),), ety), ety)]))]


def plain_text(I, inst, t):
    sty = ok_of(ret_ty(I, inst))
    return full(mk("unquoted", (reify(t),), sty))


TYPES = (("method_call", "MethodCall"), ("method_return", "MethodReturn"), ("error", "Error"), ("signal", "Signal"))
NAMED = (("sender", "Sender", "bus"), ("interface", "Interface", "interface"), ("member", "Member", "member"),
         ("path", "Path", "path"), ("path_namespace", "PathNamespace", "path"), ("destination", "Destination", "unique"))


def is_text(s, seq, t):
    return texts_equal(s, seq, bytes_seq(t.encode()))


def rule_spec(s, rty, text, unq):
    """The match rule a text `key=value` denotes."""
    def made(kind, *f):
        return Agg(rty, rty.variant_index(kind), f)

    def fty(kind, i=0):
        return rty.field_tys(rty.variant_index(kind))[i]

    def name(ty, kind, t):
        s.require(valid(s.I, kind, t), "the value is not a valid %s" % kind)
        return name_value(s.I, ty, kind, t)

    def index(t):
        s.require(lt(0, t.len()), "the index is missing")
        s.require(parses(s.I, t), "the index is not a number")
        i = parsed(s.I, t)
        s.require(lt(i, 64), "the index is too big")
        return i
    r = find_delim(s.I, s.st, text, EQUAL)
    if r is None:
        raise SpecErr("there is no equal sign")
    key, raw = r

    def value():
        return unq(s, raw)
    if is_text(s, key, "type"):
        v = value()
        for t, kind in TYPES:
            if is_text(s, v, t):
                return made("Type", Agg(fty("Type"), fty("Type").variant_index(kind), ()))
        raise SpecErr("the message type is unknown")
    for t, kind, grammar in NAMED:
        if is_text(s, key, t):
            return made(kind, name(fty(kind), grammar, value()))
    if is_text(s, key, "eavesdrop"):
        v = value()
        if is_text(s, v, "true"):
            return made("Eavesdrop", 1)
        if is_text(s, v, "false"):
            return made("Eavesdrop", 0)
        raise SpecErr("eavesdrop is neither true nor false")
    if is_text(s, key, "arg0namespace"):
        return made("Arg0Namespace", name(fty("Arg0Namespace"), "interface", value()))
    c, rest = starts_with(s.I, s.st, key, bytes_seq(b"arg"))
    if not s.br(c):
        raise SpecErr("the key is unknown")
    rest = rest()
    n = rest.len()
    if s.br(le(4, n)):
        h, t = s.I.seq_split(s.st, rest, sub(n, 4))
        if is_text(s, t, "path"):
            i = index(h)
            ty = fty("ArgPath")
            return made("ArgPath", Agg(ty, 0, [i, name(ty.field_tys(0)[1], "path", value())]))
    i = index(rest)
    return made("Arg", Agg(fty("Arg"), 0, [i, value()]))


def check_rule_text(rep):
    inst = rule_fn(rep)
    if inst is None:
        return
    u = unescape_fn(rep)
    cuts = dict(name_cuts(rep.prog))
    if u is not None:
        cuts[u.id] = (cut_unescape, True)

    def unq(s, t):
        if u is None:
            return unescape_spec(s, t)
        s.require(valid(s.I, "quoting", t), "the quoting of the value is malformed")
        return plain_text(s.I, u, t)
    rty = the_adt(rep.prog, "MatchRule")
    run(rep, inst, "parsing one rule", lambda s, I, a: (rule_spec(s, rty, seq_of(a[0]), unq),),
        lambda I, a, st, r: (r.f[0],) if is_ok(r) else None, cuts, obs=["the rule"])


# ---- the rules of a text

def rule_end(I, st, text):
    """Where the first rule of the text ends (the contract of the private function)."""
    u = I.prog.usize
    p = mk("ruleend", (reify(text),), u)
    f = st.facts
    ok = f.assume(le(0, p), True) and f.assume(le(p, text.len()), True)
    if ok and not I.decide(st, eqi(p, text.len())):
        f.assume(eqi(I.seq_get(st, text, p), COMMA), True)
    return p


def cut_position(I, st, inst, a, dty, site):
    t = S(I, st, a[0])
    rty = ret_ty(I, inst)
    if I.decide(st, valid(I, "first rule", t)):
        return [(st, Agg(rty, rty.variant_index("Ok"), [rule_end(I, st, t)]))]
    ety = rty.field_tys(rty.variant_index("Err"))[0]
    return [(st, Agg(rty, rty.variant_index("Err"), [mk_sym(mk("enderr", (reify(t),), ety), ety)]))]


def rule_of(inst, prog, t):
    ty = ok_of(prog.types[inst.body["locals"][0]])
    return mk_sym(mk("ruleof", (reify(t),), ty), ty)


def cut_rule(I, st, inst, a, dty, site):
    t = S(I, st, a[0])
    rty = ret_ty(I, inst)
    if I.decide(st, valid(I, "rule", t)):
        return [(st, Agg(rty, rty.variant_index("Ok"), [rule_of(inst, I.prog, t)]))]
    ety = rty.field_tys(rty.variant_index("Err"))[0]
    return [(st, Agg(rty, rty.variant_index("Err"), [mk_sym(mk("ruleerr", (reify(t),), ety), ety)]))]


def first_rule(s, text):
    """-> (text of the first rule, text behind it and its comma)"""
    s.require(valid(s.I, "first rule", text), "the text does not start with a rule")
    p = rule_end(s.I, s.st, text)
    h, t = s.I.seq_split(s.st, text, p)
    if s.br(lt(0, t.len())):
        t = s.I.seq_split(s.st, t, 1)[1]
    return h, t


def check_decode(rep):
    pos, rule = position_fn(rep), rule_fn(rep)
    ob = "MatchRule::decode does what is specified"
    if private(rep, ob, pos) is None or rule is None:
        return
    cuts = {pos.id: (cut_position, True), rule.id: (cut_rule, True)}

    def spec(s, I, a):
        def step(s2, lv):
            text = lv.free["rest of the text"]
            if not s2.br(lt(0, text.len())):
                return ("done", lv.acc)
            h, t = first_rule(s2, text)
            s2.require(valid(s2.I, "rule", h), "a rule is malformed")
            return ("next", lv.but(acc=lv.acc.cat(bytes_seq([rule_of(rule, rep.prog, h)])), free={"rest of the text": t}))
        return (s.loop(LoopVars(free={"rest of the text": seq_of(a[0])}, acc=Seq()), step, "rule")[1],)
    fn_conform(rep, r"MatchRule::decode$", "MatchRule::decode", spec,
               lambda I, a, st, r: (seq_of(r.f[0]),) if is_ok(r) else None, cuts, obs=["the rules"])


# ---- rules as text

def text_of(I, rule):
    return full(mk("ruletext", (reify(deref(rule)),), I.prog.by_s["str"]))


def fmt_args(inst):
    def args(I, st):
        v = sym_args(I, st, inst)
        sink = I.new_cell(st, Seq())
        f = I.new_cell(st, Nat("fmtr", Ptr(sink)))
        return [v[0], Ptr(f), Ptr(sink)]
    return args


class Fmt:
    """Analysis of a Display::fmt: a[0] the value, the text is what it writes."""

    def __init__(self, inst):
        self.inst = inst
        self.sink = None

    def args(self, I, st):
        v = sym_args(I, st, self.inst)
        self.sink = Ptr(I.new_cell(st, Seq()))
        return [v[0], Ptr(I.new_cell(st, Nat("fmtr", self.sink)))]

    def final(self, I, a, st, r):
        return (I.read(st, self.sink),) if is_ok(r) else None


def fmt_conform(rep, owner, what, spec, cuts=None, setup=None):
    inst = api_fn(rep, r"<[\w:]*\b%s as fmt::Display>::fmt$" % owner, "Display of " + owner)
    if inst is not None:
        f = Fmt(inst)
        run(rep, inst, what, spec, f.final, cuts, obs=["the text"], args=f.args, setup=setup)


def cut_escape(I, st, inst, a, dty, site):
    return [(st, quoted(I, S(I, st, a[0])))]


def quoted(I, t):
    return full(mk("quoted", (reify(t),), I.prog.by_s["str"]))


def escape_cuts(rep):
    e = escape_fn(rep)
    return {e.id: (cut_escape, True)} if e is not None else {}


def lit(t):
    return bytes_seq(t.encode())


def number(I, s, x):
    t = full(mk("dec", (x,), I.prog.by_s["str"]))
    return lit(str(x)) if isinstance(x, int) else t


def rule_text(s, I, rule, esc):
    k, p = rule_payload(s, rule)
    p = [deref(x) for x in p]
    if k == "Type":
        want = dict((b, a) for a, b in TYPES)
        return lit("type=" + want[s.variant(p[0])])
    if k == "Eavesdrop":
        return lit("eavesdrop=" + ("true" if s.br(p[0]) else "false"))
    if k in ("Arg", "ArgPath"):
        i, v = member_of(p[0], 0), name_text(member_of(p[0], 1))
        return lit("arg").cat(number(I, s, i)).cat(lit("=" if k == "Arg" else "path=")).cat(esc(I, v) if k == "Arg" else v)
    if k == "Sender":
        s.variant(p[0])
        return lit("sender=").cat(name_text(s.field(p[0], 0)))
    key = {"Arg0Namespace": "arg0namespace"}.get(k) or [a for a, b, _ in NAMED if b == k][0]
    return lit(key + "=").cat(name_text(p[0]))


def check_rule_display(rep, kind):
    cuts = escape_cuts(rep)
    esc = quoted
    if not cuts:
        rep.unsure("the text of a rule of kind " + kind, "the private function that quotes is gone")
        return
    fmt_conform(rep, "MatchRule", "the text of a rule of kind " + kind,
                lambda s, I, a: (rule_text(s, I, deref(a[0]), esc),), cuts, assume_variant(kind))


def check_encode(rep):
    inst = api_fn(rep, r"<[\w:]*MatchRule as fmt::Display>::fmt$", "Display of MatchRule")
    if inst is None:
        return

    def cut(I, st, i, a, dty, site):
        sink = fmt_sink(I, st, a[1])
        t = text_of(I, D(I, st, a[0]))
        st.facts.assume(le(5, t.len()), True)       # "type=" is the shortest beginning (see the texts of the rules)
        I.write(st, sink, I.read(st, sink).cat(t))
        return [(st, fmt_ok(I, dty))]

    def spec(s, I, a):
        rules = seq_of(a[0])
        if not s.br(lt(0, rules.len())):
            return (Seq(),)

        def step(s2, lv):
            if not s2.br(lt(lv.idx, rules.len())):
                return ("done", lv.acc)
            t = text_of(s2.I, s2.I.seq_get(s2.st, rules, lv.idx))
            return ("next", lv.but(idx=add(lv.idx, 1), acc=lv.acc.cat(lit(",")).cat(t)))
        return (s.loop(LoopVars(idx=1, acc=text_of(s.I, s.I.seq_get(s.st, rules, 0))), step, "rule")[1],)
    fn_conform(rep, r"MatchRule::encode$", "MatchRule::encode", spec,
               lambda I, a, st, r: (seq_of(r),), {inst.id: (cut, True)}, obs=["the text"])


# ---- the argument rules

def check_arg_make(rep):
    def make(s, I, a):
        v = deref(a[0])
        v = expand(v) if isinstance(v, T) else v
        s.require(lt(v.f[0], 64), "the index is too big")
        return (Agg(the_adt(rep.prog, "arg::Arg"), 0, [v.f[0], seq_of(v.f[1])]),)
    fn_conform(rep, r"<[\w:]*\bArg as convert::TryFrom<\(usize, .*String\)>>::try_from$", "Arg::try_from", make,
               lambda I, a, st, r: (r.f[0],) if is_ok(r) else None)

    def make_path(s, I, a):
        v = deref(a[0])
        v = expand(v) if isinstance(v, T) else v
        return (Agg(the_adt(rep.prog, "ArgPath"), 0, list(v.f)),)
    fn_conform(rep, r"<[\w:]*ArgPath as convert::From<\(usize, .*ObjectPath\)>>::from$", "ArgPath::from", make_path)


def check_arg_get(rep):
    for owner, tail in (("arg::Arg", ""), ("ArgPath", "path")):
        fn_conform(rep, r"%s::get_index$" % owner, owner + "::get_index", lambda s, I, a: (member_of(a[0], 0),))
        fn_conform(rep, r"%s::get_value$" % owner, owner + "::get_value", lambda s, I, a: (name_text(member_of(a[0], 1)),),
                   lambda I, a, st, r: (seq_of(r),))


def check_arg_text(rep):
    for owner, tail in (("arg::Arg", ""), ("ArgPath", "path")):
        fn_conform(rep, r"%s::get_key$" % owner, owner + "::get_key",
                   lambda s, I, a, tail=tail: (lit("arg").cat(number(I, s, member_of(a[0], 0))).cat(lit(tail)),),
                   lambda I, a, st, r: (seq_of(r),))
    cuts = escape_cuts(rep)
    if cuts:
        fmt_conform(rep, "arg::Arg", "the text of an argument", lambda s, I, a: (quoted(I, name_text(member_of(a[0], 1))),), cuts)
    fmt_conform(rep, "ArgPath", "the text of a path argument", lambda s, I, a: (name_text(member_of(a[0], 1)),))


def check_C21(rep):
    rep.rule("each path of the parser of match rules, for every text, is a step of the specified automata (quoting, end of a "
             "rule) and of the table of keys")
    parallel(rep, [(check_unescape,), (check_position,), (check_rule_text,), (check_decode,), (check_arg_make,), (check_arg_get,)])


def check_C22(rep):
    rep.rule("each path of the printer of match rules writes, for every rule, the text specified; the quoting is a step of the "
             "specified transducer for every character")
    rep.assumptions.append("the quoting transducer is inverse to the unquoting one: every piece it writes leads the unquoting "
                           "from its start state back to it and yields the character (three cases, see DESIGN.md)")
    tasks = [(check_escape,), (check_encode,), (check_arg_text,)] + [(check_rule_display, k) for k in RULES]
    parallel(rep, tasks)
    rep.floor("kinds of rules", len(RULES), 11)
