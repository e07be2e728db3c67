"""C20, C21: match rules."""
from c_messages import *
from decspec import *


def rule_payload(s, rule):
    """(variant name, payloads) of a match rule."""
    k = s.variant(rule)
    n = len(rule.ty.field_tys(rule.ty.variant_index(k)))
    return k, [s.field(rule, i) for i in range(n)]


def member_of(v, i):
    """i-th field of a struct value."""
    v = deref(v)
    return expand(v).f[i] if isinstance(v, T) else v.f[i]


def name_text(v):
    return seq_of(v)


def texts_equal(s, a, b):
    return s.br(seq_eq(s.I, s.st, a, b))


def char_at_start(s, text, c):
    return s.br(lt(0, text.len())) and s.br(eqi(s.I.seq_get(s.st, text, 0), ord(c)))


def in_namespace(s, space, text, sep):
    """text is the namespace itself or continues it after a separator."""
    c, rest = starts_with(s.I, s.st, text, space)
    if not s.br(c):
        return 0
    if not s.br(lt(space.len(), text.len())):
        return 1
    if char_at_start(s, rest(), sep):
        return 1
    if s.br(lt(0, space.len())) and s.br(eqi(s.I.seq_get(s.st, space, sub(space.len(), 1)), ord(sep))):
        return 1
    return 0


def body_item(s, msg, i):
    body = seq_of(fields_of(msg)["body"])
    if not s.br(lt(i, body.len())):
        return None
    return s.I.seq_get(s.st, body, i)


def text_arg(s, msg, i, kinds):
    """The text of the i-th body value when it is of one of the kinds."""
    v = body_item(s, msg, i)
    if v is None or s.variant(v) not in kinds:
        return None
    return name_text(s.field(v, 0))


FIELD_OF = {"Sender": "sender", "Interface": "interface", "Member": "member", "Path": "path",
            "PathNamespace": "path", "Destination": "destination"}


def bus_equal(s, a, b):
    ka, kb = s.variant(a), s.variant(b)
    return int(ka == kb and texts_equal(s, name_text(s.field(a, 0)), name_text(s.field(b, 0))))


def rule_matches(s, rule, msg):
    """Does the message satisfy the rule? -> 0/1"""
    k, p = rule_payload(s, rule)
    p = [deref(x) for x in p]
    h = header_of(msg)
    if k == "Eavesdrop":
        return 1
    if k == "Type":
        return int(s.variant(p[0]) == s.variant(h["message_type"]))
    if k in FIELD_OF:
        have = opt(s, fields_of(h["fields"])[FIELD_OF[k]])
        if have is None:
            return 0
        if k == "Sender":
            return bus_equal(s, p[0], have)
        if k == "Destination":
            return int(s.variant(have) == "UniqueConnectionName"
                       and texts_equal(s, name_text(p[0]), name_text(s.field(have, 0))))
        if k == "PathNamespace":
            return in_namespace(s, name_text(p[0]), name_text(have), "/")
        return int(texts_equal(s, name_text(p[0]), name_text(have)))
    if k == "Arg0Namespace":
        t = text_arg(s, msg, 0, ("String",))
        return 0 if t is None else in_namespace(s, name_text(p[0]), t, ".")
    i, want = member_of(p[0], 0), name_text(member_of(p[0], 1))
    if k == "Arg":
        t = text_arg(s, msg, i, ("String",))
        return 0 if t is None else int(texts_equal(s, want, t))
    if k == "ArgPath":
        t = text_arg(s, msg, i, ("String", "ObjectPath"))
        return 0 if t is None else in_namespace(s, want, t, "/")
    raise Undecided("an unknown kind of match rule: %s" % k)


RULES = ("Type", "Sender", "Interface", "Member", "Path", "PathNamespace", "Destination", "Arg", "ArgPath",
         "Arg0Namespace", "Eavesdrop")


def assume_variant(name):
    def setup(I, st, a):
        v = deref(a[0])
        i = v.ty.variant_index(name)
        assert i is not None
        st.facts.assume_variant(v, frozenset([i]))
        for p in [sym_field(v, i, k) for k in range(len(v.ty.field_tys(i)))]:
            assume_names(I, st, p)
    return setup


def assume_names(I, st, v):
    """Names are not empty, object paths start with a slash and only the root ends with one, and exactly the
    unique names start with a colon (C04, C05)."""
    ty = v.ty if isinstance(v, (T, Agg)) else None
    if ty is None or ty.k != "adt" or ty.is_enum:
        return
    n = ty.d["name"].split("::")[-1]
    if n in ("Interface", "Member", "ObjectPath", "Error", "UniqueConnectionName", "WellKnownBusName"):
        q = seq_of(v)
        st.facts.assume(lt(0, q.len()), True)
        if n == "ObjectPath":
            st.facts.assume(eqi(I.seq_get(st, q, 0), 47), True)
        if n in ("UniqueConnectionName", "WellKnownBusName"):
            st.facts.assume(eqi(I.seq_get(st, q, 0), 58), n == "UniqueConnectionName")
    else:
        for x in (expand(v) if isinstance(v, T) else v).f:
            assume_names(I, st, x)


def is_below(I, st, inst, a, dty, site):
    """ObjectPath::starts_with as C25 has it: the base is a proper prefix, up to an element."""
    path, base = seq_of(a[0]), seq_of(a[1])
    if I.decide(st, eqi(base.len(), 1)):
        return [(st, lt(1, path.len()))]
    c, rest = starts_with(I, st, path, base)
    if not I.decide(st, c) or not I.decide(st, lt(base.len(), path.len())):
        return [(st, 0)]
    return [(st, eqi(I.seq_get(st, rest(), 0), 47))]


def path_cuts(prog):
    out = dict(name_cuts(prog))
    for i in prog.insts.values():
        if i.local and i.body is not None and re.search(r"ObjectPath::starts_with$", i.key):
            out[i.id] = (is_below, True)
    return out


def check_rule(rep, kind):
    fn_conform(rep, r"MatchRule::matching_rule$", "MatchRule::matching_rule for " + kind,
               lambda s, I, a: (rule_matches(s, deref(a[0]), deref(a[1])),), setup=assume_variant(kind),
               cuts=path_cuts(rep.prog))


def matches(I, rule, msg):
    return mk("b", ("matches", reify(deref(rule)), reify(deref(msg))), boolty(I))


def check_all_rules(rep):
    one_ = api_fn(rep, r"MatchRule::matching_rule$", "MatchRule::matching_rule")
    if one_ is None:
        return
    cuts = dict(name_cuts(rep.prog))
    cuts[one_.id] = (lambda I, st, inst, a, dty, site: [(st, matches(I, a[0], a[1]))], True)

    def spec(s, I, a):
        rules = seq_of(a[0])

        def step(s2, lv):
            if not s2.br(lt(lv.idx, rules.len())):
                return ("done", 1)
            if not s2.br(matches(I, s2.I.seq_get(s2.st, rules, lv.idx), a[1])):
                return ("done", 0)
            return ("next", lv.but(idx=add(lv.idx, 1)))
        return (s.loop(LoopVars(idx=0), step, "rule")[1],)
    fn_conform(rep, r"MatchRule::matching_rules$", "MatchRule::matching_rules", spec, cuts=cuts)


def check_C20(rep):
    rep.rule("each path of the matching functions answers, for every rule and message, what the match rule means")
    tasks = [(check_rule, k) for k in RULES] + [(check_all_rules,)]
    parallel(rep, tasks)
    rep.floor("kinds of rules", len(RULES), 11)
