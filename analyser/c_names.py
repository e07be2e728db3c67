"""C04 / C05: the accepted languages of the validated name types."""
from common import *
from lang import *
from par import parallel
from spec import report_panic

NAMES = {"Interface": "interface", "Member": "member", "Error": "error", "UniqueConnectionName": "unique",
         "WellKnownBusName": "wellknown", "Bus": "bus"}


def validators(rep, tyname):
    """Every TryFrom<_> for the name type."""
    out = []
    for i in rep.prog.find(r"(^|[<: ])%s as std::convert::TryFrom<" % tyname):
        if i.local and i.body is not None and i.name.endswith("::try_from"):
            self_ty = i.name.split(" as ")[0]
            if not re.search(r"(^|::|<)%s$" % tyname, self_ty):
                continue
            if tyname == "Error" and "value::" not in i.name:
                continue
            out.append(i)
    return out


def language_check(rep, inst, gname, maxlen):
    """Language of the accepting / rejecting paths of `inst` against the grammar."""
    ob = "%s accepts exactly the %s grammar" % (inst.short(), gname)
    try:
        I, args, rs = analyse(rep, inst)
        language(rep, inst, gname, maxlen, ob, args, rs)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))


def language(rep, inst, gname, maxlen, ob, args, rs):
    a = seq_of(args[0])
    base = a.p[0][1]
    ex = Extract(base)
    dfa = DFA(SPEC[gname])
    good = True
    acc = rej = 0
    found = []
    pan = []
    for r in rs:
        if r[0] == "panic":
            pan.append(r)
            continue
        v = r[2]
        end = ex.path(r[1])
        lo, hi = len_window(r[1].facts, base)
        which = variant_name(v)
        if which is None:
            rep.unsure(ob, "result %r" % (v,))
            return
        acc += which == "Ok"
        rej += which != "Ok"
        found.append((r, which, end, lo, hi))
    rep.count("accepting_paths", acc)
    rep.count("rejecting_paths", rej)

    def wrong(w, key, text):
        if w is None:
            return True
        if ex.notes:
            rep.unsure(ob, ex.notes[0])
        elif not w[1]:
            rep.unsure(ob, "a path that may be taken by %s" % quoted(w[0]))
        else:
            rep.bad("%s:%s" % (inst.short(), key), text(quoted(w[0])), ob)
        return False

    for r in pan:
        # only what some text can lead to
        end = ex.path(r[1])
        lo, hi = len_window(r[1].facts, base)
        ws = [search(ex, end, dfa, w, lo, hi) for w in (True, False)]
        if ws == [None, None]:
            continue
        good = report_panic(rep, r, inst.short(), ob) and good
    for r, which, end, lo, hi in found:
        v = r[2]
        if which == "Ok":
            good = wrong(search(ex, end, dfa, False, lo, hi), "accepts", lambda w: "%s accepts %s, which the %s grammar rejects"
                         % (inst.short(), w, gname)) and good
            if maxlen is not None and hi > maxlen:
                good = wrong(search(ex, end, dfa, True, max(lo, maxlen + 1), hi), "length", lambda w: "%s accepts names of more than %d bytes"
                             % (inst.short(), maxlen)) and good
            if not keeps(v, base, gname, r[1]):
                ws = [w for w in (search(ex, end, dfa, b, lo, hi) for b in (True, False)) if w is not None]
                if not ws:
                    continue
                good = False
                if ex.notes or not any(w[1] for w in ws):
                    rep.unsure(ob, "%s returns Ok with %r" % (inst.short(), v))
                    continue
                rep.bad("%s:value" % inst.short(), "%s returns Ok with %r, which is not the text it was given"
                        % (inst.short(), v), ob)
        else:
            top = min(hi, maxlen) if maxlen is not None else hi
            f = r[1].facts.copy()
            if f.assume(le(mk("len", (base,)), top), True) and f.settle():
                good = wrong(search(ex, end, dfa, True, lo, top), "rejects", lambda w: "%s rejects %s (%s), which the %s grammar accepts"
                             % (inst.short(), w, variant_name(v.f[0]) if isinstance(v.f[0], Agg) else "error", gname)) and good
    if acc == 0 and rs:
        rep.bad("%s:none" % inst.short(), "%s accepts nothing" % inst.short(), ob)
        good = False
    if good and ex.notes:
        rep.unsure(ob, ex.notes[0])
    elif good:
        rep.ok(ob)


def quoted(w):
    return "%r%s" % (word(w)[:60], "…(%d bytes)" % len(w) if len(w) > 60 else "")


def keeps(v, base, gname, st):
    """The Ok payload carries exactly the input text (and the right Bus variant)."""
    x = v.f[0]
    if gname == "bus":
        if not (isinstance(x, Agg) and x.ty.is_enum):
            return False
        x = x.f[0]
    s = seq_of(x)
    if not isinstance(s, Seq):
        return False
    if len(s.p) == 1 and s.p[0][0] == "sub" and s.p[0][1] is base and st.facts.decide(eqi(s.p[0][2], 0)) \
            and st.facts.decide(eqi(s.p[0][3], mk("len", (base,)))):
        return True
    return False


def check_C04(rep):
    rep.rule("for every conversion into a name type, the language of byte strings reaching an Ok return "
             "(extracted as a finite automaton from the interpreted CFG, loops as automaton cycles) equals the "
             "D-Bus grammar automaton intersected with length <= 255, and the Ok value is the input text")
    tasks = []
    for ty, g in NAMES.items():
        vs = validators(rep, ty)
        if not vs:
            rep.anchor_missing("TryFrom for " + ty)
        for i in vs:
            tasks.append((language_check, i, g, 255))
    rep.floor("validators", len(tasks), 18)
    parallel(rep, tasks)


def check_C05(rep):
    rep.rule("for every conversion into ObjectPath, the language of byte strings reaching an Ok return equals the "
             "D-Bus object path grammar automaton (no length bound), and the Ok value is the input text")
    vs = validators(rep, "ObjectPath")
    rep.floor("validators", len(vs), 3)
    parallel(rep, [(language_check, i, "path", None) for i in vs])
