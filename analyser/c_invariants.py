"""C17: values that only exist well-formed; C01: no public function panics."""
from c_codec import check_arg_make
from c_match import *
from c_names import NAMES, language, quoted, validators
from c_paths import is_element, is_root, setup_paths
from c_types import check_array_new, check_containers
from c_messages import public_insts
from lang import *
from par import parallel
from spec import report_panic
from sites import Sites

GRAMMAR = dict(NAMES, ObjectPath="path")
HELD = {"Interface": "value::interface::Interface", "Member": "value::member::Member", "Error": "value::error::Error",
        "UniqueConnectionName": "UniqueConnectionName", "WellKnownBusName": "WellKnownBusName", "ObjectPath": "ObjectPath",
        "Array": "container::Array", "Struct": "container::Struct", "Arg": "arg::Arg"}
# functions whose results other obligations (of this property or of C09, C14, C15) pin down completely
PINNED = [r"ObjectPath::append$", r"<[\w:]*ObjectPath as default::Default>::default$", r"container::Array::new$",
          r"container::Struct as .*TryFrom<.*>>::try_from$", r"Arg as convert::TryFrom<.*>>::try_from$",
          r"Message::(decode|decode_with_fds|encode|encode_with_fds)$", r"fields::Fields as .*TryFrom<.*>>::try_from$",
          r"From<.*fields::Fields>.*::from$", r"Value::get_type$", r"MatchRule.*::(try_from|decode)$"]


def only(rep, keep, fn, *args):
    """An obligation of another property, of which only some deviations break this one."""
    vio = rep.violations
    rep.violations = []
    try:
        fn(rep, *args)
    finally:
        got, rep.violations = rep.violations, vio
    for k, t in got:
        if keep(k):
            if all(k != k2 for k2, _ in rep.violations):
                rep.violations = rep.violations + [(k, t)]
        else:
            rep.count("deviations_of_other_properties")


def language_check(rep, inst, gname, maxlen):
    ob = "%s makes only texts of the %s grammar" % (inst.short(), gname)
    try:
        I, args, rs = analyse(rep, inst)
        language(rep, inst, gname, maxlen, ob, args, rs)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))


def makes_bad(k):
    return k.endswith((":accepts", ":length", ":value"))


def check_append_keeps(rep):
    """The path afterwards is the one before, or that with the element at its end."""
    def before(I, a):
        return seq_of(mk_sym(mk("in", ("a0",), I.celltype[a[0].cell]), I.celltype[a[0].cell]))

    def spec(s, I, a):
        old, new = before(I, a), seq_of(a[1])
        if not is_element(s, new):
            raise SpecErr("the text is no element of a path")
        return (old.cat(new) if is_root(s, old) else old.cat(bytes_seq(b"/")).cat(new),)

    def final(I, a, st, r):
        have = seq_of(I.read(st, a[0]))
        old = before(I, a)
        if isinstance(have, Seq) and starts_with_parts(have, old) and st.facts.decide(eqi(have.len(), old.len())):
            return None
        return (have,)
    fn_conform(rep, r"ObjectPath::append$", "ObjectPath::append", spec, final, setup=setup_paths, obs=["the path"])


def check_default_path(rep):
    fn_conform(rep, r"<[\w:]*ObjectPath as default::Default>::default$", "ObjectPath::default",
               lambda s, I, a: (bytes_seq(b"/"),), lambda I, a, st, r: (seq_of(r),), obs=["the path"])


# ---------------------------------------------------------------- where such values come from

def owners(rep, sites, adt):
    """{instance: how} of the functions that make a value of the type or get at its fields for writing."""
    out = {}
    for i, at in sites.made[adt.id]:
        out.setdefault(i, "makes one")
    for i, at, how in sites.opened[adt.id]:
        out.setdefault(i, how + " a part of one")
    return out


def pinned(i):
    return any(re.search(rx, i.key) for rx in PINNED)


class Origin:
    def __init__(self, rep):
        prog = rep.prog
        self.prog = prog
        self.item = {it["inst"]: it for it in prog.items if it["inst"] is not None}
        self.sites = Sites(prog)
        self.validators = {i.id for ty in GRAMMAR for i in validators(rep, ty)}

    def roots(self, i, seen=None):
        """Public functions that are not pinned and lead to instance i."""
        seen = set() if seen is None else seen
        if i.id in seen:
            return []
        seen.add(i.id)
        it = self.item.get(i.id)
        if i.id in self.validators or pinned(i) or it is not None and it["der"]:
            return []
        out = []
        if it is not None and it["reach"]:
            out.append(i)
        for c in sorted(self.sites.callers[i.id]):
            out += self.roots(self.prog.insts[c], seen)
        return out


def free_piece(st, args, held, q):
    """An argument's text in q that nothing on the path constrains."""
    for p in q.p:
        if p[0] != "sub" or not isinstance(p[1], T):
            continue
        base = p[1]
        root = base
        while root.op in ("fld", "deref"):
            if root.ty is not None and root.ty in held:
                return None
            root = root.args[0]
        if root.op != "in":
            continue
        if not any(known_about(l, base) for l in st.facts.log):
            f = st.facts.copy()
            if f.assume(lt(p[2], p[3]), True) and f.settle():
                return base
    return None


def known_about(x, base):
    """Does a fact say anything of the text but its length?"""
    if x is base:
        return True
    if isinstance(x, T):
        if x.op == "len" and x.args[0] is base:
            return False
        return any(known_about(y, base) for y in x.args)
    if isinstance(x, Seq):
        return any(known_about(y, base) for y in x.p)
    if isinstance(x, (Agg, Nat)):
        return any(known_about(y, base) for y in x.f)
    if isinstance(x, (Ref, BoxV)):
        return known_about(x.v, base)
    if isinstance(x, (tuple, list)):
        return any(known_about(y, base) for y in x)
    return False


def inside(I, st, v, adt, out):
    """Values of the type inside a result."""
    if isinstance(v, (Ref, BoxV)):
        inside(I, st, v.v, adt, out)
    elif isinstance(v, Agg):
        if v.ty is adt:
            out.append(v)
        else:
            for x in v.f:
                inside(I, st, x, adt, out)
    elif isinstance(v, Seq):
        for p in v.p:
            if p[0] == "lit":
                for x in p[1]:
                    inside(I, st, x, adt, out)


def gives_write(prog, inst, adt):
    """Is it given the value for writing, and does it hand out something to write with that is not the value itself?"""
    b = inst.body
    args = [prog.types[b["locals"][k + 1]] for k in range(b["argc"])]
    if not any(t.k == "ref" and t.d.get("m") and t.elem is adt for t in args):
        return False
    return writes(prog, prog.types[b["locals"][0]], adt)


def writes(prog, t, adt, seen=None):
    seen = set() if seen is None else seen
    if t.id in seen:
        return False
    seen.add(t.id)
    if t.k == "ref":
        return t.d.get("m") and t.elem is not adt
    if t.k == "adt":
        if re.search(r"(IterMut|DrainFilter|Drain|Mut)$", t.d["name"].split("::")[-1]):
            return True
        return any(writes(prog, x, adt, seen) for x in t.adt_args())
    if t.k == "tuple":
        return any(writes(prog, prog.types[f] if not hasattr(f, "k") else f, adt, seen) for f in t.d["f"])
    return False


def check_root(rep, o, name, adt, inst, how):
    prog = rep.prog
    ob = "%s (%s) yields only well-formed values of %s" % (inst.short(), how, name)
    if gives_write(prog, inst, adt):
        rep.bad("writes:%s" % inst.short(), "%s hands out write access to what is inside a value of %s, which is not validated "
                "again" % (inst.short(), name), ob)
        return
    held = {a for a in (the_adt(prog, n) for n in HELD.values()) if a is not None}
    try:
        I, args, rs = analyse(rep, inst, setup=setup_all)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    safe = True
    for r in rs:
        if r[0] == "panic" or not r[1].facts.settle():
            continue
        st = r[1]
        out = []
        inside(I, st, r[2], adt, out)
        for a in args:
            if isinstance(a, Ptr):
                inside(I, st, I.read(st, a), adt, out)
        loops = any(e[0] == "loop" for e in events_of(st))
        for v in out:
            why, sure = ill_formed(st, args, held, name, v, loops)
            if why is not None and sure:
                rep.bad("made:%s" % inst.short(), "%s makes a value of %s %s" % (inst.short(), name, why), ob)
                return
            safe = safe and why is None
    if safe and not any(isinstance(a, Ptr) for a in args):
        rep.ok(ob)
    else:
        rep.unsure(ob, "a function that is not specified %s" % how)


def ill_formed(st, args, held, name, v, loops):
    """(what is wrong with the value made or None, whether that is certain)"""
    def may(c):
        f = st.facts.copy()
        return f.assume(c, True) and f.settle()
    if name == "Struct":
        q = seq_of(v)
        if isinstance(q, Seq) and may(eqi(q.len(), 0)):
            return "that may have no members", not loops
        return None, False
    if name == "Arg":
        x = v.f[0]
        if not isinstance(x, (Seq, Agg)) and may(le(64, x)):
            return "with the index %s, which may be 64 or more" % brief(x), not loops
        return None, False
    for x in v.f:
        q = seq_of(x)
        base = free_piece(st, args, held, q) if isinstance(q, Seq) else None
        if base is not None and not loops:
            return "from %s, whatever that is" % brief(base), True
    if name not in GRAMMAR:
        return "that is not known to be well-typed", False
    q = seq_of(v)
    if not isinstance(q, Seq) or len(q.p) != 1 or q.p[0][0] != "sub" or not isinstance(q.p[0][1], T):
        return "from %s" % brief(q), False
    base = q.p[0][1]
    if not (st.facts.decide(eqi(q.p[0][2], 0)) and st.facts.decide(eqi(q.p[0][3], mk("len", (base,))))):
        return "from a part of %s" % brief(base), False
    g = GRAMMAR[name]
    ex = Extract(base)
    end = ex.path(st)
    lo, hi = len_window(st.facts, base)
    dfa = DFA(SPEC[g])
    for accepted, lo, hi in ((False, lo, hi), (True, max(lo, 256), hi)):
        if accepted and (g == "path" or hi < 256):
            continue
        w = search(ex, end, dfa, accepted, lo, hi)
        if w is not None:
            return "from %s" % quoted(w[0]), bool(w[1]) and not ex.notes
    return ("from %s" % brief(base), False) if ex.notes else (None, False)


def setup_all(I, st, a):
    for x in a:
        v = I.read(st, x) if isinstance(x, Ptr) else deref(x)
        if isinstance(v, (T, Agg)):
            assume_names(I, st, v)


def check_sites(rep):
    """Every place in the crate where such a value is made or can be changed lies in a function that validates."""
    prog = rep.prog
    o = Origin(rep)
    n = 0
    for name, path in HELD.items():
        adt = the_adt(prog, path)
        if adt is None:
            rep.anchor_missing(path)
            continue
        for fname, _, vis in adt.variants[0]["f"]:
            ob = "the part %s of %s is not public" % (fname, name)
            if vis == "Public":
                rep.bad("public:%s.%s" % (name, fname), "the part %s of %s is public: anyone can make or change a value "
                        "without validation" % (fname, name), ob)
            else:
                rep.ok(ob)
        for i, how in sorted(owners(rep, o.sites, adt).items(), key=lambda x: x[0].key):
            n += 1
            rs = o.roots(i)
            if not rs:
                rep.ok("%s %s of %s: derived, validating or only used by validating functions" % (i.short(), how, name))
            for r in rs:
                check_root(rep, o, name, adt, r, how)
        for it in prog.items:
            if it["generic"] and it["reach"] and not it["der"] and not it["expn"] and it["dk"] in ("Fn", "AssocFn"):
                rep.unsure("generic functions", "%s is generic and not analysed" % it["name"])
    rep.count("construction_sites", n)


def check_C17(rep):
    rep.rule("values of the validated types have no public parts; every place in the crate that makes one or writes to one lies "
             "in a derived or a validating function (or in a private one only used by those), and on each path of the validating "
             "functions the value made is well-formed, for every input")
    tasks = [(check_sites,)]
    n = 0
    for ty, g in GRAMMAR.items():
        vs = validators(rep, ty)
        n += len(vs)
        if not vs:
            rep.anchor_missing("TryFrom for " + ty)
        tasks += [(only, makes_bad, language_check, i, g, None if g == "path" else 255) for i in vs]
    rep.floor("validators", n, 21)
    lasting = lambda k: not k.endswith((":rejects", ":none")) and ":panic:" not in k
    struct = lambda k: lasting(k) and k.startswith("Struct::try_from")
    tasks += [(only, lasting, check_append_keeps), (only, lasting, check_default_path), (only, lasting, check_array_new),
              (only, struct, check_containers), (only, lambda k: lasting(k) and k.startswith("Arg::"), check_arg_make)]
    parallel(rep, tasks)


# ---------------------------------------------------------------- C01

def check_total(rep, inst):
    """A public function no other property is about."""
    ob = "%s does not panic" % inst.short()
    try:
        I, args, rs = analyse(rep, inst, setup=setup_all)
    except Unsupported as e:
        rep.unsure(ob, "%s at %s" % (e, getattr(e, "where", None)))
        return
    good = True
    if Interp.RANK:
        return
    for r in rs:
        if r[0] == "panic" and good:
            good = report_panic(rep, r, inst.short(), ob)
    if good:
        rep.ok(ob)


def check_others(rep):
    """The public functions no other property is about."""
    seen = set(rep.functions)
    tasks = []
    for it, i in public_insts(rep):
        if it["der"] or it["expn"] or it["unsafe"] or i.short() in seen:
            continue
        tasks.append((check_total, i))
    rep.floor("public functions", len(public_insts(rep)), 200)
    parallel(rep, tasks)


def check_C01(rep):
    rep.rule("no path of a public function ends in a panic (failed bounds check, arithmetic overflow, unwrap of nothing, "
             "explicit panic), for any input: panic edges are infeasible by the facts of the path")
    check_others(rep)


def check_C28(rep):
    rep.rule("every loop has a measure that each way around it brings nearer to a bound (lexicographically, per cycle of its "
             "control states); every recursive call is about a part of what its caller is about, or further on in the input")
    rep.assumptions.append("iterators of std over finite collections are finite")
    check_others(rep)


def check_C29(rep):
    rep.rule("on every path, the number of elements memory is reserved for in advance is at most %d or bounded by the length of "
             "something that is held already" % (1 << 16))
    rep.assumptions.append("library functions reserve no more than they are given")
    check_others(rep)
