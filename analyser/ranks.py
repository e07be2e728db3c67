"""Loops come to an end and memory is not asked for in advance.

Every loop of an analysis (the record of what an iteration makes of the values
that change) needs a measure: a number that each way around the loop brings
nearer to a bound.  Where one way around may leave everything as it is, the
loop need not end.
"""
from common import *
import witness
from spec import brief, mentions_op, phis_of

RESERVE_FREE = 1 << 16


def features(v, at=(), out=None):
    """The numbers in a value: {where: (kind, term)}."""
    out = {} if out is None else out
    if isinstance(v, (int, T)):
        if isinstance(v, T) and v.ty is not None and v.ty.k in ("adt", "tuple"):
            if is_seq_ty(v.ty):
                out[at] = ("len", mk("len", (v,)))
            elif not v.ty.is_enum:
                e = expand(v)
                if isinstance(e, Agg):
                    features(e, at, out)
            return out
        out[at] = ("int", v)
    elif isinstance(v, Seq):
        out[at] = ("len", v.len())
        if len(v.p) == 1 and v.p[0][0] == "sub":
            out[at + ("lo",)] = ("int", v.p[0][2])
    elif isinstance(v, (Agg, Nat)):
        for i, x in enumerate(v.f):
            features(x, at + (i,), out)
    elif isinstance(v, (Ref, BoxV)):
        features(v.v, at + ("*",), out)
    return out


def moves(f, before, after, kind):
    """How a way around the loop changes a number: 1 (grows), -1 (falls), 0 (stays), None."""
    try:
        d = f.simp(sub(after, before))
    except (TypeError, AttributeError):
        return None
    if isinstance(d, int):
        return (d > 0) - (d < 0)
    if f.decide(ge0(sub(d, 1))) is True:
        return 1
    if f.decide(ge0(sub(-1, d))) is True:
        return -1
    if f.decide(eqi(d, 0)) is True:
        return 0
    up = f.decide(ge0(d)) is True
    down = f.decide(ge0(scale(d, -1))) is True
    return ">=" if up else "<=" if down else None


def bounded(f, x, top):
    """A bound that does not change in the loop (top: from above)."""
    phis = phis_of(x)
    if not phis:
        return True
    for lo, hi in f.ranges(x)[-1:] if top else f.ranges(x)[:1]:
        full_ = x.ty.int_range() if isinstance(x, T) and x.ty is not None and x.ty.int_range() else None
        if top and hi < INF and (full_ is None or hi < full_[1]) and hi < 1 << 62:
            return True
        if not top and lo > -INF:
            return True
    for l in f.lins:
        r = add(l, x) if top else sub(l, x)
        if isinstance(r, int) or not phis_of(r) & phis:
            return True
    return False


def ways(rec):
    """[(from, to, facts, {feature: (kind, before, after)})] of the ways around the loop."""
    out = []
    locs = list(rec.phis) + [l for l in rec.fins if l not in rec.phis]
    for key, b, nk in rec.segs:
        f = b.facts.copy()
        if not f.settle():
            continue
        fs = {}
        for loc in locs:
            try:
                h, a = rec.at(rec.heads[key].mem, loc), rec.at(b.mem, loc)
            except (KeyError, LookupError, Unsupported, AttributeError):
                continue
            hf, af = features(h), features(a)
            for w in hf:
                if w in af and hf[w][0] == af[w][0]:
                    fs[(loc, w)] = (hf[w][0], hf[w][1], af[w][1])
        out.append((key, nk, f, fs))
    return out


def components(ws):
    """The ways that lie on a cycle of control states, by cycle."""
    succ = {}
    for w in ws:
        succ.setdefault(w[0], set()).add(w[1])
    reach = {}
    for k in succ:
        seen, todo = set(), [k]
        while todo:
            for n in succ.get(todo.pop(), ()):
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
        reach[k] = seen
    out, done = [], set()
    for k in succ:
        if k in done or k not in reach[k]:
            continue
        c = {n for n in reach[k] if k in reach.get(n, ())}
        done |= c
        es = [w for w in ws if w[0] in c and w[1] in c]
        if es:
            out.append(es)
    return out


def ends(rec):
    """-> (True, measures) | (False, way) | (None, why)"""
    used = []

    def solve(ws):
        for es in components(ws):
            names = set.intersection(*[set(w[3]) for w in es])
            done = False
            for m in sorted(names, key=repr):
                mv = [(w, moves(w[2], w[3][m][1], w[3][m][2], w[3][m][0])) for w in es]
                for sign, weak in ((1, ">="), (-1, "<=")):
                    if not any(x == sign for _, x in mv) or not all(x in (sign, 0, weak) for _, x in mv):
                        continue
                    if not all(w[3][m][0] == "len" and sign < 0 or bounded(w[2], w[3][m][1], sign > 0)
                               or bounded(w[2], w[3][m][2], sign > 0) for w, x in mv if x == sign):
                        continue
                    rest = [w for w, x in mv if x != sign]
                    r = solve(rest) if rest else None
                    if r is None:
                        used.append(m)
                        done = True
                        break
                if done:
                    break
            if not done:
                return es
        return None
    es = solve(ways(rec))
    if es is None:
        return True, used
    for w in es:
        if w[0] == w[1] and idle(w):
            return False, w
    return None, es


def idle(w):
    """May the way around the loop leave all numbers as they are that it depends on?"""
    f = w[2].copy()
    asked_ = phis_of([c for c, _ in f.log])
    for k, (kind, a, b) in sorted(w[3].items(), key=repr):
        d = f.simp(sub(b, a)) if isinstance(a, (int, T)) and isinstance(b, (int, T)) else None
        if d is None:
            return False
        if not f.copy().assume(eqi(d, 0), True) and phis_of(a) and not phis_of(a) & asked_:
            continue
        if not f.assume(eqi(d, 0), True):
            return False
    return f.settle()


# ---- memory asked for in advance

ASKS = ("::with_capacity", "::reserve", "::reserve_exact", "::try_reserve", "::resize", "::from_elem", "::zeroed", "::repeat")


def asked(inst, args):
    """How many elements a library call reserves memory for, if it does."""
    n = inst.key.split("<std::alloc")[0]
    if not inst.key.startswith(("std::vec::Vec", "std::string::String", "bytes::Bytes", "vec::", "string::", "std::vec::from_elem")):
        return None
    for s in ASKS:
        if inst.key.endswith(s) or inst.key.rstrip(">").split("::<")[0].endswith(s):
            x = args[0] if s in ("::with_capacity", "::zeroed") else args[1] if len(args) > 1 else None
            return x if isinstance(x, (int, T)) else None
    return None


def lengths_of(f, n):
    """Lengths of what is held already."""
    out, seen = [], set()

    def walk(t):
        if isinstance(t, (tuple, list, frozenset)):
            for x in t:
                walk(x)
        elif isinstance(t, T) and t not in seen:
            seen.add(t)
            if t.op == "len":
                out.append(t)
            else:
                walk(t.args)
    walk(n)
    walk(list(f.lins))
    walk([t for t in f.iv if isinstance(t, T)])
    return out


def held(f, n):
    """Is memory for n elements in proportion to what is held?  True, False or None."""
    n = f.simp(n)
    if isinstance(n, int):
        return n <= RESERVE_FREE
    whole = n
    c, d = lin_parts(n)
    for t, k in list(d.items()):
        if k > 0 and t.op in ("quot", "and") and isinstance(t.args[0], T) and f.decide(ge0(t.args[0])) is True:
            n = add(sub(n, scale(t, k)), scale(t.args[0], k))
    if n is not whole:
        return True if held(f, n) is True else held_(f, whole)
    return held_(f, n)


def held_(f, n):
    c, d = lin_parts(n)
    free = c
    for t, k in d.items():
        if k < 0:
            continue
        elif t.op == "len" and k <= 64:
            continue
        elif f.ranges(t)[-1][1] < INF:
            free += k * f.ranges(t)[-1][1]
        else:
            free = INF
    if free <= RESERVE_FREE:
        return True
    ls = lengths_of(f, n)
    for l in ls:
        if f.decide(ge0(sub(add(l, RESERVE_FREE), n))) is True:
            return True
    g = f.copy()
    if not all(g.assume(ge0(sub(n, add(l, RESERVE_FREE + 1))), True) for l in ls + [0]) or not g.settle():
        return True
    if mentions_op([n] + [x for x, _ in f.log], ("phi", "sym")):
        return None
    if witness.inexact(g.log) or witness.inexact(n):
        try:
            return False if witness.find(g) is not None else None
        except (LookupError, TypeError, ValueError, AttributeError, ArithmeticError):
            return None
    return False


# ---- all of an analysis

def all_events(st_ev, seen, out):
    for e in st_ev:
        if e[0] == "alloc":
            out.append(e)
        elif e[0] == "loop" and e[1].id not in seen:
            seen.add(e[1].id)
            for _, b, _ in e[1].segs:
                all_events(b.ev[1:], seen, out)
    return out


def obligation(inst):
    return {"loops": "the loops and recursive calls of %s come to an end",
            "memory": "%s reserves memory in proportion to what it holds"}[Interp.RANK] % inst.short()


def abandoned(rep, I, inst, calls, why):
    """What is known of a function that cannot be analysed to its end."""
    ob = obligation(inst)
    for verdict, text in calls + I.again:
        if verdict is False:
            rep.bad("%s:recursion" % inst.short(), text, ob)
    for _, who, what, n, f in I.asks:
        if held(f, n) is False:
            rep.bad("%s:reserve" % who, "%s asks %s for %s elements, however little it holds" % (who, what, brief(n)), ob)
    rep.unsure(ob, why)


def judge(rep, I, inst, rs, calls):
    """The loops, recursive calls and reservations of an analysed function."""
    me = inst.short()
    if Interp.RANK == "loops":
        ob = obligation(inst)
        good = True
        for rec in I.loops:
            rep.count("loops judged")
            ok_, how = ends(rec)
            if ok_ is False:
                good = False
                rep.bad("%s:loop" % rec.inst.short(), "a loop of %s can go round without getting any further"
                        % rec.inst.short(), ob)
            elif ok_ is None:
                good = False
                rep.unsure(ob, "no measure for a loop of %s" % rec.inst.short())
        for verdict, text in calls:
            rep.count("recursive calls judged")
            if verdict is False:
                good = False
                rep.bad("%s:recursion" % me, text, ob)
            elif verdict is None:
                good = False
                rep.unsure(ob, text)
        if good:
            rep.ok(ob)
        return
    ob = obligation(inst)
    good = True
    seen, evs = set(), []
    for r in rs:
        all_events(r[1].ev, seen, evs)
    done = set()
    for _, who, what, n, f in evs:
        k = (who, n, f.log)
        if k in done:
            continue
        done.add(k)
        rep.count("reservations")
        h = held(f, n)
        if h is False:
            good = False
            rep.bad("%s:reserve" % who, "%s asks %s for %s elements, however little it holds" % (who, what, brief(n)), ob)
        elif h is None:
            good = False
            rep.unsure(ob, "%s asks %s for %s elements" % (who, what, brief(n)))
    if good:
        rep.ok(ob)


def descends(I, st, inst, args, st0, args0):
    """Is a recursive call about less than the call it is made in?"""
    def read(s, x):
        try:
            while isinstance(x, (Ptr, Ref, BoxV)):
                x = I.read(s, x) if isinstance(x, Ptr) else x.v
            return x
        except (Unsupported, LookupError):
            return x
    f = st.facts
    same = True
    for x, x0 in zip(args, args0):
        a, b = read(st, x), read(st0, x0)
        if isinstance(a, T) and isinstance(b, T) and a is not b and part_of(a, b):
            return True, None
        fa, fb = features(a), features(b)
        for w in fb:
            if w in fa and fa[w][0] == fb[w][0]:
                m = moves(f, fb[w][1], fa[w][1], fa[w][0])
                if m == 1 and bounded(f, fa[w][1], True) or m == -1:
                    return True, None
        if not veq(a, b):
            same = False
    text = "%s calls itself with %s" % (inst.short(), ", ".join(brief(x) for x in args))
    return (False if same else None), text


def part_of(a, b):
    """Is a reached from b by taking parts?"""
    n = 0
    while isinstance(a, T) and a is not b:
        if a.op not in ("fld", "elem", "deref", "unbox") or not isinstance(a.args[0], T):
            return False
        n += a.op in ("fld", "elem")
        a = a.args[0]
    return a is b and n > 0


def watch(cut, st0, args0, calls):
    def f(I, st, inst, a, dty, site):
        calls.append(descends(I, st, inst, a, st0, args0))
        return cut(I, st, inst, a, dty, site)
    return f
