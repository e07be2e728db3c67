"""Conformance of the abstract paths of a function with a declarative spec.

A spec is a total function over abstract values (written against the same
facts domain).  For each abstract path of the code it is evaluated under the
facts of that path; where the facts do not settle a condition of the spec the
path is partitioned.  Calls of re-entrant functions and loops of the path are
matched, in order, with the calls and loops of the spec.
"""
import itertools
import words
import witness

from common import *


class SpecErr(Exception):
    """The spec prescribes an error."""

    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


class Mismatch(Exception):
    pass


class Shape(Mismatch):
    """A loop that works in another way than the specified one."""


class Undecided(Exception):
    pass


class Enough(Exception):
    """A deviation of the path has been found."""


def loop_calls(rec):
    """Does an iteration of the loop make calls or run loops that do?"""
    for _, b, _ in rec.segs:
        for e in b.ev[1:]:
            if e[0] == "call" or e[0] == "loop" and loop_calls(e[1]):
                return True
    return False


class Sp:
    """Evaluation of a spec over one (partition of a) code path."""

    def __init__(self, I, facts, events, memo):
        self.I = I
        self.st = State()
        self.st.facts = facts
        self.events = events
        self.pos = 0
        self.memo = memo
        self.trail = []
        self.code_state = None
        self.known = set()          # values of the code's loops that the spec's loops speak of
        self.unlike = None          # the last two observations that were not the same
        self.differ = None          # the last two numbers that were not the same
        self.unmatched = []         # loops of the code the spec has not
        self.failing = False        # the code fails on this path
        self.nsupposed = 0
        self.supposed = False       # the spec goes on where the code has failed

    @property
    def facts(self):
        return self.st.facts

    # ---- conditions
    def br(self, c):
        if isinstance(c, int):
            return bool(c)
        d = self.facts.decide(c)
        if d is None:
            raise forkcond(c)
        return d

    def variant(self, v):
        """Variant name of an enum value."""
        i = self.I.variant_of(self.st, v)
        return v.ty.variants[i]["n"]

    def field(self, v, i):
        return self.I.field(self.st, v, i)

    def require(self, c, why):
        if not self.br(c):
            raise SpecErr(why)

    def mod(self, x, m):
        return self.I.residue(self.st, x, m)

    # ---- equality under the facts
    def same(self, a, b):
        a, b = norm(self, a), norm(self, b)
        if veq(a, b):
            return True
        if isinstance(a, (Ref, BoxV)) and isinstance(b, (Ref, BoxV)):
            return self.same(a.v, b.v)
        if isinstance(a, (int, T)) and isinstance(b, (int, T)) and is_scalar(a) and is_scalar(b):
            if is_cond(a) or is_cond(b):
                return self.br(a) == self.br(b)
            if self.facts.decide(eqi(a, b)):
                return True
            va = words.byte_view(a)
            if va is not None and va == words.byte_view(b):
                return True
            a2, b2 = bytewise(a), bytewise(b)
            if self.facts.decide(eqi(a2, b2)):
                return True
            self.differ = (a2, b2)
            return False
        if isinstance(a, Agg) and isinstance(b, T):
            a, b = b, a
        if isinstance(a, T) and isinstance(b, Agg) and a.ty is b.ty:
            if a.ty.is_enum:
                vs = self.facts.variants(a)
                if vs != frozenset([b.v]):
                    if b.v not in vs:
                        return False
                    self.I.variant_of(self.st, a)
                return all(self.same(sym_field(a, b.v, i), y) for i, y in enumerate(b.f))
            return all(self.same(x, y) for x, y in zip(expand(a).f, b.f))
        if isinstance(a, T) and isinstance(b, T) and a.ty is b.ty and a.ty is not None and a.ty.is_enum:
            va, vb = self.facts.variants(a), self.facts.variants(b)
            if len(va) == 1 and va == vb:
                i = next(iter(va))
                n = len(a.ty.field_tys(i))
                return all(self.same(sym_field(a, i, k), sym_field(b, i, k)) for k in range(n))
            return False
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.v != b.v or len(a.f) != len(b.f):
                return False
            return all(self.same(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.same_seq(a, b)
        if isinstance(a, Nat) and isinstance(b, Nat):
            return a.k == b.k and len(a.f) == len(b.f) and all(self.same(x, y) for x, y in zip(a.f, b.f))
        return False

    def same_seq(self, a, b):
        pa, pb = ([self.facts.canon(x) if x[0] == "sub" else x for x in q.p] for q in (a, b))
        while pa and pb:
            x, y = pa[0], pb[0]
            if x[0] == y[0] == "lit":
                n = min(len(x[1]), len(y[1]))
                if not all(self.same(u, v) for u, v in zip(x[1][:n], y[1][:n])):
                    return False
                pa[:1] = [("lit", x[1][n:])] if len(x[1]) > n else []
                pb[:1] = [("lit", y[1][n:])] if len(y[1]) > n else []
                continue
            if x[0] == y[0] == "sub" and x[1] is y[1] and self.same(x[2], y[2]):
                if self.same(x[3], y[3]):
                    pa.pop(0)
                    pb.pop(0)
                    continue
                if self.facts.decide(le(x[3], y[3])):
                    pa.pop(0)
                    pb[0] = ("sub", y[1], x[3], y[3])
                    continue
                if self.facts.decide(le(y[3], x[3])):
                    pb.pop(0)
                    pa[0] = ("sub", x[1], y[3], x[3])
                    continue
                return False
            if x[0] == y[0] == "num" and x[1] == y[1] and (x[2] == y[2] or x[1] == 1) and self.same(x[3], y[3]):
                pa.pop(0)
                pb.pop(0)
                continue
            # empty parts
            if self.facts.decide(eqi(part_len(x), 0)):
                pa.pop(0)
                continue
            if self.facts.decide(eqi(part_len(y), 0)):
                pb.pop(0)
                continue
            if x[0] == "num" and y[0] == "lit":
                pa[:1] = [num_lit(self.I, x)]
                continue
            if y[0] == "num" and x[0] == "lit":
                pb[:1] = [num_lit(self.I, y)]
                continue
            if peq(x, y):
                pa.pop(0)
                pb.pop(0)
                continue
            if x[0] == "lit" and y[0] == "sub":
                x, y, pa, pb = y, x, pb, pa
            if x[0] == "sub" and y[0] == "lit":
                # first element of the sub against the first literal
                if self.br(lt(x[2], x[3])):
                    e = self.I.seq_elem(self.st, x, 0)
                    if not self.same(e, y[1][0]):
                        return False
                    pa[0] = ("sub", x[1], add(x[2], 1), x[3])
                    pb[:1] = [("lit", y[1][1:])] if len(y[1]) > 1 else []
                    continue
                pa.pop(0)
                continue
            return False
        for p in pa + pb:
            if not self.facts.decide(eqi(part_len(p), 0)):
                return False
        return True

    # ---- events
    def peek(self):
        return self.events[self.pos] if self.pos < len(self.events) else None

    def call(self, name, *args, hyp=None, pure=False):
        """The code must make this call next, with these arguments -> (post..., result).

        hyp: the outcome of the call where the code has failed before it could
        make it (then all that matters is whether the spec fails as well).
        pure: the call commutes with other calls."""
        self.skip_loops(lambda e: e[0] == "call" and e[1] == name)
        e = self.peek()
        if e is None and self.failing and hyp is not None:
            self.supposed = True
            return hyp()
        if pure and e is not None and (e[0] != "call" or e[1] != name):
            for i in range(self.pos, len(self.events)):
                if self.events[i][0] == "call" and self.events[i][1] == name:
                    e = self.events.pop(i)
                    self.events.insert(self.pos, e)
                    break
        if e is None or e[0] != "call" or e[1] != name:
            raise Mismatch("expected a call of %s here, the code %s"
                           % (name, "does nothing more" if e is None else "does %s" % (e[1] if e[0] == "call" else e[0])))
        pre, post = e[2], e[3]
        for (what, want), have in zip(args, pre):
            if want is not None and not self.same(want, have):
                raise Mismatch("%s is called with %s = %s instead of %s" % (name, what, brief(have), brief(want)))
        self.pos += 1
        return post

    def skip_loops(self, until=None):
        """Pass over loops of the code that make no calls (the spec has none there).
        What they do shows in the results, if anywhere."""
        i = self.pos
        while i < len(self.events) and self.events[i][0] == "loop" and not loop_calls(self.events[i][1]):
            i += 1
        if i == self.pos or until is not None and (i == len(self.events) or not until(self.events[i])):
            return
        self.unmatched += [e[1].id for e in self.events[self.pos:i]]
        self.pos = i

    def loop(self, lv, body, name):
        """Spec loop.  lv: LoopVars; body(S, lv) -> ('next', lv) or any other result."""
        at, left = self.pos, len(self.unmatched)
        first = None
        for skip in range(4):
            try:
                return self.loop_(lv, body, name)
            except Mismatch as m:
                # the loop the spec means may come after others
                first = first or m
                self.pos = at + skip
                e = self.peek()
                nx = self.events[self.pos + 1] if self.pos + 1 < len(self.events) else None
                if e is None or nx is None or e[0] != "loop" or nx[0] != "loop" or loop_calls(e[1]):
                    raise first
                self.pos += 1
                del self.unmatched[left:]
                self.unmatched += [x[1].id for x in self.events[at:self.pos]]
        raise first

    def loop_(self, lv, body, name):
        n = 0
        first = None
        while True:
            e = self.peek()
            if e is not None and e[0] == "loop":
                rec, key = e[1], e[2]
                try:
                    lv = self.bind(rec, key, lv, body, name)
                except Mismatch as m:
                    # the code may make the first iterations outside of its loop
                    self.memo.pop((rec.id, name), None)
                    first = first or m
                    if n >= 2 or not (isinstance(m, Shape) or self.I.peel):
                        raise first
                    try:
                        r = body(self, lv)
                    except SpecErr:
                        raise first
                    if not (isinstance(r, tuple) and r and r[0] == "next"):
                        raise first
                    lv = r[1]
                    n += 1
                    continue
                self.pos += 1
                r = body(self, lv)
                if isinstance(r, tuple) and r and r[0] == "next":
                    raise Mismatch("the %s loop stops early" % name)
                return r
            r = body(self, lv)
            if not (isinstance(r, tuple) and r and r[0] == "next"):
                return r
            lv = r[1]
            n += 1
            if n > (2 if self.supposed else 60):
                raise Undecided("spec loop %s does not end" % name)

    def bind(self, rec, key, lv, body, name):
        """Match the code loop with the spec loop (entry, every iteration) and
        return the spec variables at the head of partition `key`."""
        mk_ = (rec.id, name)
        if callable(lv.places):
            lv = LoopVars(lv.places(rec.entry), lv.acc, lv.idx, lv.grow, lv.seqs, lv.free, lv.state, **lv.vals)
        how = self.memo.get(mk_)
        if how is None:
            how = match_loop(self, rec, lv, body, name)
            self.memo[mk_] = how
        if not lv.entry_ok(self, rec, how):
            raise Shape("the %s loop is entered in a different state" % name)
        locs = set(lv.places.values()) | set(how["seqs"].values()) | set(how["free"].values()) | {how["acc"], how["grow"]}
        self.known |= phis_of([rec.phis[l][0] for l in rec.phis if any(
            k is not None and l[0] == k[0] and (l[1][:len(k[1])] == k[1] or k[1][:len(l[1])] == l[1]) for k in locs)])
        self.known |= phis_of(how["idx"])
        return lv.head(rec, key, how)


def phis_of(t):
    """The values a loop generalised that a value mentions."""
    out, seen = set(), set()

    def walk(t):
        if isinstance(t, (tuple, list, frozenset)):
            for x in t:
                walk(x)
        elif isinstance(t, T):
            if t not in seen:
                seen.add(t)
                if t.op == "phi":
                    out.add(t)
                else:
                    walk(t.args)
        elif isinstance(t, Seq):
            walk(t.p)
        elif isinstance(t, (Agg, Nat)):
            walk(tuple(t.f))
        elif isinstance(t, (Ref, BoxV)):
            walk(t.v)
    walk(t)
    return out


def num_lit(I, p):
    return ("lit", tuple(num_byte(p[3], p[1], j if p[2] == "le" else p[1] - 1 - j, I.prog.u8) for j in range(p[1])))


def is_scalar(v):
    return isinstance(v, int) or v.op == "lin" or v.ty is None or v.ty.k in ("uint", "int", "bool", "char", "float")


def is_cond(v):
    return isinstance(v, T) and (v.op in ("ge0", "eq0", "not", "b", "seqeq", "pred") or (v.ty is not None and v.ty.k == "bool"))


def norm(s, v):
    if isinstance(v, T):
        v = s.facts.canon(v)
        return s.facts.simp(v) if is_scalar(v) else v
    return v


def bytewise(x):
    """Expand unsigned multi-byte reads into their bytes."""
    if isinstance(x, int):
        return x
    c, d = lin_parts(x)
    r = c
    for t, k in d.items():
        if t.op == "rd" and t.ty is not None and t.ty.k == "uint":
            b, lo, w, e = t.args
            for j in range(w):
                i = add(lo, j if e == "le" else w - 1 - j)
                r = add(r, scale(mk("elem", (b, i), t.ty.prog.u8), k << (8 * j)))
        else:
            r = add(r, scale(t, k))
    return r


def brief(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + "..."


class LoopVars:
    """Spec loop variables: `cells` live at known places, `acc` is a growing
    sequence, `idx` counts from its start value by one, `grow` is what a
    sequence has grown by since the loop was entered, `seqs` are further growing
    sequences by name, `free` are values by name whose places are found by
    their value at entry, `state` is a control state (whatever the code tells
    its states apart by)."""

    def __init__(self, places=None, acc=None, idx=None, grow=None, seqs=None, free=None, state=None, **vals):
        self.state = state              # hashable (or None)
        self.free = free or {}          # name -> value
        self.places = places or {}      # name -> (cell, path), or a function of the entry state
        self.grow = grow                # Seq (or None), empty at entry
        self.seqs = seqs or {}          # name -> Seq
        self.acc = acc                  # Seq (or None)
        self.idx = idx                  # int term (or None)
        self.vals = vals                # name -> value

    def but(self, acc=None, idx=None, grow=None, seqs=None, free=None, state=None, **vals):
        d = dict(self.vals)
        d.update(vals)
        fr = dict(self.free)
        fr.update(free or {})
        q = dict(self.seqs)
        q.update(seqs or {})
        return LoopVars(self.places, self.acc if acc is None else acc, self.idx if idx is None else idx,
                        self.grow if grow is None else grow, q, fr, self.state if state is None else state, **d)

    def __getattr__(self, k):
        try:
            return self.__dict__["vals"][k]
        except KeyError:
            raise AttributeError(k)

    def entry_ok(self, s, rec, how):
        for n, loc in self.places.items():
            if not s.same(self.vals[n], rec.interp.read(rec.entry, Ptr(*loc))):
                return False
        if self.acc is not None:
            if how["acc"] is None or not s.same(self.acc, rec.at(rec.entry.mem, how["acc"])):
                return False
        if self.idx is not None and not s.same(self.idx, entry_value(rec, how["idx"])):
            return False
        for n, v in self.seqs.items():
            if not s.same(v, rec.at(rec.entry.mem, how["seqs"][n])):
                return False
        for n, v in self.free.items():
            if not s.same(v, rec.at(rec.entry.mem, how["free"][n])):
                return False
        return True

    def at_head(self, how, key):
        if self.state is None:
            return None
        if key not in how["states"]:
            raise Undecided("a loop state that no iteration leads to")
        return how["states"][key]

    def head(self, rec, key, how):
        hs = rec.heads[key]
        d = dict(self.vals)
        for n, loc in self.places.items():
            d[n] = rec.interp.read(hs, Ptr(*loc))
        return LoopVars(self.places, rec.at(hs.mem, how["acc"]) if self.acc is not None else None,
                        how["idx"] if self.idx is not None else None,
                        self.grow.cat(full(rec.phis[how["grow"]][0])) if self.grow is not None else None,
                        {n: rec.at(hs.mem, how["seqs"][n]) for n in self.seqs},
                        {n: rec.at(hs.mem, how["free"][n]) for n in self.free},
                        self.at_head(how, key), **d)


def int_phis(rec):
    """{phi term: location} of the generalised integers of a loop."""
    out = {}
    for loc, (new, old, kind) in rec.phis.items():
        if kind == "phi" and isinstance(new, T) and new.op == "phi" and isinstance(old, (int, T)):
            out[new] = loc
    return out


def entry_value(rec, expr):
    m = {x: rec.at(rec.entry.mem, loc) for x, loc in int_phis(rec).items()}
    return subst(expr, m)


def back_value(rec, st, expr):
    m = {}
    for x, loc in int_phis(rec).items():
        v = rec.at(st.mem, loc)
        if isinstance(v, (int, T)):
            m[x] = v
    return subst(expr, m)


def match_loop(s, rec, lv, body, name):
    """Find which locations of the code loop hold the spec variables, such that
    every iteration of the code is one iteration of the spec."""
    accs = [None]
    if lv.acc is not None:
        accs = [l for l in rec.apps]
        if not accs:
            raise Shape("the %s loop does not collect its values in order" % name)
    idxs = [None]
    if lv.idx is not None:
        idxs = [x for x, loc in int_phis(rec).items()]
        # an index may be kept as the distance to its start
        more = []
        for x in idxs:
            e = entry_value(rec, x)
            d = sub(lv.idx, e)
            if not (isinstance(d, int) and d == 0):
                more.append(add(x, d))
            more.append(add(sub(lv.idx, x), e))
        idxs += more
        for l in rec.apps:
            g, old, kind = rec.phis[l]
            idxs.append(mk("len", (g,)))
        if not idxs:
            raise Shape("the %s loop has no counter" % name)
    why = None
    rest = [l for l in rec.apps]
    names = sorted(lv.seqs)
    need = (1 if lv.grow is not None else 0) + len(names)
    frees = free_places(s, rec, lv, name)
    if need > len(rest):
        raise Shape("the %s loop does not append in order to what it should (%d of %d)" % (name, len(rest), need))
    for a in accs:
        for x, perm, fr in itertools.product(idxs, itertools.permutations([l for l in rest if l != a], need), frees):
            how = {"free": fr, "states": {next(iter(rec.heads)): lv.state}, "acc": a, "idx": x, "grow": perm[0] if lv.grow is not None else None,
                   "seqs": dict(zip(names, perm[need - len(names):]))}
            try:
                if not all(s.same(lv.seqs[n], rec.at(rec.entry.mem, how["seqs"][n])) for n in names):
                    raise Mismatch("the %s loop is entered in a different state" % name)
                check_iterations(s, rec, lv, body, name, how)
                return how
            except Mismatch as m:
                if why is None or len(str(m)) > len(str(why)):
                    why = m
    raise why


def free_places(s, rec, lv, name):
    """All ways to find the free variables in the changing memory of the loop."""
    if not lv.free:
        return [{}]
    cand = {n: [] for n in lv.free}
    seen = set()
    for (cell, path) in rec.phis:
        for k in range(len(path) + 1):
            loc = (cell, path[:k])
            if loc in seen:
                continue
            seen.add(loc)
            v = rec.at(rec.entry.mem, loc)
            for n, want in lv.free.items():
                if type(v) is type(want) and s.same(want, v):
                    cand[n].append(loc)
    out = []
    for combo in itertools.product(*cand.values()):
        if len(set(combo)) == len(combo):
            out.append(dict(zip(cand, combo)))
    if not out:
        raise Shape("the %s loop does not keep its state as expected" % name)
    return out


def goes_on(s, rec, lv, how):
    """A loop that does not stop where the specified one does may still take note
    of it for later: that is another shape if it keeps something to note it in."""
    if rec.fins and lv.state is None:
        return Shape
    mine = set(how["seqs"].values()) | set(how["free"].values()) | {how["acc"], how["grow"]} | set(lv.places.values())
    mine = [l for l in mine if l is not None]
    idx = how["idx"] if isinstance(how["idx"], (int, T)) else None
    for loc, (new, old, kind) in rec.phis.items():
        if kind == "bot" or any(l[0] == loc[0] and (l[1][:len(loc[1])] == loc[1] or loc[1][:len(l[1])] == l[1]) for l in mine):
            continue
        if kind == "app":
            if isinstance(idx, T) and idx.op == "len" and idx.args[0] is new:
                continue
            return Shape
        if isinstance(new, T) and new.op == "phi" and isinstance(old, (int, T)):
            if idx is not None and (new is idx or new in phis_of(idx) or all(
                    follows(s, rec, b, new, loc, idx) for _, b, _ in rec.segs)):
                continue
            return Shape
    return Mismatch


def follows(s, rec, b, x, loc, idx):
    """The variable keeps its distance to the counter."""
    have = rec.at(b.mem, loc)
    if not isinstance(have, (int, T)):
        return False
    return b.facts.decide(eqi(sub(have, x), sub(back_value(rec, b, idx), idx))) is True


def check_iterations(s, rec, lv, body, name, how):
    todo = list(rec.segs)
    while todo:
        k = next((i for i, g in enumerate(todo) if g[0] in how["states"] or lv.state is None), None)
        if k is None:
            return
        key, b, nk = todo.pop(k)
        head = lv.head(rec, key, how)
        work = [b.facts.copy()]
        if not work[0].settle():
            continue
        n = 0
        while work:
            f = work.pop()
            n += 1
            if n > 4000:
                raise Undecided("too many partitions")
            Clock.check()
            s2 = Sp(s.I, f.copy(), list(b.ev[1:]), s.memo)
            try:
                try:
                    r = body(s2, head)
                except SpecErr as e:
                    raise goes_on(s, rec, lv, how)("the %s loop goes on where the spec fails (%s)" % (name, e.why))
                if not (isinstance(r, tuple) and r and r[0] == "next"):
                    raise goes_on(s, rec, lv, how)("the %s loop goes on where the spec stops" % name)
                s2.skip_loops()
                if s2.pos != len(s2.events):
                    e = s2.peek()
                    raise Mismatch("the %s loop does more than the spec: %s" % (name, e[1] if e[0] == "call" else e[0]))
                nx = r[1]
                if lv.state is not None and how["states"].setdefault(nk, nx.state) != nx.state:
                    raise Shape("the %s loop does not tell apart the states %s and %s"
                                % (name, nx.state, how["states"][nk]))
                for k, loc in lv.places.items():
                    have = s.I.read(b, Ptr(*loc))
                    if not s2.same(nx.vals[k], have):
                        raise Mismatch("after one iteration of the %s loop %s is %s instead of %s"
                                       % (name, k, brief(have), brief(nx.vals[k])))
                if lv.acc is not None:
                    have = rec.at(b.mem, how["acc"])
                    if not s2.same(nx.acc, have):
                        raise Mismatch("one iteration of the %s loop collects %s instead of %s"
                                       % (name, brief(have), brief(nx.acc)))
                for n2, want in nx.free.items():
                    have = rec.at(b.mem, how["free"][n2])
                    if not s2.same(want, have):
                        raise Mismatch("after one iteration of the %s loop the %s is %s instead of %s"
                                       % (name, n2, brief(have), brief(want)))
                for n2, want in nx.seqs.items():
                    have = rec.at(b.mem, how["seqs"][n2])
                    if not s2.same(want, have):
                        raise Mismatch("after one iteration of the %s loop the %s are %s instead of %s"
                                       % (name, n2, brief(have), brief(want)))
                if lv.grow is not None:
                    have = lv.grow.cat(Seq(rec.at(b.mem, how["grow"]).p[len(rec.phis[how["grow"]][1].p):]))
                    if not s2.same(nx.grow, have):
                        raise Mismatch("one iteration of the %s loop writes %s instead of %s"
                                       % (name, brief(have), brief(nx.grow)))
                if lv.idx is not None:
                    x = how["idx"]
                    if isinstance(x, T) and x.op == "len":
                        loc = [l for l in rec.apps if rec.phis[l][0] is x.args[0]][0]
                        have = sub(rec.at(b.mem, loc).len(), rec.phis[loc][1].len())
                    else:
                        have = back_value(rec, b, x)
                    if not s2.same(nx.idx, have):
                        raise Mismatch("the counter of the %s loop becomes %s instead of %s"
                                       % (name, brief(have), brief(nx.idx)))
            except Fork as fk:
                for alt in fk.alts:
                    f2 = f.copy()
                    if alt(f2):
                        work.append(f2)


def partitions(facts, fn, limit=6000):
    """Run fn(facts) on a partition of `facts` fine enough for its conditions."""
    work = [facts]
    out = []
    n = 0
    while work:
        f = work.pop()
        n += 1
        if n > limit:
            raise Undecided("too many partitions of a path")
        Clock.check()
        try:
            out.append(fn(f.copy()))
        except Fork as fk:
            for alt in fk.alts:
                f2 = f.copy()
                if alt(f2) and f2.settle():
                    work.append(f2)
    return out


def events_of(st):
    return [e for e in st.ev if e[0] in ("call", "loop")]


def is_ok(v):
    n = variant_name(v)
    return n in ("Ok", "Some")


GENERALISED = ("phi", "ptreq", "trunc", "cast", "transmute", "nchars")


def mentions_op(t, ops, seen=None):
    """Does a term mention one of the operations?"""
    seen = set() if seen is None else seen
    if isinstance(t, (tuple, list, frozenset)):
        return any(mentions_op(x, ops, seen) for x in t)
    if isinstance(t, T):
        if id(t) in seen:
            return False
        seen.add(id(t))
        return t.op in ops or mentions_op(t.args, ops, seen)
    if isinstance(t, Agg):
        return mentions_op(t.f, ops, seen)
    if isinstance(t, (Ref, BoxV)):
        return mentions_op(t.v, ops, seen)
    if isinstance(t, Seq):
        return mentions_op(t.p, ops, seen)
    return False


def mentions_loop(t, ids):
    """Does a term mention what the loops made up?"""
    if isinstance(t, (tuple, list, frozenset)):
        return any(mentions_loop(x, ids) for x in t)
    if isinstance(t, T):
        return t.op == "phi" and t.args[0] in ids or mentions_loop(t.args, ids)
    return False


def panic_text(info):
    why, f, at = info[0], info[1], info[2]
    if why == "assert":
        return "%s panics (%s)" % (f.short(), info[3])
    c = at[0] if isinstance(at, tuple) and at else None
    return "%s panics (%s)" % (c.short() if hasattr(c, "short") else brief(f.short()), why)


def panic_is_real(st):
    """The condition that leads to the panic speaks about the inputs alone, not
    about values a loop generalisation made up."""
    log = st.facts.log
    return not log or not mentions_op(log[-1], GENERALISED)


OPAQUE = ("eq", "utf8", "valid", "sigstr", "eqic", "has", "parses", "matches", "vtype", "vsig")


def blurred(facts, differ):
    """Do the facts speak about a text as a whole and about its elements as
    well, without the one being drawn from the other?"""
    parts, elems, seen = [], [], set()

    def walk(t, whole):
        if isinstance(t, (tuple, list, frozenset)):
            if whole and len(t) == 4 and t[0] == "sub":
                parts.append(t[1:])
            for x in t:
                walk(x, whole)
        elif isinstance(t, Seq):
            walk(t.p, whole)
        elif isinstance(t, (Agg, Nat)):
            walk(tuple(t.f), whole)
        elif isinstance(t, (Ref, BoxV)):
            walk(t.v, whole)
        elif isinstance(t, T):
            if (t, whole) in seen:
                return
            seen.add((t, whole))
            if t.op in ("elem", "charat"):
                elems.append((t.args[0], t.args[1]))
            if t.op == "b" and t.args[0] in OPAQUE:
                for x in t.args[1:]:
                    if isinstance(x, T) and x.ty is not None and is_seq_ty(x.ty):
                        parts.append((x, 0, mk("len", (x,))))
                    walk(x, True)
                return
            walk(t.args, whole)
    for c, pol in facts.log:
        # that two elements are the same contradicts no comparison of (longer) texts
        if not (pol and isinstance(c, T) and c.op == "eq0" and isinstance(c.args[0], T) and c.args[0].op == "lin"
                and c.args[0].args[0] == 0 and all(t.op == "elem" for t, _ in c.args[0].args[1])):
            walk(c, False)
    walk([c for c in facts.iv if isinstance(c, T) and c.op == "b"], False)
    if differ is not None:
        walk(differ, False)
        if mentions_op(differ, ("charat", "chr")):
            return True
    for base, lo, hi in parts:
        if facts.decide(ge0(add(sub(lo, hi), 4))) is True:
            return True
        for b, i in elems:
            if b is base and facts.decide(ge0(sub(i, hi))) is not True and facts.decide(ge0(sub(sub(lo, i), 1))) is not True:
                return True
    return False


def definite(rep, key, text, ob):
    rep.bad(key, text, ob)
    if hasattr(rep, "exact"):
        rep.exact.append((key, text))


def report_panic(rep, r, key, ob):
    """-> False if the panic is a violation or undecided"""
    text = panic_text(r[2])
    if not r[1].facts.settle():
        return True
    if panic_is_real(r[1]):
        definite(rep, "%s:panic:%s" % (key, r[2][1].short()), text, ob)
    else:
        rep.unsure(ob, "%s, if a loop invariant that was not found does not rule it out" % text)
    return False


def conform(rep, ob, I, rs, spec, final, key, where, obs=None, never=False):
    """Every path of `rs` returns what `spec(S)` prescribes.

    spec(S) returns the observation ('ok', ...) or raises SpecErr;
    final(st, v) gives the observation of a path: None for an error.
    never: the spec prescribes an error throughout.
    A loop of another shape than the specified one is undecided.
    """
    if Interp.RANK:
        return      # another question is asked
    memo = {}
    good = True
    n_ok = n_err = fails = 0
    sure = set()
    for r in rs:
        if r[0] == "panic":
            rep.count("panic_paths")
            if not report_panic(rep, r, key, ob):
                good = False
            continue
        st, v = r[1], r[2]
        if not st.facts.settle():
            rep.count("infeasible_paths")
            continue

        cur = None

        def one_partition(f):
            nonlocal n_ok, n_err, cur
            s = cur = Sp(I, f, events_of(st), memo)
            have = final(s, st, v)
            s.failing = have is None
            try:
                want = spec(s)
            except SpecErr as e:
                want = None
                why = e.why
            if want is None and have is None:
                n_err += 1
                return None
            if want is None:
                return ("accepts", "succeeds with %s although %s" % (brief(have), why))
            if have is None:
                return ("rejects", "fails (%s) although the specified result is %s" % (brief(v), brief(want)))
            s.skip_loops()
            if s.pos != len(s.events):
                return ("extra", "does more than specified: %s" % brief(s.peek()))
            n_ok += 1
            for i, (a, b) in enumerate(zip(want, have)):
                if not s.same(a, b):
                    s.unlike = (a, b)
                    if os.environ.get("DBUS_LOG"):
                        for l in s.facts.log:
                            print("   ", l)
                        for l in s.facts.iv.items():
                            print("   iv", l)
                    return ("result%d" % i, "%s is %s instead of %s"
                            % (obs[i] if obs else "result", brief(b), brief(a)))
            return None

        def confirmed(res):
            """Deviations that hang on operations the facts say little of have to have an instance."""
            nonlocal fails
            s = cur
            if s.facts is None:
                return res
            d = s.differ if res[0].startswith("result") or res[0] == "steps" else None
            if not witness.inexact(s.facts.log) and not (d is not None and witness.inexact(d)):
                return res
            if res[0] in sure:
                return res
            w = None
            if fails < 8:
                try:
                    w = witness.find(s.facts, d)
                except (LookupError, TypeError, ValueError, AttributeError, ArithmeticError):
                    if os.environ.get("DBUS_STRICT"):
                        raise
                if w is None:
                    fails += 1
            if w is None:
                return (None, "%s, if its conditions are possible (no instance found)" % res[1])
            sure.add(res[0])
            return (res[0], res[1] + (" (e.g. %s)" % w if w else ""))

        def impossible():
            return cur.facts is not None and not cur.facts.copy().settle()

        def plain(res):
            """Among exact executions: what depends on a text and on its elements may be impossible."""
            s = cur
            if Interp.BOUND and res[0] is not None and s.facts is not None and blurred(s.facts, s.unlike):
                return (None, "%s, if that is possible" % res[1])
            return res

        def guarded(f):
            res = guarded_(f)
            return plain(res) if res is not None else None

        def guarded_(f):
            try:
                res = one_partition(f)
                if res is not None and impossible():
                    return None
                if res is not None and res[0] is not None:
                    # loops the spec has not: what their generalisation says may be impossible
                    left = cur.unmatched + [e[1].id for e in cur.events[cur.pos:] if e[0] == "loop"]
                    if left and mentions_loop(cur.facts.log, left):
                        return (None, "%s, if a loop that is not specified allows it" % res[1])
                    if res[0].startswith("result") and not phis_of(cur.unlike[1]) <= cur.known:
                        return (None, "%s, if a loop makes something else of it than specified" % res[1])
                    return confirmed(res)
                return res
            except Mismatch as m:
                if impossible():
                    return None
                if os.environ.get("DBUS_LOG"):
                    print("mismatch", m)
                    for l in cur.facts.log:
                        print("   ", l)
                if isinstance(m, Shape):
                    return (None, str(m))
                return confirmed(("steps", str(m)))
            except (Undecided, Unsupported) as e:
                return (None, str(e))
        open_ = None
        found = []
        supposed = 0

        def collect(f):
            res = guarded(f)
            if res is not None and res[0] is not None:
                if os.environ.get("DBUS_LOG"):
                    print("FOUND", res, cur.facts.log)
                found.append(res)
                if cur.supposed:
                    raise Enough()
            if cur.supposed:
                nonlocal supposed
                supposed += 1
                if supposed > 400:
                    raise Undecided("too many ways to go on where the code fails")
            return res
        try:
            for res in partitions(st.facts, collect):
                if res is not None and res[0] is None:
                    good = False
                    open_ = open_ or res[1]
        except Enough:
            pass
        except (Undecided, Unsupported) as e:
            good = False
            open_ = open_ or e
        for res in found:
            good = False
            definite(rep, "%s:%s" % (key, res[0]), "%s: %s" % (where, res[1]), ob)
        if open_ is not None and not found:
            rep.unsure(ob, open_)
    rep.count("conforming_paths", n_ok + n_err)
    if n_ok == 0 and good and not never:
        rep.bad("%s:none" % key, "%s never succeeds" % where, ob)
        good = False
    if good:
        rep.ok(ob)
