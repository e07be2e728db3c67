"""Regular-language domain: the set of inputs of each explored path is read off
the path facts (element classes, positions, lengths, loop summaries) as an
automaton, and compared with a specification automaton.

Alphabet: 0..127 (ASCII) and 128 (any non-ASCII char / byte)."""
import os
import re
from core import *
from interp import subst

ALL = frozenset(range(129))
NON = 128


def cls(spec):
    """'A-Za-z0-9_' -> set of symbols"""
    out = set()
    i = 0
    neg = spec.startswith("^")
    if neg:
        i = 1
    while i < len(spec):
        if i + 2 < len(spec) and spec[i + 1] == "-":
            out.update(range(ord(spec[i]), ord(spec[i + 2]) + 1))
            i += 3
        else:
            out.add(ord(spec[i]))
            i += 1
    return frozenset(ALL - out if neg else out)


class NFA:
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.edges = {}

    def node(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def t(self, a, s, b):
        if s:
            self.edges.setdefault(a, []).append((frozenset(s), b))

    def closure(self, ss):
        out = set(ss)
        st = list(ss)
        while st:
            x = st.pop()
            for y in self.eps.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)


# regex combinators: nested tuples
def C(spec):
    return ("c", cls(spec))


def L(s):
    return ("cat",) + tuple(("c", frozenset([ord(c)])) for c in s)


def cat(*x):
    return ("cat",) + x


def alt(*x):
    return ("alt",) + x


def star(x):
    return ("star", x)


def plus(x):
    return ("cat", x, ("star", x))


def build(nfa, r, a):
    """Add r starting at node a; returns the end node."""
    if r[0] == "c":
        b = nfa.node()
        nfa.t(a, r[1], b)
        return b
    if r[0] == "cat":
        for x in r[1:]:
            a = build(nfa, x, a)
        return a
    if r[0] == "alt":
        b = nfa.node()
        for x in r[1:]:
            s = nfa.node()
            nfa.e(a, s)
            nfa.e(build(nfa, x, s), b)
        return b
    if r[0] == "star":
        s = nfa.node()
        nfa.e(a, s)
        e = build(nfa, r[1], s)
        nfa.e(e, s)
        b = nfa.node()
        nfa.e(s, b)
        return b
    raise ValueError(r)


class DFA:
    def __init__(self, regex):
        n = NFA()
        s = n.node()
        f = build(n, regex, s)
        start = n.closure([s])
        self.ids = {start: 0}
        self.trans = []
        self.acc = []
        todo = [start]
        while todo:
            q = todo.pop(0)
            self.acc.append(f in q)
            row = []
            for a in range(129):
                nx = set()
                for x in q:
                    for ss, y in n.edges.get(x, ()):
                        if a in ss:
                            nx.add(y)
                nx = n.closure(nx)
                if nx not in self.ids:
                    self.ids[nx] = len(self.ids)
                    todo.append(nx)
                row.append(self.ids[nx])
            self.trans.append(row)


# ---------------------------------------------------------------- extraction

TOPI = (-INF, INF)


class Commit:
    """The end of a stretch of the scan: the facts known there, the symbols they
    speak of (as distances from the position reached) and the new values of the
    locations that vary from one round of the loop to the next."""
    __slots__ = ("id", "facts", "offs", "unknown", "updates", "keep", "checks", "fut", "pos", "full", "place")


class Extract:
    """Automata of the inputs (sequence `base`) driving each explored path.

    The places of an automaton are the loop heads (with their partition of the
    finite-valued locations); along the search each place also carries the
    values of the other locations the path facts depend on, as small intervals.
    A path that scans the input more than once gives several automata, whose
    languages are intersected."""

    def __init__(self, base):
        self.base = base
        self.len = mk("len", (base,))
        self.edges = {}
        self.eps = {}
        self.n = 0
        self.start = self.node()
        self.nodes = {"start": self.start}
        self.done = set()
        self.todo = []
        self.recs = {}
        self.root = {}           # rec id -> (start node, what precedes)
        self.notes = []
        self.pos = {"start": 0}
        self.commits = []
        self.fixed = {}
        self.tracks = {}
        self.memo = {}
        self.finals = {}

    def node(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b, commit=None):
        self.eps.setdefault(a, []).append((commit, b))

    def t(self, a, s, b):
        if s:
            self.edges.setdefault(a, []).append((frozenset(s), b))

    # positions ------------------------------------------------------------
    def elem_terms(self, facts):
        """elem(base, idx) terms mentioned by the facts."""
        out = {}
        for t in list(facts.iv):
            if isinstance(t, T) and t.op == "elem" and t.args[0] is self.base:
                out[t.args[1]] = t
        return out

    def scan_phi(self, rec):
        if rec.id in self.pos:
            return self.pos[rec.id]
        ints = []
        for loc, (new, old, kind) in rec.phis.items():
            if kind == "phi" and isinstance(new, T) and new.op == "phi" and (isinstance(old, int) or isinstance(old, T)):
                ints.append((loc, new, old))
        score = {}
        states = [b for _, b, _ in rec.segs] + rec.exit_states
        for b in states:
            for idx in self.elem_terms(b.facts):
                for t in lin_parts(idx)[1]:
                    score[t] = score.get(t, 0) + 1
        best = None
        for loc, new, old in ints:
            if score.get(new) and (best is None or score[new] > score[best[1]]):
                best = (loc, new, old)
        if best is None:
            for loc, new, old in ints:
                if loc[1] and loc[1][-1] == ("s", 2):
                    best = (loc, new, old)
                    break
        self.pos[rec.id] = best
        return best

    def node_pos(self, node):
        if node == "start":
            return 0
        rec = node[0]
        b = self.scan_phi(rec)
        if b is None:
            return self.node_pos(self.last(rec.entry.ev))
        return b[1]

    def last(self, ev):
        n = "start"
        for e in ev:
            if e[0] in ("head", "loop"):
                n = (e[1], e[2])
        return n

    def nid(self, node):
        k = node if node == "start" else (node[0].id, node[1])
        if k not in self.nodes:
            self.nodes[k] = self.node()
        return self.nodes[k]

    # construction -----------------------------------------------------------
    def find_elem(self, facts, idx):
        idx = facts.simp(idx)
        for i, t in self.elem_terms(facts).items():
            if i is idx or (isinstance(i, int) and isinstance(idx, int) and i == idx):
                return t
            if not (isinstance(i, int) and isinstance(idx, int)) and facts.simp(sub(i, idx)) == 0:
                return t
        return None

    def absent(self, facts, idx):
        """Symbols that the recorded searches exclude at idx."""
        out = set()
        for t in list(facts.iv):
            if not isinstance(t, T):
                continue
            if t.op == "b" and t.args[0] == "has" and t.args[1] is self.base and isinstance(t.args[4], int) \
                    and facts.decide(t) is False:
                if facts.decide(le(t.args[2], idx)) and facts.decide(lt(idx, t.args[3])):
                    out.add(t.args[4])
        for t in self.pos_terms(facts):
            if facts.decide(le(t.args[1], idx)) and facts.decide(lt(idx, t)):
                out.add(t.args[3])
        return out

    def pos_terms(self, facts):
        out = set()
        for x in list(facts.iv) + list(facts.lins):
            for t in (lin_parts(x)[1] if isinstance(x, T) else ()):
                if t.op == "pos" and t.args[0] is self.base and isinstance(t.args[3], int):
                    out.add(t)
        return out

    def symbols(self, facts, idx):
        """(symbol set, next index) of the element at idx."""
        t = self.find_elem(facts, idx)
        gone = self.absent(facts, idx)
        if t is None:
            return ALL - gone, add(idx, 1)
        rs = facts.ranges(t)
        out = set()
        for lo, hi in rs:
            out.update(range(max(lo, 0), min(hi, 127) + 1))
            if hi >= 128:
                out.add(NON)
        nx = add(idx, 1)
        if rs[0][0] >= 128:
            for w in list(facts.iv):
                if isinstance(w, T) and w.op == "clen" and isinstance(w.args[0], T) and w.args[0].op == "charat" \
                        and w.args[0].args[0] is self.base and (w.args[0].args[1] is idx or w.args[0].args[1] == idx):
                    nx = add(idx, w)
        return frozenset(out - gone), nx

    def chain(self, facts, a, p, q, b, commit):
        """Edge a->b consuming base[p..q] under facts."""
        p, q = facts.simp(p), facts.simp(q)
        n = 0
        cur = a
        while True:
            d = facts.simp(sub(q, p))
            if d == 0 or (not isinstance(d, int) and facts.decide(eqi(p, q))):
                self.e(cur, b, commit)
                return True
            if not isinstance(d, int):
                # a run skipped up to a delimiter
                m = self.delim_run(facts, p, q)
                if m is not None:
                    lp = self.node()
                    self.e(cur, lp)
                    self.t(lp, ALL - {m}, lp)
                    cur = lp
                    p = q
                    continue
                if not facts.entails_ge0(sub(d, 1)):
                    self.notes.append("cannot order %r and %r" % (p, q))
                    return False
            elif d < 0:
                self.notes.append("scan moves backwards")
                return False
            s, nx = self.symbols(facts, p)
            m = self.node()
            self.t(cur, s, m)
            cur = m
            p = facts.simp(nx)
            n += 1
            if n > 300:
                self.notes.append("unbounded stride")
                return False

    def delim_run(self, facts, p, q):
        if isinstance(q, T) and q.op == "pos" and q.args[0] is self.base and facts.simp(sub(q.args[1], p)) == 0:
            return q.args[3]
        return None

    def tail(self, facts, a, p, end):
        """From position p the path is finished: the rest of the input is only
        constrained by the facts."""
        p = facts.simp(p)
        cur = a
        n = 0
        while True:
            at_end = facts.decide(eqi(p, self.len))
            c = self.commit(facts, p, None, None, True)
            if at_end:
                self.e(cur, end, c)
                return
            inside = facts.decide(lt(p, self.len))
            if at_end is None and not inside:
                self.e(cur, end, c)
            t = self.find_elem(facts, p)
            if t is None and not self.more(facts, p):
                # anything may follow
                lp = self.node()
                if inside:
                    m = self.node()
                    self.t(cur, ALL - self.absent(facts, p), m)
                    self.e(m, lp, self.commit(facts, add(p, 1), None, None, False))
                else:
                    self.e(cur, lp, c)
                rest = ALL - self.rest_absent(facts, p)
                self.t(lp, rest, lp)
                self.e(lp, end)
                return
            s, nx = self.symbols(facts, p)
            m = self.node()
            self.t(cur, s, m)
            cur = m
            p = facts.simp(nx)
            n += 1
            if n > 300:
                self.notes.append("unbounded tail")
                self.t(cur, ALL, cur)
                self.e(cur, end)
                return

    def rest_absent(self, facts, p):
        """Symbols that cannot follow from p on."""
        out = set()
        for t in list(facts.iv):
            if isinstance(t, T) and t.op == "b" and t.args[0] == "has" and t.args[1] is self.base \
                    and isinstance(t.args[4], int) and facts.decide(t) is False \
                    and facts.decide(le(t.args[2], p)) and facts.decide(le(self.len, t.args[3])):
                out.add(t.args[4])
        return out

    def more(self, facts, p):
        for i in self.elem_terms(facts):
            d = facts.simp(sub(i, p))
            if isinstance(d, int) and d > 0:
                return True
        return False

    def commit(self, facts, q, rec, at, final):
        c = Commit()
        c.id = len(self.commits)
        c.facts = facts
        c.pos = q
        c.place = rec
        c.full = final
        c.offs = {}              # element -> how many symbols back from q (0: the next one)
        for i, t in self.elem_terms(facts).items():
            m = facts.simp(sub(q, i))
            if isinstance(m, int):
                c.offs[t] = m
        c.updates = []
        c.keep = frozenset()
        if rec is not None:
            c.keep = self.kept(rec)
            for loc, (new, old, kind) in rec.phis.items():
                if kind == "phi" and isinstance(new, T):
                    c.updates.append((new, at(loc, old)))
        c.checks = None
        self.commits.append(c)
        return c

    def kept(self, rec):
        """Symbols of the loops passed before rec, whose values stay."""
        out = set()
        n = self.last(rec.entry.ev)
        while n != "start":
            for new, _, kind in n[0].phis.values():
                if kind == "phi" and isinstance(new, T):
                    out.add(new)
            n = self.last(n[0].entry.ev)
        return frozenset(out)

    def add_loop(self, rec):
        if rec.id in self.done:
            return
        self.done.add(rec.id)
        self.recs[rec.id] = rec
        prev = self.last(rec.entry.ev)
        self.require(prev)
        b = self.scan_phi(rec)
        k0 = next(iter(rec.heads))
        f = rec.entry.facts
        p = f.simp(self.node_pos(prev))
        q = p if b is None else f.simp(b[2])
        root = self.root[prev[0].id] if prev != "start" else (self.start, None)
        src = self.nid(prev)
        if not (p is q or f.decide(eqi(p, q)) or f.entails_ge0(sub(q, p))):
            # the input is scanned once more (or may be)
            src = self.node()
            root = (src, prev)
            p = 0
        self.root[rec.id] = root
        self.chain(f, src, p, q, self.nid((rec, k0)), self.commit(f, q, rec, lambda loc, old: old, False))
        self.todo.append((rec, b, root))

    def segments(self, rec, b, root):
        for key, st, nk in rec.segs:
            node = self.last(st.ev)
            self.require(node)
            if node != "start" and self.root[node[0].id][0] != root[0]:
                self.notes.append("the input is scanned again within a scan")
            p = self.node_pos(node)
            if b is None:
                q = self.node_pos((rec, key))
            else:
                q = rec.at(st.mem, b[0])
            self.chain(st.facts, self.nid(node), p, q, self.nid((rec, nk)),
                       self.commit(st.facts, q, rec, lambda loc, old, st=st: rec.at(st.mem, loc), False))

    def require(self, node):
        if node != "start":
            self.add_loop(node[0])

    def path(self, st):
        """The automata of the inputs reaching final state st: a key for search."""
        node = self.last(st.ev)
        self.require(node)
        while self.todo:
            self.segments(*self.todo.pop())
        tracks = []
        while True:
            end = self.node()
            self.tail(st.facts, self.nid(node), self.node_pos(node), end)
            root = self.root[node[0].id] if node != "start" else (self.start, None)
            tracks.append((root[0], end))
            if root[1] is None:
                break
            node = root[1]
        key = tracks[0][1]
        self.tracks[key] = tracks
        self.finals[key] = st.facts
        self.fixed[key] = {i: self.symbols(st.facts, i)[0] for i in self.elem_terms(st.facts)
                           if isinstance(i, int) and i < CAP - 2}
        # elements counted from the end
        self.fixed[key, "end"] = {}
        for i, t in self.elem_terms(st.facts).items():
            m = st.facts.simp(sub(self.len, i))
            if isinstance(m, int) and 1 <= m <= 4 and not isinstance(i, int):
                self.fixed[key, "end"][m] = self.symbols(st.facts, i)[0]
        self.presence(key, st.facts)
        return key

    def presence(self, key, facts):
        """Searches of the whole input."""
        for t in list(facts.iv):
            if isinstance(t, T) and t.op == "b" and t.args[0] == "has" and t.args[1] is self.base \
                    and isinstance(t.args[4], int) and facts.simp(t.args[2]) == 0 and facts.decide(eqi(t.args[3], self.len)):
                v = facts.decide(t)
                if v is None:
                    continue
                a, end = self.node(), self.node()
                self.t(a, ALL - {t.args[4]}, a)
                if v:
                    m = self.node()
                    self.t(a, {t.args[4]}, m)
                    self.t(m, ALL, m)
                    self.e(m, end)
                else:
                    self.e(a, end)
                self.tracks[key].append((a, end))

        for t in list(facts.iv):
            # text that is not UTF-8 has a byte outside ASCII
            if isinstance(t, T) and t.op == "b" and t.args[0] == "utf8" and facts.decide(t) is False \
                    and isinstance(t.args[1], T) and t.args[1].op == "seq":
                p = t.args[1].args
                if len(p) == 1 and p[0][0] == "sub" and p[0][1] is self.base:
                    a, end, m = self.node(), self.node(), self.node()
                    self.t(a, ALL, a)
                    self.t(a, {NON}, m)
                    self.t(m, ALL, m)
                    self.e(m, end)
                    self.tracks[key].append((a, end))

    # values along the search ------------------------------------------------
    def prepare(self):
        """Which symbols matter, and how finely."""
        if self.commits and self.commits[-1].checks is not None:
            return
        phis = set()
        for c in self.commits:
            for new, _ in c.updates:
                phis.add(new)
        self.leafs = {}
        bounds = {}
        dep = {}

        def atoms(x):
            out = []
            for t in lin_parts(x)[1]:
                if t.op == "trunc":
                    out += atoms(t.args[0])
                else:
                    out.append(t)
            return out

        def root(t):
            return t if t in phis else t.args[0] if t.op == "fld" and t.args[0] in phis else None

        want = set()
        scans = {b[1] for b in self.pos.values() if isinstance(b, tuple)}
        for c in self.commits:
            c.checks = []
            f = c.facts
            top = f.hull(self.len)[1]
            known = set(c.offs)

            def note(x, rs, kind):
                ats = atoms(x)
                if not any(root(t) is not None or t in known for t in ats):
                    return
                if kind == "iv":
                    if len(ats) == 1 and ats[0] in scans and rs[-1][1] + 1 >= top:
                        # no more than the length itself says
                        rs = rs[:-1] + ((rs[-1][0], INF),)
                    d = f.default(x) if x.op != "lin" else ((-INF, INF),)
                    if iv_and(((-301, 301),), rs) == iv_and(((-301, 301),), d) and rs[0][0] <= 301:
                        return
                c.checks.append((kind, x, rs))
                for t in ats:
                    r = root(t)
                    if r is not None:
                        want.add(r)
                        cs = bounds.setdefault(r, set())
                        k0 = lin_parts(x)[0]
                        cs.update(abs(v) + abs(k0) for lo_hi in rs for v in lo_hi if abs(v) <= 301 and abs(k0) <= 301)
            for t, rs in f.iv.items():
                if isinstance(t, T):
                    note(t, rs, "iv")
            for l in f.lins:
                if all(root(t) is not None or t in known for t in atoms(l)):
                    note(l, ((0, INF),), "lin")
            for x in f.nes:
                if all(root(t) is not None or t in known for t in atoms(x)):
                    note(x, ((0, 0),), "ne")
            for t, vs in f.var.items():
                if t in phis:
                    c.checks.append(("var", t, vs))
                    want.add(t)
        for c in self.commits:
            for new, v in c.updates:
                d = dep.setdefault(new, set())
                stack = [v]
                while stack:
                    v = stack.pop()
                    if isinstance(v, Agg):
                        stack += list(v.f)
                    elif isinstance(v, T):
                        for t in self.subterms(v):
                            if t in phis:
                                d.add(t)
        todo = list(want)
        while todo:
            x = todo.pop()
            for y in dep.get(x, ()):
                if y not in want:
                    want.add(y)
                    todo.append(y)
        self.want = want
        self.bound = {}
        # a value that feeds another has to be told apart as finely
        for x in want:
            self.bound[x] = max([1] + [v for v in bounds.get(x, ())])
        for _ in range(3):
            for x in want:
                for y in dep.get(x, ()):
                    if y in self.bound and self.bound[y] < self.bound[x]:
                        self.bound[y] = self.bound[x]
        self.memo = {}

    def subterms(self, t):
        out = []
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, T):
                out.append(x)
                st += [y for y in x.args if isinstance(y, (T, tuple))]
            elif isinstance(x, tuple):
                st += [y for y in x if isinstance(y, (T, tuple))]
        return out

    def ev(self, x, env, offs, hist, exact=None):
        """Interval of an integer term."""
        if isinstance(x, int):
            return (int(x), int(x))
        if x.op == "lin":
            lo = hi = x.args[0]
            for t, k in x.args[1]:
                a, b = self.ev(t, env, offs, hist, exact)
                if k < 0:
                    a, b = b, a
                lo += k * a if abs(a) < INF else (-INF)
                hi += k * b if abs(b) < INF else INF
            return (max(lo, -INF), min(hi, INF))
        v = env.get(x)
        if v is not None:
            return v
        m = offs.get(x)
        if m is not None and 1 <= m <= len(hist) and hist[-m] is not None:
            a = hist[-m]
            return (a, a) if a < 128 else (128, x.ty.int_range()[1] if x.ty is not None and x.ty.int_range() else 0x10ffff)
        if x.op == "trunc":
            a, b = self.ev(x.args[0], env, offs, hist, exact)
            r = x.ty.int_range()
            if a == b and r[0] == 0:
                a = b = a % (r[1] + 1)
            return (a, b) if r[0] <= a and b <= r[1] else r
        if x.op in ("ge0", "eq0", "not") or x.ty is not None and x.ty.k == "bool":
            r = self.evb(x, env, offs, hist, exact)
            return (0, 1) if r is None else (int(r), int(r))
        if exact is not None:
            r = exact(x)
            if r is not None:
                return r
        if x.ty is not None and x.ty.int_range():
            return x.ty.int_range()
        return TOPI

    def evb(self, c, env, offs, hist, exact=None):
        if isinstance(c, int):
            return bool(c)
        if c.op == "not":
            r = self.evb(c.args[0], env, offs, hist, exact)
            return None if r is None else not r
        if c.op in ("ge0", "eq0"):
            lo, hi = self.ev(c.args[0], env, offs, hist, exact)
            if c.op == "ge0":
                return True if lo >= 0 else False if hi < 0 else None
            return False if lo > 0 or hi < 0 else True if lo == hi == 0 else None
        v = env.get(c)
        if v is not None and v[0] == v[1]:
            return bool(v[0])
        return None

    def leaves(self, phi, v, env, offs, hist, facts, out, exact=None):
        """Values of a location (and of the fields of an enum) -> out."""
        if isinstance(v, Agg):
            if v.ty.is_enum:
                out[("var", phi)] = frozenset([v.v])
            for i, x in enumerate(v.f):
                if isinstance(x, (int, T)) or isinstance(x, Agg):
                    try:
                        fl = sym_field(phi, v.v, i)
                    except Exception:
                        continue
                    if isinstance(fl, T):
                        self.leaves(fl, x, env, offs, hist, facts, out, exact)
            return
        if isinstance(v, T) and v.ty is not None and v.ty.k == "adt":
            for k, x in env.items():
                if k == ("var", v):
                    out[("var", phi)] = x
                elif isinstance(k, T) and k.op == "fld" and k.args[0] is v:
                    out[mk("fld", (phi,) + k.args[1:], k.ty)] = x
            return
        if isinstance(v, int):
            out[phi] = (int(v), int(v))
            return
        if isinstance(v, T):
            if v.ty is not None and v.ty.k == "bool" or v.op in ("ge0", "eq0", "not"):
                r = facts.decide(v)
                if r is None:
                    r = self.evb(v, env, offs, hist, exact)
                out[phi] = (0, 1) if r is None else (int(r), int(r))
                return
            lo, hi = self.ev(v, env, offs, hist, exact)
            if exact is None:
                h = facts.hull(v)
                lo, hi = max(lo, h[0]), min(hi, h[1])
            out[phi] = (lo, hi)

    def base_of(self, phi):
        while phi.op == "fld":
            phi = phi.args[0]
        return phi

    def step(self, c, env, hist):
        """(environment, constraints on the symbols to come) after a commit, or
        None when its facts cannot hold."""
        key = (c.id, env, hist)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = r = self.step_(c, dict(env), hist)
        return r

    def step_(self, c, env, hist):
        for kind, x, rs in c.checks:
            if kind == "var":
                v = env.get(("var", x))
                if v is not None and not v & rs:
                    return None
                continue
            lo, hi = self.ev(x, env, c.offs, hist)
            if kind == "ne":
                if lo == hi == 0:
                    return None
            elif not any(a <= hi and lo <= b for a, b in rs):
                return None
        fut = {}
        for t, m in c.offs.items():
            if -8 <= m <= 0:
                s = set()
                for lo, hi in c.facts.ranges(t):
                    s.update(range(max(lo, 0), min(hi, 127) + 1))
                    if hi >= 128:
                        s.add(NON)
                if len(s) < len(ALL):
                    fut[-m] = frozenset(s)
        out = {k: v for k, v in env.items() if self.base_of(k[1] if isinstance(k, tuple) else k) in c.keep}
        if c.place is not None:
            for new, v in c.updates:
                if new not in self.want:
                    continue
                o = {}
                self.leaves(new, v, env, c.offs, hist, c.facts, o)
                for k, iv in o.items():
                    if isinstance(k, tuple):
                        out[k] = iv
                        continue
                    lo, hi = iv
                    if not (k.ty is not None and k.ty.int_range() and k.ty.int_range()[1] <= 0x10ffff and k.ty.int_range()[1] != 65535
                            and (lo == hi or lo >= 128)):
                        K = self.bound.get(self.base_of(k), 1) + 1
                        if lo > K:
                            lo = K + 1
                        if hi > K:
                            hi = INF
                        if lo < -K:
                            lo = -INF
                        if hi < -K:
                            hi = -K - 1
                    out[k] = (lo, hi)
        return (tuple(sorted(out.items(), key=lambda kv: repr(kv[0]) if isinstance(kv[0], tuple) else "%09d" % kv[0].id)),
                tuple(fut.get(i) for i in range(max(fut) + 1)) if fut else ())

    def history(self):
        h = 0
        for c in self.commits:
            for t, m in c.offs.items():
                if 1 <= m <= 8 and (any(t in lin_parts(x)[1] for _, x, _ in c.checks if isinstance(x, T))
                                    or any(isinstance(v, (T, Agg)) and n in self.want and self.mentions(v, t) for n, v in c.updates)):
                    h = max(h, m)
        return h

    def mentions(self, v, t):
        if isinstance(v, Agg):
            return any(self.mentions(x, t) for x in v.f)
        return isinstance(v, T) and t in self.subterms(v)

    def blocks(self, dfa, extra):
        """Representatives of the symbols that nothing tells apart."""
        sets = set()
        for es in self.edges.values():
            for s, _ in es:
                sets.add(s)
        cuts = set()
        multi = False
        for c in self.commits:
            for kind, x, rs in c.checks:
                if kind == "var":
                    continue
                ats = lin_parts(x)[1]
                el = [t for t in ats if t in c.offs or (t.ty is not None and t.ty.s in ("u8", "char"))]
                if len(el) > 1 or (el and len(ats) > 1) or (el and list(ats.values()) not in ([1], [-1])) or \
                        any(t.op == "trunc" for t in ats):
                    multi = True
                k0 = lin_parts(x)[0]
                for lo, hi in rs:
                    for v in (lo - k0, hi - k0 + 1, k0 - lo + 1, k0 - hi):
                        cuts.add(v)
            for new, v in c.updates:
                if new in self.want:
                    for y in (v.f if isinstance(v, Agg) else [v]):
                        if isinstance(y, T) and y not in c.offs and any(t in c.offs for t in self.subterms(y)):
                            multi = True
        sets |= set(extra)
        if multi:
            return sorted(ALL)
        rep = {}
        cs = sorted(cuts)
        import bisect
        for a in sorted(ALL):
            sig = (tuple(a in s for s in sets), tuple(r[a] for r in dfa.trans), bisect.bisect_right(cs, a))
            rep.setdefault(sig, a)
        return sorted(rep.values())


CAP = 300
INFEASIBLE = object()


def search(ext, key, dfa, want_acc, lo, hi):
    """A word (list of symbols) driving the path `key` with length in [lo,hi]
    and with dfa acceptance == want_acc, or None; with whether the path is
    certain to take it."""
    ext.prepare()
    fixed = {i: s for i, s in ext.fixed.get(key, {}).items() if s != ALL}
    fend = {i: s for i, s in ext.fixed.get((key, "end"), {}).items() if s != ALL}
    if lo > 0 or hi < INF:
        # without the lengths first: nothing there means nothing at all
        if bfs(ext, key, dfa, want_acc, 0, INF, fixed, fend, None) is None:
            return None
        if hi == INF or hi > LEN_MAX // 2:
            ls = lengths(ext, key, lo)
            if ls and ls[0] > lo:
                lo = ls[0]
    cap = max(min(lo, CAP), min(hi + 1, CAP)) if (lo > 0 or hi < INF) else 0
    found = []
    bfs(ext, key, dfa, want_acc, lo, hi, fixed, fend, found, min(cap, CAP))
    if not found:
        return None
    for w, sure in found:
        if sure:
            return w, True
    for w, sure in found:
        if sure is None:
            return w, False
    return found[0][0], False


def bfs(ext, key, dfa, want_acc, lo, hi, fixed, fend, found, cap=0):
    tracks = ext.tracks[key]
    edges, eps = ext.edges, ext.eps
    rev = {}
    for a, bs in eps.items():
        for _, b in bs:
            rev.setdefault(b, set()).add(a)
    for a, es in edges.items():
        for s, b in es:
            rev.setdefault(b, set()).add(a)
    live = []
    for _, end in tracks:
        good = {end}
        st = [end]
        while st:
            x = st.pop()
            for y in rev.get(x, ()):
                if y not in good:
                    good.add(y)
                    st.append(y)
        live.append(good)
    if fixed:
        cap = max(cap, max(fixed) + 2)
    cap = min(cap, CAP)
    H = max(ext.history(), max(fend) if fend else 0)
    syms = ext.blocks(dfa, list(fixed.values()) + list(fend.values()))
    from collections import deque
    start = (0, 0, (), tuple((s, (), ()) for s, _ in tracks))
    prev = {start: None}
    dq = deque([start])
    ends = 0
    steps = 0

    def succ(cur):
        q, n, hist, ts = cur
        # silent moves of one automaton
        for i, (x, env, fut) in enumerate(ts):
            for c, y in eps.get(x, ()):
                if y not in live[i]:
                    continue
                e2, f2 = env, fut
                if c is not None:
                    r = ext.step(c, env, hist)
                    if r is None:
                        continue
                    e2 = r[0]
                    if r[1]:
                        f2 = tuple(meet(fut[j] if j < len(fut) else None, r[1][j] if j < len(r[1]) else None)
                                   for j in range(max(len(fut), len(r[1]))))
                yield None if c is None else (i, c), (q, n, hist, ts[:i] + ((y, e2, f2),) + ts[i + 1:])
        # a symbol, read by all
        opts = []
        for i, (x, env, fut) in enumerate(ts):
            o = [(s, y, env, fut) for s, y in edges.get(x, ()) if y in live[i]]
            if not o:
                return
            opts.append(o)
        for a in syms:
            if n in fixed and a not in fixed[n]:
                continue
            combos = [()]
            for o in opts:
                combos = [cb + ((y, env, fut[1:]),) for cb in combos for s, y, env, fut in o
                          if a in s and (not fut or fut[0] is None or a in fut[0])]
                if not combos:
                    break
            if not combos:
                continue
            nq = dfa.trans[q][a]
            nh = (hist + (a,))[-H:] if H else ()
            for cb in combos:
                yield a, (nq, min(n + 1, cap), nh, cb)

    def back(x, prev):
        """Labels and states leading to x."""
        out = []
        while prev[x] is not None:
            y, s = prev[x]
            out.append((s, x))
            x = y
        return out[::-1]

    while dq:
        cur = dq.popleft()
        steps += 1
        if steps & 1023 == 0:
            Clock.check()
        q, n, hist, ts = cur
        if dfa.acc[q] == want_acc and n >= min(lo, cap) and n <= hi and all(t[0] == tr[1] for t, tr in zip(ts, tracks)) \
                and all(len(hist) >= m and hist[-m] in s for m, s in fend.items()):
            tr = back(cur, prev)
            w = [s for s, _ in tr if isinstance(s, int)]
            if found is None:
                return w
            sure = False
            for v in pump(ext, key, tr, len(w), lo, cap, succ, back):
                total = sum(isinstance(s, int) for s, _ in v)
                sure = replay(ext, key, [("s", s) if isinstance(s, int) else ("c",) + s for s, _ in v if s is not None], total)
                w = [s for s, _ in v if isinstance(s, int)]
                if sure:
                    break
            found.append((w, sure))
            ends += 1
            if sure or ends > 40:
                return None
            continue
        for s, k in succ(cur):
            if k not in prev:
                prev[k] = (cur, s)
                dq.append(k)
    return None


def lengths(ext, key, n):
    """Some lengths from n on that the facts about the length allow."""
    f = ext.finals[key]
    ok = []
    lens = {n, n + 1, n + 2, n + 3}
    base = f.ranges(ext.len)
    for a, b in base:
        lens.update(range(max(a, n), min(b, max(a, n) + 8) + 1))
    for t, rs in f.iv.items():
        if isinstance(t, T) and t.op == "trunc" and t.args[0] is ext.len:
            w = t.ty.int_range()[1] + 1
            for a, b in rs:
                lens.update(range(w + max(a, 0), w + min(b, a + 8) + 1))
    for L in sorted(lens):
        good = any(a <= L <= b for a, b in base) and n <= L <= 300000
        for t, rs in f.iv.items():
            if isinstance(t, T) and t.op == "trunc" and t.args[0] is ext.len:
                v = L % (t.ty.int_range()[1] + 1)
                good = good and any(a <= v <= b for a, b in rs)
        if good:
            ok.append(L)
    return ok


def pump(ext, key, tr, n, lo, cap, succ, back):
    """The trace found, and with a cycle repeated until the length is one that
    the facts about the length allow."""
    ok = lengths(ext, key, n)
    if n in ok or not ok:
        yield tr
        if not ok:
            return
    if n < cap or not cap:
        return
    # a cycle through a state of the trace
    from collections import deque
    tried = 0
    for j, (_, x) in enumerate(tr):
        if x[1] != cap:
            continue
        tried += 1
        if tried > 12:
            return
        seen = {}
        dq = deque([x])
        first = True
        loop = None
        while dq and loop is None and len(seen) < 3000:
            y = dq.popleft()
            for s, k in succ(y):
                if k == x:
                    seen[("end",)] = (y, s)
                    loop = []
                    z, lab = y, s
                    loop.append((lab, x))
                    while z != x:
                        z2, lab = seen[z]
                        loop.append((lab, z))
                        z = z2
                    loop = loop[::-1]
                    break
                if k not in seen and k != x:
                    seen[k] = (y, s)
                    dq.append(k)
        if loop is None:
            continue
        g = sum(isinstance(s, int) for s, _ in loop)
        if g == 0:
            continue
        for L in ok:
            if L >= n and (L - n) % g == 0:
                yield tr[:j + 1] + loop * ((L - n) // g) + tr[j + 1:]
                return


def meet(a, b):
    return b if a is None else a if b is None else a & b


def replay(ext, key, trace, total):
    """Do the facts of the path hold of the word found?  True, or None where
    one of them is not known to, or False where one of them does not."""
    env = {}
    sure = True
    word_ = [x[1] for x in trace if x[0] == "s"]
    moves = []
    for i in reversed(range(len(ext.tracks[key]))):
        hist = ()
        for x in trace:
            if x[0] == "s":
                hist = (hist + (x[1],))[-16:]
            elif x[1] == i:
                moves.append((i, x[2], hist))
    for i, c, hist in moves:
        def exact(t, c=c, hist=hist):
            if t is ext.len:
                return (total, total)
            if t.op == "elem" and t.args[0] is ext.base:
                a, b = ext.ev(t.args[1], env, c.offs, hist, exact)
                if a == b and 0 <= a < total:
                    v = word_[a]
                    return (v, v) if v < 128 else (128, 255)
            if t.op == "pos" and t.args[0] is ext.base and isinstance(t.args[3], int):
                a, b = ext.ev(t.args[1], env, c.offs, hist, exact)
                if a == b and t.args[3] in word_[a:]:
                    v = word_.index(t.args[3], a)
                    return (v, v)
            if t.op in ("trimws", "trim") and t.args[0] is ext.base:
                lo = ext.ev(t.args[1], env, c.offs, hist, exact)
                hi = ext.ev(t.args[2], env, c.offs, hist, exact)
                if lo[0] == lo[1] and hi[0] == hi[1] and 0 <= lo[0] <= hi[0] <= len(word_):
                    v = trimmed(word_, lo[0], hi[0], (9, 10, 11, 12, 13, 32) if t.op == "trimws" else (t.args[3],), t.args[-1])
                    if v is not None:
                        return (v, v)
            return None
        f = c.facts

        def later(t, i=i):
            """Of a scan that comes later, and has these facts, too."""
            return i > 0 and isinstance(t, T) and any(
                x.op == "phi" and x not in env and ("var", x) not in env for x in ext.subterms(t))
        for t, rs in f.iv.items():
            if later(t):
                continue
            if not isinstance(t, T) or t.op in ("b",) or (t.op == "elem" and t.args[0] is not ext.base):
                r = bool_fact(ext, t, env, c, hist, exact, word_) if isinstance(t, T) and t.op == "b" else None
                if r is None:
                    if not (isinstance(t, T) and one_char(ext, t)):
                        sure = doubt(sure, t)
                elif not any(a <= int(r) <= b for a, b in rs):
                    return False
                continue
            if iv_and(rs, f.default(t)) == f.default(t) or byte_fn(t) is not None:
                continue
            a, b = ext.ev(t, env, c.offs, hist, exact)
            if not any(lo <= b and a <= hi for lo, hi in rs):
                return False
            if not any(lo <= a and b <= hi for lo, hi in rs) and not one_char(ext, t):
                sure = doubt(sure, t)
        for t in f.lins:
            if later(t):
                continue
            a, b = ext.ev(t, env, c.offs, hist, exact)
            if b < 0:
                return False
            if a < 0:
                sure = doubt(sure, t)
        for t in f.nes:
            if later(t):
                continue
            a, b = ext.ev(t, env, c.offs, hist, exact)
            if a == b == 0:
                return False
            if a <= 0 <= b:
                sure = doubt(sure, t)
        for t, vs in f.var.items():
            v = env.get(("var", t))
            if v is None and later(t):
                continue
            if v is None:
                sure = doubt(sure, t)
            elif not v & vs:
                return False
        if c.place is not None:
            out = {}
            for new, v in c.updates:
                ext.leaves(new, v, env, c.offs, hist, f, out, exact)
            env.update(out)
    return sure


def trimmed(w, lo, hi, gone, back):
    """Where the characters `gone` at one end of w[lo:hi] are."""
    while lo < hi:
        c = w[hi - 1] if back else w[lo]
        if len(gone) > 1 and not 0 <= c < 128:
            return None
        if c not in gone:
            break
        if back:
            hi -= 1
        else:
            lo += 1
    return hi if back else lo


def doubt(sure, t):
    if os.environ.get("DBUS_LOG"):
        print("doubt", t)
    return None if sure else sure


def one_char(ext, t):
    """A predicate of single characters of the input: some character satisfies it."""
    return all(x.op in ("b", "elem", "charat", "clen", "phi", "lin", "len", "in", "deref", "ref", "sub", "as", "fld") or x is ext.base
               for x in ext.subterms(t)) and any(x.op in ("elem", "charat") for x in ext.subterms(t))


def bool_fact(ext, t, env, c, hist, exact, w):
    if t.args[0] == "has" and t.args[1] is ext.base and isinstance(t.args[4], int):
        lo = ext.ev(t.args[2], env, c.offs, hist, exact)
        hi = ext.ev(t.args[3], env, c.offs, hist, exact)
        if lo[0] == lo[1] and hi[0] == hi[1]:
            return t.args[4] in w[lo[0]:hi[0]]
    return None


def word(w):
    return "".join(chr(c) if 32 <= c < 127 else ("\\x%02x" % c if c < 128 else "é") for c in w)


def len_window(facts, base):
    ln = mk("len", (base,))
    rs = facts.ranges(ln)
    return rs[0][0], min(rs[-1][1], INF)


# ---------------------------------------------------------------- grammars

AN_ = "A-Za-z0-9_"
A_ = "A-Za-z_"
ELEM = cat(C(A_), star(C(AN_)))
SPEC = {
    "member": ELEM,
    "interface": cat(ELEM, plus(cat(L("."), ELEM))),
    "error": cat(ELEM, plus(cat(L("."), ELEM))),
    "unique": cat(L(":"), plus(C("A-Za-z0-9_-")), plus(cat(L("."), plus(C("A-Za-z0-9_-"))))),
    "wellknown": cat(cat(C("A-Za-z_-"), star(C("A-Za-z0-9_-"))),
                     plus(cat(L("."), cat(C("A-Za-z_-"), star(C("A-Za-z0-9_-")))))),
    "path": alt(L("/"), plus(cat(L("/"), plus(C(AN_))))),
}
SPEC["bus"] = alt(SPEC["unique"], SPEC["wellknown"])
