"""Abstract values, linear terms and the fact domain (intervals, congruences,
linear inequalities, variant sets) of the analyser."""
import time


class Unsupported(Exception):
    pass


class Clock:
    """Wall-clock limit of one obligation; past it the obligation is undecided."""
    END = None
    LIMIT = None        # of the check as a whole
    FACTOR = 1

    @classmethod
    def start(cls, seconds):
        cls.END = time.time() + seconds * cls.FACTOR
        if cls.LIMIT is not None:
            cls.END = min(cls.END, cls.LIMIT)

    @classmethod
    def check(cls):
        if cls.END is not None and time.time() > cls.END:
            raise Unsupported("the time limit of an obligation is over")


class Fork(Exception):
    """The abstract state must be partitioned: alts is a list of assumption closures."""

    def __init__(self, alts, why=""):
        Exception.__init__(self, why)
        self.alts = alts


_tab = {}
_ctr = [0]


class T:
    """Interned symbolic term."""
    __slots__ = ("op", "args", "ty", "id")

    def __repr__(self):
        return show(self)


def mk(op, args, ty=None):
    key = (op, args, ty.id if ty is not None else None)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.ty = ty
        t.id = len(_tab)
        _tab[key] = t
    return t


def fresh(name, ty=None):
    _ctr[0] += 1
    return mk("sym", (name, _ctr[0]), ty)


def uid():
    _ctr[0] += 1
    return _ctr[0]


def show(x, d=0):
    if isinstance(x, T):
        if d > 8:
            return "…"
        if x.op == "lin":
            c, its = x.args
            s = []
            for t, k in its:
                s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + show(t, d + 1))
            if c:
                s.append(str(c))
            return "(" + "+".join(s) + ")"
        if x.op in ("sym",):
            return "%s#%s" % (x.args[0], x.args[1])
        if x.op == "in":
            return str(x.args[0])
        return "%s(%s)" % (x.op, ",".join(show(a, d + 1) for a in x.args))
    if isinstance(x, tuple):
        return "(" + ",".join(show(a, d + 1) for a in x) + ")"
    return repr(x)


# ---------------------------------------------------------------- linear arithmetic

def lin_parts(x):
    if isinstance(x, int):
        return int(x), {}
    if x.op == "lin":
        return x.args[0], dict(x.args[1])
    return 0, {x: 1}


_scale = {}


def mk_lin(c, d):
    its = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda p: p[0].id))
    if not its:
        return c
    if c == 0 and len(its) == 1 and its[0][1] == 1:
        return its[0][0]
    return mk("lin", (c, its))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + k
    return mk_lin(ca + cb, da)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 1:
        return a
    r = _scale.get((a, k))
    if r is None:
        c, d = lin_parts(a)
        r = _scale[(a, k)] = mk_lin(c * k, {t: q * k for t, q in d.items()})
    return r


def sub(a, b):
    return add(a, scale(b, -1))


def ge0(x):
    """Condition x >= 0."""
    if isinstance(x, int):
        return 1 if x >= 0 else 0
    return mk("ge0", (x,))


def eq0(x):
    if isinstance(x, int):
        return 1 if x == 0 else 0
    c, d = lin_parts(x)
    first = min(d, key=lambda t: t.id)
    if d[first] < 0:
        x = scale(x, -1)
    return mk("eq0", (x,))


def lnot(b):
    if isinstance(b, int):
        return 1 - b
    if b.op == "not":
        return b.args[0]
    if b.op == "ge0":
        return ge0(sub(-1, b.args[0]))
    return mk("not", (b,))


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), 1))


def eqi(a, b):
    return eq0(sub(a, b))


INF = 1 << 200


# ---------------------------------------------------------------- interval sets

def iv_norm(rs):
    rs = sorted(r for r in rs if r[0] <= r[1])
    out = []
    for lo, hi in rs:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def iv_and(a, b):
    out = []
    for x in a:
        for y in b:
            lo, hi = max(x[0], y[0]), min(x[1], y[1])
            if lo <= hi:
                out.append((lo, hi))
    return iv_norm(out)


def iv_minus(a, b):
    out = list(a)
    for y in b:
        nxt = []
        for x in out:
            if y[1] < x[0] or y[0] > x[1]:
                nxt.append(x)
            else:
                if x[0] < y[0]:
                    nxt.append((x[0], y[0] - 1))
                if y[1] < x[1]:
                    nxt.append((y[1] + 1, x[1]))
        out = nxt
    return iv_norm(out)


BYTE_OPS = {"bitor": lambda v, k: v | k, "bitxor": lambda v, k: v ^ k, "and": lambda v, k: v & k}


def byte_fn(t):
    """(byte atom, value of t for each value of the byte) of a bit operation with a constant; None."""
    if t.op not in BYTE_OPS or len(t.args) != 2 or not isinstance(t.args[1], int):
        return None
    x = t.args[0]
    if isinstance(x, T) and x.op not in ("lin", "in") and x.ty is not None and x.ty.int_range() == (0, 255):
        inner = byte_fn(x)
        f = BYTE_OPS[t.op]
        if inner is not None:
            return inner[0], [f(v, t.args[1]) for v in inner[1]]
        return x, [f(v, t.args[1]) for v in range(256)]
    return None


def iv_cong(rs, m, r):
    """Tighten interval ends to the residue class r modulo m."""
    out = []
    for lo, hi in rs:
        lo += (r - lo) % m
        hi -= (hi - r) % m
        if lo <= hi:
            out.append((lo, hi))
    return tuple(out)


LEN_MAX = (1 << 63) - 1
# a list of file descriptors is bounded by the 128 MiB limit of messages
# (the values that name them take four bytes each); stated as an assumption
FDS_MAX = 1 << 27


_indexed = {}


def indexed(t):
    """Does the term mention an element at a computed place?"""
    r = _indexed.get(t)
    if r is None:
        r = t.op == "elem" and isinstance(t.args[1], T)
        if not r:
            st = list(t.args)
            while st and not r:
                x = st.pop()
                if isinstance(x, T):
                    r = indexed(x)
                elif isinstance(x, tuple):
                    st += x
        _indexed[t] = r
    return r


NAME_STRUCTS = ("Interface", "Member", "Error", "ObjectPath", "UniqueConnectionName", "WellKnownBusName")
_kinds = {}


def name_kind(t):
    """The name type the text `t` is the inside of (each was checked when it was made: C04, C05, C17)."""
    k = _kinds.get(t, 0)
    if k == 0:
        x = t
        while isinstance(x, T) and x.op in ("deref", "seq"):
            x = x.args[0]
        k = None
        if isinstance(x, T) and x.op == "fld" and isinstance(x.args[0], T):
            ty = x.args[0].ty
            while ty is not None and ty.k == "ref":
                ty = ty.elem
            if ty is not None and ty.k == "adt" and not ty.is_enum:
                n = ty.d["name"].split("<")[0].split("::")[-1]
                k = n if n in NAME_STRUCTS else None
        _kinds[t] = k
    return k


def last_of_path(t):
    """(length, last byte) when t is one of them, of an object path."""
    if t.op == "len":
        base = t.args[0]
        return (t, None) if isinstance(base, T) and name_kind(base) == "ObjectPath" else None
    base, i = t.args
    if isinstance(i, T) and i.op == "lin" and i.args[0] == -1 and len(i.args[1]) == 1 and isinstance(base, T):
        n, k = i.args[1][0]
        if k == 1 and n.op == "len" and n.args[0] is base and name_kind(base) == "ObjectPath":
            return (n, t)
    return None


class Facts:
    __slots__ = ("iv", "lins", "nes", "var", "cong", "bl", "log")

    def __init__(self):
        self.iv = {}
        self.lins = ()
        self.nes = frozenset()
        self.var = {}
        self.cong = {}
        self.bl = {}
        self.log = ()

    def copy(self):
        f = Facts()
        f.iv = dict(self.iv)
        f.lins = self.lins
        f.nes = self.nes
        f.var = dict(self.var)
        f.cong = dict(self.cong)
        f.bl = dict(self.bl)
        f.log = self.log
        return f

    # ---- ranges
    def default(self, t):
        if t.op == "len":
            ty = t.args[0].ty if isinstance(t.args[0], T) else None
            if ty is not None and is_seq_ty(ty) and seq_elem_ty(ty).s == "i32":
                return ((0, FDS_MAX),)
            if isinstance(t.args[0], T) and name_kind(t.args[0]) is not None:
                return ((1, LEN_MAX),)
            return ((0, LEN_MAX),)
        if t.op == "elem" and len(t.args) == 2 and isinstance(t.args[0], T) and t.ty is not None and t.ty.s == "u8":
            k = name_kind(t.args[0])
            if k is not None:
                if t.args[1] == 0 and k in ("ObjectPath", "UniqueConnectionName"):
                    return ((47, 47),) if k == "ObjectPath" else ((58, 58),)
                return ((45, 57), (65, 90), (95, 95), (97, 122)) if t.args[1] == 0 else \
                    ((45, 58), (65, 90), (95, 95), (97, 122))
        if t.ty is not None:
            r = t.ty.int_range()
            if r:
                return (r,)
        if t.op == "clen":
            return ((1, 4),)
        if t.op in ("ge0", "eq0", "not", "b"):
            return ((0, 1),)
        return ((-INF, INF),)

    def ranges(self, t):
        r = self.iv.get(t)
        if r is None:
            r = self.default(t)
        if t.op in BYTE_OPS:
            bf = byte_fn(t)
            if bf is not None:
                img = iv_norm((bf[1][v], bf[1][v]) for a, b in self.ranges(bf[0]) for v in range(max(a, 0), min(b, 255) + 1))
                r = iv_and(r, img) or r
        elif t.op == "elem":
            p = last_of_path(t)
            if p is not None:
                n = self.ranges(p[0])
                if n[0][0] > 1:
                    r = iv_minus(r, ((47, 47),)) or r
                elif n == ((1, 1),):
                    r = iv_and(r, ((47, 47),)) or r
        return r

    def hull(self, x):
        if isinstance(x, int):
            return (x, x)
        if x.op == "lin":
            c, its = x.args
            lo = hi = c
            for t, k in its:
                r = self.ranges(t)
                a, b = r[0][0], r[-1][1]
                if k > 0:
                    lo += k * a
                    hi += k * b
                else:
                    lo += k * b
                    hi += k * a
            return (lo, hi)
        r = self.ranges(x)
        return (r[0][0], r[-1][1])

    def const(self, x):
        """Constant value of an int term under the facts, or None."""
        if isinstance(x, int):
            return x
        lo, hi = self.hull(x)
        if lo == hi:
            return lo
        return None

    def simp(self, x):
        """Replace atoms that are constant under the facts."""
        if isinstance(x, int):
            return x
        if x.op == "lin":
            c, its = x.args
            d = {}
            ch = False
            for t, k in its:
                v = self.iv.get(t)
                if v is not None and len(v) == 1 and v[0][0] == v[0][1]:
                    c += k * v[0][0]
                    ch = True
                else:
                    d[t] = k
            return mk_lin(c, d) if ch else x
        v = self.iv.get(x)
        if v is not None and len(v) == 1 and v[0][0] == v[0][1]:
            return v[0][0]
        return x

    # ---- entailment of x >= 0
    def entails_ge0(self, x, depth=4):
        """x >= 0 by the intervals, or as a positive combination of recorded
        inequalities plus a non-negative remainder."""
        lo, hi = self.hull(x)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if depth == 0 or not self.lins:
            return False
        Clock.check()
        return self._ent(x, depth, (), [4000])

    def _ent(self, x, depth, used, fuel):
        fuel[0] -= 1
        if fuel[0] < 0:
            return False
        c, d = lin_parts(x)
        lo = c
        worst = None
        wv = 0
        for t, k in d.items():
            r = self.ranges(t)
            v = k * (r[0][0] if k > 0 else r[-1][1])
            lo += v
            if v < wv:
                wv = v
                worst = t
        if lo >= 0:
            return True
        if depth == 0:
            return False
        # the atom that pulls the bound down most has to be eliminated
        for w in ((worst,) if worst is not None else tuple(d)):
            q = d[w]
            for l in self.lins:
                if l in used:
                    continue
                ld = lin_parts(l)[1]
                k = ld.get(w)
                if not k or (k > 0) != (q > 0) or q % k:
                    continue
                rest = sub(x, scale(l, q // k))
                if isinstance(rest, int):
                    if rest >= 0:
                        return True
                elif self._ent(rest, depth - 1, used + (l,), fuel):
                    return True
        return False

    # ---- truncations that lose nothing
    def fits(self, t):
        """The operand of a truncation that is known to keep its value, or None."""
        x, ty = t.args
        r = t.ty.int_range()
        lo, hi = self.hull(x)
        if (r[0] <= lo or self.entails_ge0(sub(x, r[0]))) and (hi <= r[1] or self.entails_ge0(sub(r[1], x))):
            return x
        return None

    def untrunc(self, x):
        if isinstance(x, int):
            return x
        c, d = lin_parts(x)
        for t in d:
            if t.op == "trunc":
                y = self.fits(t)
                if y is not None:
                    return self.untrunc(add(x, scale(sub(y, t), d[t])))
        return x

    def settle(self):
        """Record what the truncations that lose nothing say about their
        operands; False if that is contradictory."""
        seen = set()
        atoms = list(self.iv)
        for l in tuple(self.lins) + tuple(self.nes):
            atoms += lin_parts(l)[1]
        for t in atoms:
            if t.op != "trunc" or t in seen:
                continue
            seen.add(t)
            y = self.fits(t)
            if y is not None and not self.assume(eqi(t, y), True):
                return False
        return all(ok(self) for ok in _settle) and self.settle_elems()

    def canon(self, x, memo=None):
        """The term with the indices of elements as far evaluated as is known."""
        if isinstance(x, tuple):
            return tuple(self.canon(y, memo) for y in x)
        if not isinstance(x, T) or not indexed(x):
            return x
        if memo is None:
            memo = {}
        r = memo.get(x)
        if r is None:
            if x.op == "lin":
                r = x.args[0]
                for t, k in x.args[1]:
                    r = add(r, scale(self.canon(t, memo), k))
            else:
                args = tuple(self.canon(y, memo) for y in x.args)
                if x.op == "elem" and isinstance(args[1], T):
                    args = (args[0], self.simp(args[1]))
                r = x if all(a is b for a, b in zip(args, x.args)) else mk(x.op, args, x.ty)
            memo[x] = r
        return r

    def settle_elems(self):
        """What is known of an element holds for every term that denotes it."""
        memo = {}
        for t in list(self.var):
            if indexed(t):
                u = self.canon(t, memo)
                if u is not t and not (self.assume_variant(u, self.variants(t)) and self.assume_variant(t, self.variants(u))):
                    return False
        for c, pol in list(self.bl.items()):
            if indexed(c):
                u = self.canon(c, memo)
                if u is not c and u not in self.bl:
                    if self.decide(u) is (not pol):
                        return False
                    self.bl[u] = pol
        for t in list(self.iv):
            if t.op in ("fld", "len") and indexed(t):
                u = self.canon(t, memo)
                if u is not t and isinstance(u, T) and not (self.set_range(u, self.iv[t]) and self.set_range(t, self.iv[u])):
                    return False
        by = {}
        for t in list(self.iv):
            if t.op == "elem" and t.ty is not None and t.ty.is_int:
                by.setdefault(t.args[0], []).append(t)
        for base, ts in by.items():
            for t in ts:
                i = self.simp(t.args[1])
                if i is not t.args[1]:
                    u = mk("elem", (base, i), t.ty)
                    if u is not t and (not self.set_range(u, self.iv[t]) or not self.set_range(t, self.iv[u])):
                        return False
        return True

    # ---- decisions
    def decide(self, c):
        r = self.decide_(c)
        if r is None and isinstance(c, T) and c.op in ("eq0", "ge0"):
            x = c.args[0]
            y = self.untrunc(x)
            if y is not x:
                return self.decide_(eq0(y) if c.op == "eq0" else ge0(y))
        return r

    def decide_(self, c):
        if isinstance(c, int):
            return bool(c)
        op = c.op
        if op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if op == "ge0":
            x = c.args[0]
            if self.entails_ge0(x):
                return True
            if self.entails_ge0(sub(-1, x)):
                return False
            return None
        if op == "eq0":
            x = self.simp(c.args[0])
            if isinstance(x, int):
                return x == 0
            if x in self.nes:
                return False
            cc, d = lin_parts(x)
            if len(d) == 1:
                (t, k), = d.items()
                if cc % k:
                    return False
                v = -cc // k
                r = self.ranges(t)
                if not any(a <= v <= b for a, b in r):
                    return False
                if len(r) == 1 and r[0] == (v, v):
                    return True
            lo, hi = self.hull(x)
            if lo > 0 or hi < 0:
                return False
            if self.entails_ge0(sub(x, 1)) or self.entails_ge0(sub(-1, x)):
                return False
            if self.entails_ge0(x) and self.entails_ge0(scale(x, -1)):
                return True
            # congruence refutation
            r8 = self.residue(x, 8)
            if r8 is not None and r8 != 0:
                return False
            return None
        # boolean atom
        r = self.iv.get(c)
        if r is not None and len(r) == 1 and r[0][0] == r[0][1]:
            return bool(r[0][0])
        v = self.bl.get(c)
        if v is not None:
            return v
        return derived_bool(self, c)

    def assume(self, c, pol=True):
        """Refine; returns False on contradiction."""
        if isinstance(c, int):
            return bool(c) == pol
        if c.op == "not":
            return self.assume(c.args[0], not pol)
        d = self.decide(c)
        if d is not None:
            return d == pol
        self.log = self.log + ((c, pol),)
        if c.op == "ge0":
            x = c.args[0]
            if not pol:
                x = sub(-1, x)
            return self._assume_ge0(self.simp(x))
        if c.op == "eq0":
            x = self.simp(c.args[0])
            cc, dd = lin_parts(x)
            if pol:
                if len(dd) == 1:
                    (t, k), = dd.items()
                    if cc % k:
                        return False
                    return self.set_range(t, ((-cc // k, -cc // k),))
                return self._assume_ge0(x) and self._assume_ge0(scale(x, -1))
            if len(dd) == 1:
                (t, k), = dd.items()
                if cc % k:
                    return True
                v = -cc // k
                return self.set_range(t, iv_minus(self.ranges(t), ((v, v),)))
            if self.entails_ge0(x):
                return self._assume_ge0(sub(x, 1))
            if self.entails_ge0(scale(x, -1)):
                return self._assume_ge0(sub(-1, x))
            self.nes = self.nes | {x, scale(x, -1)}
            return True
        self.bl[c] = pol
        if c.ty is not None and c.ty.k == "bool":
            self.iv[c] = ((1, 1),) if pol else ((0, 0),)
        return on_bool(self, c, pol)

    def set_range(self, t, rs):
        rs = iv_and(self.ranges(t), rs)
        cg = self.cong.get(t)
        if cg is not None:
            rs = iv_cong(rs, cg[0], cg[1])
        if not rs:
            return False
        old = self.iv.get(t)
        self.iv[t] = rs
        if t.op in BYTE_OPS:
            bf = byte_fn(t)
            if bf is not None:
                pre = iv_norm((v, v) for v in range(256) if any(a <= bf[1][v] <= b for a, b in rs))
                if not self.set_range(bf[0], pre):
                    return False
        if t.op == "elem" and rs != old:
            # only the root ends with a slash
            p = last_of_path(t)
            if p is not None:
                if rs == ((47, 47),):
                    if not self.set_range(p[0], ((1, 1),)):
                        return False
                elif not any(a <= 47 <= b for a, b in rs) and not self.set_range(p[0], ((2, INF),)):
                    return False
        if rs[0][0] == rs[-1][1] and rs != old:
            return self._recheck()
        return True

    def _recheck(self):
        for l in self.lins:
            lo, hi = self.hull(l)
            if hi < 0:
                return False
        for n in self.nes:
            if self.const(n) == 0:
                return False
        return True

    def _assume_ge0(self, x):
        if isinstance(x, int):
            return x >= 0
        cc, dd = lin_parts(x)
        if len(dd) == 1:
            (t, k), = dd.items()
            if k > 0:
                lo = -(cc // k)
                return self.set_range(t, ((lo, INF),))
            hi = cc // (-k)
            return self.set_range(t, ((-INF, hi),))
        lo, hi = self.hull(x)
        if hi < 0:
            return False
        if self.entails_ge0(sub(-1, x)):
            return False
        if x not in self.lins:
            # x>=0 and a recorded disequality x!=0 sharpen to x>=1
            if x in self.nes:
                x = sub(x, 1)
            self.lins = self.lins + (x,)
        # bound propagation: each atom against the hull of the others
        for t, k in dd.items():
            a, b = self.hull(t)
            if k > 0:
                rest_hi = hi - k * b
                if rest_hi < INF // 2:
                    m = -(rest_hi // k)
                    if m > a:
                        if not self.set_range(t, ((m, INF),)):
                            return False
            else:
                rest_hi = hi - k * a
                if rest_hi < INF // 2:
                    m = rest_hi // (-k)
                    if m < b:
                        if not self.set_range(t, ((-INF, m),)):
                            return False
        return True

    # ---- congruences modulo 8
    def residue(self, x, m):
        r, key = self.residue_key(x, m)
        return r if key is None else None

    def residue_key(self, x, m):
        c, d = lin_parts(self.simp(x))
        e = {t: k % m for t, k in d.items() if k % m}
        if not e:
            return c % m, None
        key = mk_lin(0, e)
        while True:
            if isinstance(key, int):
                return c % m, None
            f = self.cong.get(key)
            if f is not None and f[0] % m == 0:
                return (c + f[1]) % m, None
            # subtract any known sub-combination
            hit = False
            for k2, (m2, r2) in self.cong.items():
                if m2 % m:
                    continue
                d2 = lin_parts(k2)[1]
                if all(e.get(t, 0) % m == q % m for t, q in d2.items()):
                    c += r2
                    for t in d2:
                        e.pop(t, None)
                    key = mk_lin(0, e) if e else 0
                    hit = True
                    break
            if not hit:
                return None, key

    def assume_cong(self, key, m, r):
        old = self.cong.get(key)
        if old is not None:
            mm = min(old[0], m)
            if old[1] % mm != r % mm:
                return False
            if old[0] >= m:
                return True
        self.cong[key] = (m, r)
        if key.op != "lin" and not self.set_range(key, self.ranges(key)):
            return False
        self.log = self.log + ((("cong", key, m, r), True),)
        return True

    # ---- variants
    def variants(self, t):
        v = self.var.get(t)
        if v is not None:
            return v
        n = len(t.ty.variants)
        return frozenset(i for i in range(n) if not uninhabited_variant(t.ty, i))

    def assume_variant(self, t, s):
        v = self.variants(t) & s
        if not v:
            return False
        if self.var.get(t) != v:
            self.var[t] = v
            self.log = self.log + ((("var", t, v), True),)
        return True


def uninhabited(ty, depth=0):
    if ty.k == "never":
        return True
    if ty.k == "adt" and depth < 3:
        if ty.d["kind"] == "enum":
            return all(uninhabited_variant(ty, i, depth + 1) for i in range(len(ty.variants)))
        if ty.d["kind"] == "struct":
            return any(uninhabited(f, depth + 1) for f in ty.field_tys(0))
    if ty.k == "tuple":
        return any(uninhabited(f, depth + 1) for f in ty.field_tys())
    return False


_uninh = {}


def uninhabited_variant(ty, i, depth=0):
    key = (ty.id, i)
    if key not in _uninh:
        _uninh[key] = False
        _uninh[key] = any(uninhabited(f, depth + 1) for f in ty.field_tys(i))
    return _uninh[key]


_derive = []


def derived_bool(facts, c):
    for f in _derive:
        r = f(facts, c)
        if r is not None:
            return r
    return None


_on = []
_settle = []


def on_bool(facts, c, pol):
    """Propagate a recorded boolean to the other domains."""
    for f in _on:
        if not f(facts, c, pol):
            return False
    return True


# ---------------------------------------------------------------- values

class Agg:
    __slots__ = ("ty", "v", "f")

    def __init__(self, ty, v, f):
        self.ty = ty
        self.v = v
        self.f = tuple(f)

    def __repr__(self):
        n = self.ty.s
        if self.ty.is_enum:
            n = n.split("<")[0].split("::")[-1] + "::" + self.ty.variants[self.v]["n"]
        elif self.ty.k == "adt":
            n = n.split("<")[0].split("::")[-1]
        elif self.ty.k == "tuple":
            n = ""
        return "%s{%s}" % (n, ", ".join(map(repr, self.f)))


class Ref:
    """Shared reference: a snapshot of the referent."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "&%r" % (self.v,)


class BoxV:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "box %r" % (self.v,)


class Ptr:
    """Mutable reference / raw pointer to a place of abstract memory."""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __repr__(self):
        return "ptr(%s%s)" % (self.cell, "".join("/%s" % (p,) for p in self.path))

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.cell == self.cell and o.path == self.path

    def __hash__(self):
        return hash((self.cell, self.path))


class Fn:
    __slots__ = ("inst", "ty")

    def __init__(self, inst, ty=None):
        self.inst = inst
        self.ty = ty

    def __repr__(self):
        return "fn %s" % (self.inst,)


class Nat:
    """Natively modelled library object (iterators, formatters, ...)."""
    __slots__ = ("k", "f")

    def __init__(self, k, *f):
        self.k = k
        self.f = tuple(f)

    def __repr__(self):
        return "%s<%s>" % (self.k, ", ".join(map(repr, self.f)))

    def rep(self, **kw):
        f = list(self.f)
        for k, v in kw.items():
            f[int(k[1:])] = v
        return Nat(self.k, *f)


class Uninit:
    def __repr__(self):
        return "⊥"


UNINIT = Uninit()


class Seq:
    """A sequence (bytes, string, vector, slice): concatenation of parts.

    ('lit', (v, ...))              individual elements
    ('sub', base, lo, hi)          base[lo..hi] of a symbolic sequence
    ('num', width, endian, value)  width bytes encoding an integer
    ('chr', c)                     UTF-8 encoding of one character
    """
    __slots__ = ("p",)

    def __init__(self, parts=()):
        out = []
        for x in parts:
            if x[0] == "lit":
                if not x[1]:
                    continue
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + tuple(x[1]))
                    continue
            elif x[0] == "sub":
                if isinstance(x[2], int) and isinstance(x[3], int) and x[2] >= x[3]:
                    continue
                if x[2] is x[3]:
                    continue
                if out and out[-1][0] == "sub" and out[-1][1] is x[1] and same(out[-1][3], x[2]):
                    out[-1] = ("sub", x[1], out[-1][2], x[3])
                    continue
            out.append(x)
        self.p = tuple(out)

    def __repr__(self):
        s = []
        for x in self.p:
            if x[0] == "lit":
                if all(isinstance(v, int) and 32 <= v < 127 for v in x[1]):
                    s.append("'%s'" % "".join(map(chr, x[1])))
                else:
                    s.append("[%s]" % ", ".join(map(repr, x[1])))
            elif x[0] == "sub":
                s.append("%r[%r..%r]" % (x[1], x[2], x[3]))
            else:
                s.append("%s(%s)" % (x[0], ",".join(map(repr, x[1:]))))
        return "⟨" + " ++ ".join(s) + "⟩"

    def len(self):
        n = 0
        for x in self.p:
            n = add(n, part_len(x))
        return n

    def cat(self, o):
        return Seq(self.p + o.p)

    def push(self, v):
        return Seq(self.p + (("lit", (v,)),))

    def lits(self):
        """tuple of elements if fully literal, else None."""
        if not self.p:
            return ()
        if len(self.p) == 1 and self.p[0][0] == "lit":
            return self.p[0][1]
        return None


def same(a, b):
    return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)


def part_len(x):
    k = x[0]
    if k == "lit":
        return len(x[1])
    if k == "sub":
        return sub(x[3], x[2])
    if k == "num":
        return x[1]
    if k == "chr":
        return mk("clen", (x[1],))
    raise Unsupported("part %r" % (x,))


def veq(a, b):
    """Structural identity of two abstract values."""
    if a is b:
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, T):
        return a is b
    if isinstance(a, Agg):
        return a.ty is b.ty and a.v == b.v and len(a.f) == len(b.f) and all(veq(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, (Ref, BoxV)):
        return veq(a.v, b.v)
    if isinstance(a, Ptr):
        return a == b
    if isinstance(a, Fn):
        return a.inst is b.inst
    if isinstance(a, Nat):
        return a.k == b.k and len(a.f) == len(b.f) and all(veq(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Seq):
        return len(a.p) == len(b.p) and all(peq(x, y) for x, y in zip(a.p, b.p))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    return a == b


def peq(x, y):
    if x is y:
        return True
    if x[0] != y[0]:
        return False
    if x[0] == "lit":
        return len(x[1]) == len(y[1]) and all(veq(a, b) for a, b in zip(x[1], y[1]))
    return len(x) == len(y) and all(veq(a, b) for a, b in zip(x[1:], y[1:]))


def bytes_seq(bs):
    return Seq((("lit", tuple(bs)),))


# ---------------------------------------------------------------- symbolic inputs

SEQ_ADTS = {
    "std::vec::Vec", "std::string::String", "bytes::Bytes", "bytes::BytesMut",
}


def seq_elem_ty(ty):
    p = ty.prog
    if ty.k == "str" or ty.is_adt("std::string::String") or ty.is_adt("bytes::Bytes") or ty.is_adt("bytes::BytesMut"):
        return p.u8
    if ty.k in ("slice", "array"):
        return ty.elem
    if ty.is_adt("std::vec::Vec"):
        return p.types[ty.d["args"][0]]
    return None


def is_seq_ty(ty):
    return ty.k in ("str", "slice") or (ty.k == "adt" and ty.d["name"] in SEQ_ADTS)


def full(t):
    return Seq((("sub", t, 0, mk("len", (t,))),))


def mk_sym(t, ty):
    """Value of type ty denoted by the term t (lazily expanded for ADTs)."""
    k = ty.k
    if k in ("bool", "char", "int", "uint", "float"):
        return t if t.ty is ty else mk(t.op, t.args, ty)
    if is_seq_ty(ty):
        t = t if t.ty is ty else mk(t.op, t.args, ty)
        return full(t)
    if k == "array":
        n = ty.d["n"]
        if isinstance(n, int) and n <= 64:
            return Seq((("lit", tuple(mk_sym(mk("elem", (t, i), ty.elem), ty.elem) for i in range(n))),))
        t = t if t.ty is ty else mk(t.op, t.args, ty)
        return full(t)
    if k == "ref":
        e = ty.elem
        return Ref(mk_sym(mk("deref", (t,), e), e))
    if k == "tuple":
        return Agg(ty, 0, [mk_sym(mk("fld", (t, 0, i), f), f) for i, f in enumerate(ty.field_tys())])
    if k == "adt":
        if ty.d["box"]:
            e = ty.prog.types[ty.d["args"][0]]
            return BoxV(mk_sym(mk("unbox", (t,), e), e))
        if ty.d["kind"] == "struct" and not ty.d["v"][0]["f"]:
            return Agg(ty, 0, ())
        return t if t.ty is ty else mk(t.op, t.args, ty)
    if k == "closure":
        return Agg(ty, 0, [mk_sym(mk("fld", (t, 0, i), f), f) for i, f in enumerate(ty.field_tys())])
    if k == "fndef":
        return Fn(ty.d.get("inst"), ty)
    return t if t.ty is ty else mk(t.op, t.args, ty)


def sym_field(t, v, i):
    fty = t.ty.field_tys(v)[i]
    return mk_sym(mk("fld", (t, v, i), fty), fty)


def expand(t, v=0):
    return Agg(t.ty, v, [sym_field(t, v, i) for i in range(len(t.ty.field_tys(v)))])
