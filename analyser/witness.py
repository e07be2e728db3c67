"""Concrete instances of an abstract state.

Some operations (masks, shifts, products, truncations) stand in the abstract
state as terms that nothing is known of but a range.  Where a deviation from a
specification depends on them it is reported only if the state has an instance:
numbers for the inputs that fulfil every recorded fact, with these operations
computed.  The search is a local repair of violated facts; if it finds nothing
the deviation stays undecided.
"""
import random

from core import *
import words

INEXACT = frozenset(["mul", "rem", "div", "shl", "shr", "and", "bitand", "bitor", "bitxor", "op", "rdx", "bswap", "cast",
                     "trunc", "transmute", "fop", "pelem", "addr"])
COMPUTED = frozenset(["mul", "rem", "div", "shl", "shr", "and", "bitor", "bitxor", "bswap", "trunc", "quot", "byte", "hi"])


class Free(Exception):
    """An operation that cannot be computed."""


def inexact(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, (tuple, list, frozenset)):
        return any(inexact(x, seen) for x in t)
    if isinstance(t, T):
        if id(t) in seen:
            return False
        seen.add(id(t))
        return t.op in INEXACT or inexact(t.args, seen)
    if isinstance(t, Seq):
        return inexact(t.p, seen)
    if isinstance(t, (Agg, Nat)):
        return inexact(tuple(t.f), seen)
    if isinstance(t, (Ref, BoxV)):
        return inexact(t.v, seen)
    return False


class Instance:
    def __init__(self, facts, rnd):
        self.f = facts
        self.rnd = rnd
        self.val = {}       # atom -> number
        self.mem = {}       # (base, index) -> number

    # ---- evaluation
    def pick(self, t):
        rs = self.f.ranges(t)
        lo, hi = rs[0]
        if len(rs) > 1 and self.rnd.random() < 0.5:
            lo, hi = self.rnd.choice(rs)
        k = self.rnd.random()
        if k < 0.3:
            return lo if lo > -INF else 0
        if k < 0.4 and hi < INF:
            return hi
        lo, hi = max(lo, -(1 << 64)), min(hi, 1 << 64)
        if k < 0.8:
            return self.rnd.randint(lo, min(hi, lo + 40))
        return self.rnd.randint(lo, hi)

    def cell(self, base, i, t):
        k = (base, i)
        v = self.mem.get(k)
        if v is None:
            v = self.mem[k] = self.pick(t)
        return v

    def ev(self, x):
        if isinstance(x, int):
            return int(x)
        op = x.op
        if op == "lin":
            return x.args[0] + sum(k * self.ev(t) for t, k in x.args[1])
        if op == "elem":
            return self.cell(x.args[0], self.ev(x.args[1]), x)
        if op == "rd":
            b, lo, w, e = x.args
            lo = self.ev(lo)
            u8 = x.ty.prog.u8
            bs = [self.cell(b, lo + j, mk("elem", (b, lo + j), u8)) for j in range(w)]
            return int.from_bytes(bytes(v & 255 for v in bs), "little" if e == "le" else "big")
        if op in COMPUTED:
            return self.compute(x)
        if op in INEXACT:
            raise Free(op)
        if op in ("ge0", "eq0", "not", "seqeq"):
            c = self.holds(x)
            if c is None:
                raise Free(op)
            return int(c)
        v = self.val.get(x)
        if v is None:
            v = self.val[x] = self.pick(x)
        return v

    def compute(self, x):
        op = x.op
        a = self.ev(x.args[0])
        if op == "trunc":
            lo, hi = x.ty.int_range()
            return (a - lo) % (hi - lo + 1) + lo
        if op == "bswap":
            w = x.args[1]
            return int.from_bytes((a & ((1 << 8 * w) - 1)).to_bytes(w, "little"), "big")
        if op == "byte":
            return (a >> (8 * x.args[2])) & 255
        b = self.ev(x.args[1])
        if op in ("quot", "hi", "div"):
            if b == 0:
                raise Free(op)
            return a // b if (a >= 0) == (b > 0) else -(-a // b)
        if op == "rem":
            if b == 0:
                raise Free(op)
            return a - b * (a // b if (a >= 0) == (b > 0) else -(-a // b))
        lo, hi = x.ty.int_range() if x.ty is not None and x.ty.int_range() else (0, (1 << 64) - 1)
        r = {"mul": lambda: a * b, "and": lambda: a & b, "bitor": lambda: a | b, "bitxor": lambda: a ^ b,
             "shl": lambda: a << (b % 64), "shr": lambda: a >> (b % 64)}[op]()
        return (r - lo) % (hi - lo + 1) + lo

    def holds(self, c):
        """Truth of a condition, or None if it is not about numbers."""
        if isinstance(c, int):
            return bool(c)
        if not isinstance(c, T):
            return None
        if c.op == "ge0":
            return self.ev(c.args[0]) >= 0
        if c.op == "eq0":
            return self.ev(c.args[0]) == 0
        if c.op == "not":
            r = self.holds(c.args[0])
            return None if r is None else not r
        if c.op == "seqeq":
            base, lo, hi, lits = c.args
            lo, hi = self.ev(lo), self.ev(hi)
            ety = seq_elem_ty(base.ty)
            return hi - lo == len(lits) and all(
                self.cell(base, lo + i, mk("elem", (base, lo + i), ety)) == x for i, x in enumerate(lits))
        return None

    # ---- repair
    def within(self, t, v):
        return any(lo <= v <= hi for lo, hi in self.f.ranges(t))

    def assign(self, t, v):
        """Make the atom t have the value v; False if that is not possible."""
        op = t.op
        if op == "rd":
            b, lo, w, e = t.args
            if not 0 <= v < 1 << (8 * w):
                return False
            lo = self.ev(lo)
            for j, x in enumerate(v.to_bytes(w, "little" if e == "le" else "big")):
                self.mem[(b, lo + j)] = x
            return True
        if op == "elem":
            if not self.within(t, v):
                return False
            self.mem[(t.args[0], self.ev(t.args[1]))] = v
            return True
        if op in COMPUTED:
            x = t.args[0]
            if op in ("quot", "hi", "div") and isinstance(t.args[1], int):
                v *= t.args[1]
            elif op == "shr" and isinstance(t.args[1], int):
                v <<= t.args[1]
            elif op == "shl" and isinstance(t.args[1], int):
                v >>= t.args[1]
            elif op in ("mul",):
                return False
            if op == "trunc" and self.rnd.random() < 0.5:
                lo, hi = t.ty.int_range()
                v += (hi - lo + 1) * self.rnd.choice((-1, 1, 1))
            if op in ("and", "bitor", "bitxor") and self.rnd.random() < 0.5:
                v ^= 1 << self.rnd.randrange(34)
            if isinstance(x, int):
                return False
            c, d = lin_parts(x)
            if len(d) != 1:
                return self.shift(x, v - self.ev(x))
            (u, k), = d.items()
            return (v - c) % k == 0 and self.assign(u, (v - c) // k)
        if op in INEXACT:
            raise Free(op)
        if not self.within(t, v):
            return False
        self.val[t] = v
        return True

    def shift(self, x, by):
        """Change the linear term x by `by` through one of its atoms."""
        c, d = lin_parts(x)
        ts = list(d.items())
        self.rnd.shuffle(ts)
        for t, k in ts:
            n = by // k if by % k == 0 else (by // k + 1 if (by > 0) == (k > 0) else by // k)
            try:
                if self.assign(t, self.ev(t) + n):
                    return True
            except Free:
                raise
        return False

    def repair(self, c, pol):
        while not isinstance(c, int) and c.op == "not":
            c, pol = c.args[0], not pol
        r = self.rnd.random()
        if c.op == "ge0":
            x = c.args[0]
            v = self.ev(x)
            extra = 0 if r < 0.7 else self.rnd.randint(0, 8)
            self.shift(x, (-v + extra) if pol else (-1 - v - extra))
        elif c.op == "eq0":
            x = c.args[0]
            v = self.ev(x)
            if pol:
                self.shift(x, -v)
            else:
                self.shift(x, self.rnd.choice((-1, 1, 2, 4, 8, 256)))
        elif c.op == "seqeq":
            base, lo, hi, lits = c.args
            l = self.ev(lo)
            if pol:
                self.shift(sub(hi, lo), len(lits) - (self.ev(hi) - l)) if not isinstance(sub(hi, lo), int) else None
                for i, x in enumerate(lits):
                    self.mem[(base, l + i)] = x
            elif lits:
                i = self.rnd.randrange(len(lits))
                self.mem[(base, l + i)] = self.rnd.randint(0, 127)


def constraints(f):
    cs = [(c, p) for c, p in f.log]
    for l in f.lins:
        cs.append((ge0(l), True))
    for n in f.nes:
        cs.append((eq0(n), False))
    for t, rs in f.iv.items():
        if t.op in ("b", "seqeq", "pred", "ge0", "eq0", "not"):
            continue
        lo, hi = rs[0][0], rs[-1][1]
        if lo > -INF:
            cs.append((ge0(sub(t, lo)), True))
        if hi < INF:
            cs.append((ge0(sub(hi, t)), True))
        for (a, b), (c, d) in zip(rs, rs[1:]):
            if c - b <= 4:
                cs += [(eq0(sub(t, v)), False) for v in range(b + 1, c)]
    for c, p in f.bl.items():
        if isinstance(c, T) and c.op == "seqeq":
            cs.append((c, p))
    out, seen = [], set()
    for c, p in cs:
        if not isinstance(c, T):
            continue
        if (c, p) not in seen:
            seen.add((c, p))
            out.append((c, p))
    return out


def find(f, differ=None, tries=25, steps=220):
    """An instance of the facts f in which the two numbers `differ` (if given)
    are different, as a text; None if none was found."""
    rnd = random.Random(1)
    cs = constraints(f)
    if differ is not None:
        cs.append((eqi(*differ), False))
        if isinstance(cs[-1][0], int):
            cs.pop()
    congs = [(k, m, r) for k, (m, r) in f.cong.items()]
    for _ in range(tries):
        Clock.check()
        I = Instance(f, rnd)
        try:
            for _ in range(steps):
                bad = [(c, p) for c, p in cs if I.holds(c) not in (None, p)]
                off = [(k, m, r) for k, m, r in congs if I.ev(k) % m != r % m]
                if not bad and not off:
                    return I.text()
                if off and (not bad or rnd.random() < 0.3):
                    k, m, r = rnd.choice(off)
                    I.shift(k, (r - I.ev(k)) % m)
                else:
                    I.repair(*rnd.choice(bad))
        except Free:
            return None
    return None


def text(self):
    return ", ".join("%s = %d" % (show(t), v) for t, v in sorted(self.val.items(), key=lambda p: p[0].id)[:6])


Instance.text = text
