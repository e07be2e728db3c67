"""Numbers spelled by bytes: one normal form for all the ways to read and write
them (casts of the same width, byte swaps, shifts and ors of single bytes)."""
from core import *


def width(ty):
    """Width in bytes of a number type."""
    if ty is None:
        return None
    if ty.k in ("uint", "int", "float"):
        return ty.d.get("w", 64) // 8
    return None


def swapped(e):
    return "be" if e == "le" else "le"


def stored(w, e, v):
    """The part of a sequence that holds the low w bytes of v."""
    while isinstance(v, T):
        if v.op in ("trunc", "transmute") and (width(v.ty) or 0) >= w and isinstance(v.args[0], (int, T)):
            v = v.args[0]
        elif v.op == "bswap" and v.args[1] == w:
            v, e = v.args[0], swapped(e)
        else:
            break
    return ("num", w, e, v)


def recast(I, st, v, ty):
    """The number with these bytes as a value of type ty."""
    if ty.k == "float":
        return transmuted(v, ty)
    if isinstance(v, T) and v.ty is not None and v.ty.k == "float":
        w = v.ty.d["w"]
        v = transmuted(v, I.prog.by_s["u%d" % w]) if "u%d" % w in I.prog.by_s else transmuted(v, ty)
    return I.int_cast(st, v, ty)


def transmuted(v, ty):
    while isinstance(v, T) and v.op == "transmute" and width(v.ty) == width(ty):
        v = v.args[0]
    if isinstance(v, T) and v.ty is ty:
        return v
    return mk("transmute", (v,), ty)


def uint(I, w):
    return I.prog.by_s.get("u%d" % (8 * w))


def rd(I, base, lo, w, e, ty):
    u = uint(I, w)
    return mk("rd", (base, lo, w, e), u if u is not None else ty)


def bswap(I, st, v, w, ty):
    if isinstance(v, int):
        return int.from_bytes((v & ((1 << 8 * w) - 1)).to_bytes(w, "little"), "big")
    if v.op == "rd" and v.args[2] == w:
        return I.int_cast(st, mk("rd", v.args[:3] + (swapped(v.args[3]),), v.ty), ty)
    if v.op == "bswap" and v.args[1] == w:
        return I.int_cast(st, v.args[0], ty)
    if v.op == "trunc" and width(v.ty) == w and isinstance(v.args[0], T) and v.args[0].op in ("rd", "bswap"):
        return bswap(I, st, v.args[0], w, ty)
    return mk("bswap", (v, w), ty)


def run_of(vs):
    """(base, offset, ascending) of consecutive elements of one sequence."""
    if len(vs) < 2 or not all(isinstance(v, T) and v.op == "elem" for v in vs):
        return None
    b, lo = vs[0].args
    for up in (1, -1):
        if all(v.args[0] is b and same(v.args[1], add(lo, up * i)) for i, v in enumerate(vs)):
            return b, lo if up == 1 else vs[-1].args[1], up == 1
    return None


def byte_view(v):
    """(number, index) if v is one byte of a number, lowest first."""
    if not isinstance(v, T):
        return None
    if v.op == "byte":
        return v.args[0], v.args[2]
    if v.op == "trunc" and v.ty is not None and v.ty.s == "u8":
        x = v.args[0]
        if isinstance(x, T) and x.op == "shr" and isinstance(x.args[1], int) and x.args[1] % 8 == 0:
            return x.args[0], x.args[1] // 8
        return x, 0
    if v.op == "shr" and isinstance(v.args[1], int) and v.args[1] % 8 == 0 and isinstance(v.args[0], T) \
            and (width(v.args[0].ty) or 0) == v.args[1] // 8 + 1:
        return v.args[0], v.args[1] // 8
    return None


def word(I, st, x, ty):
    """A sum of all the bytes of a number, or None."""
    if isinstance(x, int) or x.op != "lin" or x.args[0] != 0:
        return None
    its = sorted(x.args[1], key=lambda p: p[1])
    w = width(ty)
    if w is None or len(its) != w or any(k != 256 ** i for i, (t, k) in enumerate(its)):
        return None
    r = run_of([t for t, k in its])
    if r is None:
        return None
    return I.int_cast(st, rd(I, r[0], r[1], w, "le" if r[2] else "be", ty), ty)


def ones(f, x):
    """A mask of the bits that may be set in x >= 0, or None."""
    if isinstance(x, int):
        return x if x >= 0 else None
    c, d = lin_parts(x)
    if c < 0:
        return None
    m = c
    for t, k in d.items():
        lo, hi = f.hull(t)
        if lo < 0 or hi >= INF or k <= 0 or k & (k - 1):
            return None
        n = ((1 << hi.bit_length()) - 1) * k
        if m & n:
            lo, hi = f.hull(x)
            return (1 << hi.bit_length()) - 1 if lo >= 0 and hi < INF else None
        m |= n
    return m


def exact(x):
    """Multiples of exact quotients."""
    if isinstance(x, int):
        return x
    c, d = lin_parts(x)
    r = c
    ch = False
    for t, k in d.items():
        if t.op == "quot" and k % t.args[1] == 0:
            r = add(r, scale(t.args[0], k // t.args[1]))
            ch = True
        else:
            r = add(r, scale(t, k))
    return r if ch else x
