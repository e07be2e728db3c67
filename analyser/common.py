"""Helpers shared by the checks."""
import os
import re
import time

from core import *
from interp import *
from natives import *
from prog import *


def seq_of(v):
    """The byte/character sequence behind a (reference to a) string, slice or newtype."""
    while True:
        if isinstance(v, (Ref, BoxV)):
            v = v.v
        elif isinstance(v, Agg) and len(v.f) == 1 and not v.ty.is_enum:
            v = v.f[0]
        elif isinstance(v, T) and v.ty is not None and v.ty.k == "adt" and not v.ty.is_enum \
                and len(v.ty.field_tys(0)) == 1:
            v = expand(v).f[0]
        else:
            return v


def the_adt(prog, name):
    """The local ADT of that (last) name."""
    out = [t for t in prog.types.values() if t.k == "adt" and t.d["name"].startswith("dbus_message_parser::")
           and ("::" + t.d["name"]).endswith("::" + name)]
    if not out and "::" in name:
        # the module may have been moved or renamed
        last = name.split("::")[-1]
        out = [t for t in prog.types.values() if t.k == "adt" and t.d["name"].startswith("dbus_message_parser::")
               and t.d["name"].endswith("::" + last)]
        if len({t.d["name"] for t in out}) != 1:
            return None
    return out[0] if out else None


def insts(prog, rx):
    return prog.find(rx)


def one(rep, rx, what=None, local=True):
    r = [i for i in rep.prog.find(rx) if i.body is not None]
    if not r:
        rep.anchor_missing(what or rx)
        return None
    return r[0]


def sym_args(I, st, inst, names=None):
    """Most general abstract arguments of a function."""
    prog = I.prog
    out = []
    b = inst.body
    for i in range(b["argc"]):
        ty = prog.types[b["locals"][i + 1]]
        nm = (names[i] if names else "a%d" % i)
        if ty.k == "ref" and ty.d.get("m"):
            c = I.new_cell(st, mk_sym(mk("in", (nm,), ty.elem), ty.elem), ty.elem)
            out.append(Ptr(c))
        else:
            out.append(mk_sym(mk("in", (nm,), ty), ty))
    return out


def analyse(rep, inst, args=None, cuts=None, setup=None, budget=600000):
    """Analyse one function over all inputs -> (interp, args, results)."""
    I = Interp(rep.prog, Natives(rep.prog), cuts, budget)
    st = State()
    if args is None:
        args = sym_args(I, st, inst)
    elif callable(args):
        args = args(I, st)
    if setup:
        setup(I, st, args)
    calls = []
    if Interp.RANK == "loops" and inst.id in I.cuts:
        import ranks
        cut, outer = I.cuts[inst.id]
        I.cuts = dict(I.cuts)
        I.cuts[inst.id] = (ranks.watch(cut, st.copy(), list(args), calls), outer)
    try:
        rs = I.call(inst, list(args), st, None, None)
    except (Unsupported, Fork) as e:
        if Interp.RANK:
            import ranks
            ranks.abandoned(rep, I, inst, calls, "%s at %s" % (e, getattr(e, "where", None)))
        raise
    except (LookupError, TypeError, ValueError, AttributeError, AssertionError, ArithmeticError, RecursionError) as e:
        if os.environ.get("DBUS_STRICT"):
            raise
        raise Unsupported("a construct the interpreter does not follow (%s: %s)" % (type(e).__name__, e))
    rep.saw(rep.prog.insts[i].short() for i in I.visited)
    rep.count("functions_in_context", len(I.visited))
    rep.count("paths", len(rs))
    rep.count("loops", len(I.loops))
    rep.count("steps", I.steps)
    if Interp.RANK:
        import ranks
        ranks.judge(rep, I, inst, rs, calls)
    return I, args, rs


def variant_name(v):
    return v.ty.variants[v.v]["n"] if isinstance(v, Agg) and v.ty.is_enum else None
