"""C25: operations on object paths."""
from c_match import *

SLASH = 47


def path_char(s, c):
    for a, b in ((48, 57), (65, 90), (97, 122)):
        if s.br(le(a, c)) and s.br(le(c, b)):
            return True
    return s.br(eqi(c, 95))


def is_root(s, p):
    """The text is "/" (paths start with a slash)."""
    return s.br(eqi(p.len(), 1))


def is_element(s, text):
    """A non-empty text of letters, digits and underscores."""
    def step(s2, lv):
        if not s2.br(lt(lv.idx, text.len())):
            return ("done", 1)
        if not path_char(s2, s2.I.seq_get(s2.st, text, lv.idx)):
            return ("done", 0)
        return ("next", lv.but(idx=add(lv.idx, 1)))
    some = s.br(lt(0, text.len()))
    if not some and (s.peek() is None or s.peek()[0] != "loop"):
        return False
    return s.loop(LoopVars(idx=0), step, "element")[1] and some


def setup_paths(I, st, a):
    for x in a:
        assume_names(I, st, I.read(st, x) if isinstance(x, Ptr) else deref(x))


def check_append(rep):
    def before(I, a):
        return seq_of(mk_sym(mk("in", ("a0",), I.celltype[a[0].cell]), I.celltype[a[0].cell]))

    def spec(s, I, a):
        old, new = before(I, a), seq_of(a[1])
        if not is_element(s, new):
            return (0, old)
        if is_root(s, old):
            return (1, old.cat(new))
        return (1, old.cat(bytes_seq(b"/")).cat(new))
    fn_conform(rep, r"ObjectPath::append$", "ObjectPath::append", spec,
               lambda I, a, st, r: (r, seq_of(I.read(st, a[0]))), setup=setup_paths,
               obs=["the answer", "the path"])


def rest_below(s, path, base):
    """Text of the path below the base (None: it is not below it)."""
    if is_root(s, base):
        return None if is_root(s, path) else Seq((("sub",) + path.p[0][1:2] + (1, path.len()),))
    if s.I.BOUND:
        raise Undecided("the elements of paths are not followed one by one")
    if not any(e[0] == "loop" for e in s.events):
        c, rest = starts_with(s.I, s.st, path, base)
        if not s.br(c) or not s.br(lt(base.len(), path.len())):
            return None
        r = rest()
        if not s.br(eqi(s.I.seq_get(s.st, r, 0), SLASH)):
            return None
        return s.I.seq_split(s.st, r, 1)[1]
    return walk(s, path, base)


def next_element(s, it):
    """(element or None, iterator behind it)"""
    text, ch, fin = it.f
    if s.br(fin):
        return None, it
    r = find_delim(s.I, s.st, text, ch)
    if r is None:
        return text, Nat("split", text, ch, 1)
    return r[0], Nat("split", r[1], ch, 0)


def walk(s, path, base):
    """The elements of both are compared one after the other."""
    def step(s2, lv):
        x, mine = next_element(s2, lv.free["rest of the path"])
        y, theirs = next_element(s2, lv.free["rest of the base"])
        if y is None:
            return ("done", None if x is None else lv.free["rest of the path"].f[0])
        if x is None or not texts_equal(s2, x, y):
            return ("done", None)
        return ("next", lv.but(free={"rest of the path": mine, "rest of the base": theirs}))
    return s.loop(LoopVars(free={"rest of the path": Nat("split", path, SLASH, 0),
                                 "rest of the base": Nat("split", base, SLASH, 0)}), step, "element")[1]


def check_strip(rep):
    def spec(s, I, a):
        r = rest_below(s, seq_of(a[0]), seq_of(a[1]))
        if r is None:
            raise SpecErr("the path is not below the base")
        return (0, r)

    def final(I, a, st, r):
        if not is_ok(r):
            return None
        it = r.f[0]
        if not isinstance(it, Nat) or it.k != "split":
            raise Unsupported("iterator %r" % (it,))
        return (it.f[2], it.f[0])
    fn_conform(rep, r"ObjectPath::strip_prefix_elements$", "ObjectPath::strip_prefix_elements", spec, final,
               setup=setup_paths, obs=["the state of the iterator", "the remaining text"])


def check_starts(rep):
    def spec(s, I, a):
        return (int(rest_below(s, seq_of(a[0]), seq_of(a[1])) is not None),)
    fn_conform(rep, r"ObjectPath::starts_with$", "ObjectPath::starts_with", spec, setup=setup_paths)


def check_C25(rep):
    rep.rule("each path of the operations on object paths yields, for all paths and texts, the path or answer specified")
    parallel(rep, [(check_append,), (check_strip,), (check_starts,)])
