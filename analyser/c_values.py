"""C24, C26: what values give back; codes and names of message types and flags."""
from contextlib import contextmanager
from natives import Natives
from c_codec import *
from natives import val_eq
from par import parallel

NAMED_TYPES = [("Interface", "value::interface::Interface"), ("Member", "value::member::Member"),
               ("Error", "value::error::Error"), ("ObjectPath", "value::object_path::ObjectPath"),
               ("UniqueConnectionName", "UniqueConnectionName"), ("WellKnownBusName", "WellKnownBusName")]
BUS = ("UniqueConnectionName", "WellKnownBusName")

# types whose copies and comparisons are part of the interface
PLAIN = ("MessageType", "MessageFlags", "Fields", "Header", "Message", "UniqueConnectionName", "WellKnownBusName", "Bus",
         "Array", "Struct", "Interface", "Member", "ObjectPath", "Error", "Type", "Value", "Arg", "ArgPath", "MatchRule")


# ---------------------------------------------------------------- C24

def setup_names(I, st, a):
    for x in a:
        v = I.read(st, x) if isinstance(x, Ptr) else deref(x)
        assume_names(I, st, v)


def text_in(v):
    return seq_of(deref(v))


def check_name(rep, rx, what):
    t = r"<[\w:]*\b%s as " % rx
    fn_conform(rep, t + r"convert::AsRef<str>>::as_ref$", "the text %s lends" % what, lambda s, I, a: (text_in(a[0]),),
               lambda I, a, st, r: (seq_of(r),), setup=setup_names, obs=["the text"])
    fn_conform(rep, r"<string::String as convert::From<[\w:]*\b%s>>::from$" % rx, "the text of %s as a String" % what,
               lambda s, I, a: (text_in(a[0]),), lambda I, a, st, r: (seq_of(r),), setup=setup_names, obs=["the text"])
    fmt_conform(rep, rx, "the displayed text of %s" % what, lambda s, I, a: (text_in(a[0]),), setup=setup_names)
    fn_conform(rep, t + r"cmp::PartialEq<str>>::eq$", "%s compared with a text" % what,
               lambda s, I, a: (texts_equal(s, text_in(a[0]), seq_of(a[1])),), setup=setup_names, obs=["the answer"])


def bus_text(s, v):
    v = deref(v)
    s.variant(v)
    return seq_of(s.field(v, 0))


def bus_equal(s, a, b):
    """Texts that begin with different characters are different."""
    if not texts_equal(s, a, b):
        return 0
    if not s.br(lt(0, b.len())) or not s.br(eqi(s.I.seq_get(s.st, a, 0), s.I.seq_get(s.st, b, 0))):
        raise Fork([])          # not possible
    return 1


def check_bus(rep, kind):
    t = r"<[\w:]*\bBus as "
    su = assume_variant(kind)
    fn_conform(rep, t + r"convert::AsRef<str>>::as_ref$", "the text a bus name (%s) lends" % kind, lambda s, I, a: (bus_text(s, a[0]),),
               lambda I, a, st, r: (seq_of(r),), setup=su, obs=["the text"])
    fn_conform(rep, r"<string::String as convert::From<[\w:]*\bBus>>::from$", "the text of a bus name (%s) as a String" % kind,
               lambda s, I, a: (bus_text(s, a[0]),), lambda I, a, st, r: (seq_of(r),), setup=su, obs=["the text"])
    fmt_conform(rep, "Bus", "the displayed text of a bus name (%s)" % kind, lambda s, I, a: (bus_text(s, a[0]),), setup=su)
    fn_conform(rep, t + r"cmp::PartialEq<str>>::eq$", "a bus name (%s) compared with a text" % kind,
               lambda s, I, a: (bus_equal(s, bus_text(s, a[0]), seq_of(a[1])),), setup=su, obs=["the answer"])


def check_default(rep):
    inst = api_fn(rep, r"<[\w:]*\bObjectPath as default::Default>::default$", "the default object path")
    if inst is not None:
        fn_conform(rep, r"<[\w:]*\bObjectPath as default::Default>::default$", "the default object path",
                   lambda s, I, a: (lit("/"),), lambda I, a, st, r: (seq_of(r),), obs=["the text"])


def check_plain(rep, traits=("cmp::PartialEq", "clone::Clone")):
    """Comparisons and copies made by the compiler from the fields of the type."""
    n = 0
    for im in rep.prog.impls:
        m = re.match(r"<(\S+) as std::(%s)>$" % "|".join(traits), im.get("trait", ""))
        if not m or m[1].split("::")[-1] not in PLAIN or "::header::error::" in m[1]:
            continue
        n += 1
        what = "%s for %s" % (m[2].split("::")[-1], m[1])
        if im["der"]:
            rep.ok("%s is the one the compiler derives from all parts" % what)
        elif m[2] == "cmp::PartialEq":
            check_eq(rep, m[1])
        else:
            check_clone(rep, m[1])
    rep.floor("comparisons and copies of the value types", n, 30)


@contextmanager
def parts_as_specified():
    """(Values are finite: induction over the parts.)"""
    Natives.PARTS = True
    try:
        yield
    finally:
        Natives.PARTS = False


def check_eq(rep, name):
    def spec(s, I, a):
        x, y = deref(a[0]), deref(a[1])
        if x.ty.is_enum:
            if s.variant(x) != s.variant(y):
                return (0,)
            v = I.variant_of(s.st, x)
        else:
            v = 0
        for i in range(len(x.ty.field_tys(v))):
            if not s.br(val_eq(s.I, s.st, s.field(x, i), s.field(y, i))):
                return (0,)
        return (1,)
    with parts_as_specified():
        fn_conform(rep, r"^<dbus_message_parser::%s as cmp::PartialEq>::eq$" % re.escape(name), "equality of " + name, spec,
                   obs=["the answer"])


def check_clone(rep, name):
    with parts_as_specified():
        fn_conform(rep, r"^<dbus_message_parser::%s as clone::Clone>::clone$" % re.escape(name), "the copy of a " + name,
                   lambda s, I, a: (deref(a[0]),), obs=["the copy"])


def check_C24(rep):
    rep.rule("on each path of every conversion of a name back to text (AsRef, From, Display, PartialEq<str>, Default), for every "
             "name, the text is the one the name holds; comparisons and copies of the value types are derived from all parts, or "
             "their paths answer as such")
    rep.assumptions.append("names hold texts of their grammar (C04, C05): not empty, a colon starts exactly the unique names")
    tasks = [(check_name, rx, what) for what, rx in NAMED_TYPES] + [(check_bus, k) for k in BUS] + [(check_default,), (check_plain,)]
    parallel(rep, tasks)
    rep.floor("types of names", len(NAMED_TYPES) + 1, 7)


# ---------------------------------------------------------------- C26

FLAGS = {"NO_REPLY_EXPECTED": 1, "NO_AUTO_START": 2, "ALLOW_INTERACTIVE_AUTHORIZATION": 4}
LIMITS = {"MAXIMUM_MESSAGE_LENGTH": 1 << 27, "MAXIMUM_ARRAY_LENGTH": 1 << 26, "MAXIMUM_NAME_LENGTH": 255,
          "MAXIMUM_SIGNATURE_LENGTH": 255, "MAXIMUM_ARRAY_DEPTH": 32, "MAXIMUM_STRUCT_DEPTH": 32, "MAXIMUM_DICT_DEPTH": 32,
          "MAXIMUM_ARG_INDEX": 64}


def check_codes(rep):
    t = the_adt(rep.prog, "MessageType")
    for n, code in MESSAGE_TYPES.items():
        i = t.variant_index(n)
        ob = "the code of %s messages is %d" % (n, code)
        if i is None:
            rep.anchor_missing("MessageType::" + n)
        elif int(t.variants[i]["d"]) == code:
            rep.ok(ob)
        else:
            rep.bad("code:" + n, "%s messages have the code %s instead of %d" % (n, t.variants[i]["d"], code), ob)

    def from_code(s, I, a):
        for n, code in MESSAGE_TYPES.items():
            if s.br(eqi(a[0], code)):
                return (Agg(t, t.variant_index(n), ()),)
        raise SpecErr("there is no such type")
    fn_conform(rep, r"MessageType as convert::TryFrom<u8>>::try_from$", "the message type of a code", from_code,
               lambda I, a, st, r: (r.f[0],) if is_ok(r) else None)


def check_type_names(rep):
    t = the_adt(rep.prog, "MessageType")

    def from_name(s, I, a):
        for text, n in TYPES:
            if texts_equal(s, seq_of(a[0]), lit(text)):
                return (Agg(t, t.variant_index(n), ()),)
        raise SpecErr("there is no such type")
    fn_conform(rep, r"MessageType as convert::TryFrom<&str>>::try_from$", "the message type of a name", from_name,
               lambda I, a, st, r: (r.f[0],) if is_ok(r) else None)
    names = dict((b, a) for a, b in TYPES)
    fmt_conform(rep, "MessageType", "the name of a message type", lambda s, I, a: (lit(names[s.variant(deref(a[0]))]),))


def check_flags(rep):
    have = {im["const"].split("::")[-1]: im["bits"] for im in rep.prog.impls
            if "const" in im and re.search(r"^[\w:]*\bMessageFlags::\w+$", im["const"])}
    for n, b in FLAGS.items():
        constant(rep, "flag", n, b, have)
    ty = the_adt(rep.prog, "MessageFlags")

    def from_bits(s, I, a):
        s.require(le(a[0], 7), "an undefined bit is set")
        return (Agg(ty, 0, [a[0]]),)
    p = r"MessageFlags::"
    fn_conform(rep, p + "from_bits$", "the flags of a number", from_bits, lambda I, a, st, r: (r.f[0],) if is_ok(r) else None)
    fn_conform(rep, p + "bits$", "the number of flags", lambda s, I, a: (member_of(a[0], 0),))
    fn_conform(rep, p + "empty$", "no flags", lambda s, I, a: (Agg(ty, 0, [0]),))
    fn_conform(rep, p + "all$", "all flags", lambda s, I, a: (Agg(ty, 0, [7]),))


def constant(rep, kind, n, b, have):
    ob = "the %s %s is %d" % (kind, n, b)
    if n not in have:
        rep.anchor_missing(n)
    elif have[n] == b:
        rep.ok(ob)
    else:
        rep.bad("%s:%s" % (kind, n), "the %s %s is %s instead of %d" % (kind, n, have[n], b), ob)


def check_limits(rep):
    have = {im["const"].split("::")[-1]: im["bits"] for im in rep.prog.impls if "const" in im and "<" not in im["const"]}
    for n, b in LIMITS.items():
        constant(rep, "limit", n, b, have)


def check_C26(rep):
    rep.rule("the codes and names of message types, the bits of message flags and the public limits are those of the D-Bus "
             "specification: constants as the compiler evaluates them, conversions on each path for every input")
    parallel(rep, [(check_codes,), (check_type_names,), (check_flags,), (check_limits,)])
    rep.floor("constants", len(FLAGS) + len(LIMITS) + len(MESSAGE_TYPES), 15)
