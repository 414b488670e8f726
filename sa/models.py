"""Semantics of the external (std / dependency) functions the analysed code uses.

A model gets (I, c, st, fv, args, front) and returns a value, or a list of
(value, state, frontier), or None for the generic treatment (an opaque pure
expression of its arguments; `&mut` arguments become unknown).
"""
import re
from values import *

TABLE = {}


def model(*paths):
    def deco(fn):
        for p in paths:
            TABLE[p] = fn
        return fn
    return deco


# --- identity on content -----------------------------------------------------
IDENT = """
std::ops::Deref::deref std::ops::DerefMut::deref_mut std::convert::AsRef::as_ref std::borrow::Borrow::borrow
std::cell::RefCell::<T>::borrow std::cell::RefCell::<T>::borrow_mut
std::string::String::as_str std::string::String::as_mut_str std::string::String::into_boxed_str
std::borrow::ToOwned::to_owned std::string::String::into_bytes
std::iter::IntoIterator::into_iter core::slice::<impl [T]>::iter core::slice::<impl [T]>::iter_mut
std::vec::Vec::<T, A>::as_slice std::vec::Vec::<T, A>::as_mut_slice std::slice::<impl [T]>::to_vec
std::iter::Iterator::by_ref std::iter::Iterator::cloned std::iter::Iterator::copied
std::iter::Iterator::peekable std::iter::Iterator::fuse
std::hint::must_use std::option::Option::<&T>::copied std::option::Option::<&T>::cloned
std::option::Option::<T>::as_ref std::option::Option::<T>::as_mut std::option::Option::<T>::as_deref
std::option::Option::<T>::as_deref_mut
std::result::Result::<T, E>::as_ref std::result::Result::<T, E>::as_mut std::result::Result::<T, E>::as_deref
core::str::<impl str>::as_bytes std::boxed::Box::<T>::new std::rc::Rc::<T>::new std::sync::Arc::<T>::new
std::path::Path::to_path_buf std::path::PathBuf::as_path std::path::Path::new std::ffi::OsStr::to_os_string
std::slice::<impl [T]>::into_vec std::string::String::into_string std::borrow::Cow::<'_, B>::into_owned
std::vec::Vec::<T, A>::into_iter std::iter::Iterator::into_iter core::str::<impl str>::as_str
std::ops::Index::index_full std::path::Path::as_os_str std::str::<impl str>::into_string
rayon::iter::IntoParallelRefIterator::par_iter rayon::iter::IntoParallelIterator::into_par_iter
std::path::PathBuf::into_os_string std::ffi::OsString::as_os_str std::mem::ManuallyDrop::<T>::new
std::process::ExitCode::from
""".split("\n")


@model(*[x for l in IDENT for x in re.findall(r"\S+(?:<[^>]*>)?\S*", l)])
def m_ident(I, c, st, fv, args, front):
    return args[0] if args else UNIT


for _p in ("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::slice::<impl [T]>::to_vec",
           "std::slice::<impl [T]>::into_vec", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
           "std::vec::Vec::<T, A>::into_iter", "core::str::<impl str>::as_bytes", "core::str::<impl str>::as_str",
           "std::borrow::Cow::<'_, B>::into_owned", "std::borrow::Cow::<'a, B>::into_owned",
           "std::result::Result::<T, E>::as_ref", "std::result::Result::<T, E>::as_mut",
           "std::result::Result::<T, E>::as_deref", "core::str::<impl str>::to_string",
           "std::option::Option::<&mut T>::cloned", "std::option::Option::<&mut T>::copied",
           "std::mem::ManuallyDrop::<T>::new"):
    TABLE[_p] = m_ident


@model("std::clone::Clone::clone", "std::string::ToString::to_string")
def m_clone(I, c, st, fv, args, front):
    v = I.val(st, args[0])
    if fv.a[1].endswith("to_string"):
        g = fv.a[6][0] if fv.a[6] else ""
        if v.op == "k" and v.a[0] == "char":
            return kstr(v.a[1])
        if v.op == "k" and v.a[0] == "int":
            return kstr(str(v.a[1]))
        if not string_like(g):
            return mk("call", "display", I.deep(st, v))
    return I.deep(st, v) if v.op != "clo" else v


def string_like(ty):
    t = ty.lstrip("&").replace("mut ", "")
    t = re.sub(r"^'\w+ ", "", t)
    t = t.lstrip("&")
    return t in ("str", "std::string::String", "char") or t.startswith("std::borrow::Cow<") or t.startswith("&")


@model("std::convert::Into::into", "std::convert::From::from")
def m_from(I, c, st, fv, args, front):
    g = fv.a[6]
    if all(string_like(x) or x in ("std::path::PathBuf", "std::ffi::OsString", "&std::path::Path",
                                   "std::boxed::Box<str>") or x.startswith("&") for x in g):
        return I.val(st, args[0])
    if len(g) == 2 and g[0] == g[1]:
        return args[0]
    return None


@model("std::default::Default::default")
def m_default(I, c, st, fv, args, front):
    g = fv.a[6][0] if fv.a[6] else ""
    if g in ("std::string::String", "&str"):
        return kstr("")
    if g == "bool":
        return FALSE
    if g in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize"):
        return kint(0)
    if g.startswith("std::option::Option<"):
        return NONE
    if g.startswith(("std::vec::Vec<", "std::collections::", "indexmap::")):
        return mk("empty", g.split("<")[0].split("::")[-1])
    return mk("call", "default", kstr(g.split("<")[0]))


# --- strings -------------------------------------------------------------------
@model("std::string::String::new", "std::string::String::with_capacity")
def m_snew(I, c, st, fv, args, front):
    return kstr("")


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def m_vnew(I, c, st, fv, args, front):
    return mk("empty", "Vec")


@model("std::collections::HashMap::<K, V>::new", "std::collections::HashSet::<T>::new", "indexmap::IndexMap::<K, V>::new",
       "std::collections::BTreeMap::<K, V>::new", "std::collections::VecDeque::<T>::new")
def m_cnew(I, c, st, fv, args, front):
    return mk("empty", fv.a[1].split("::")[-3 if "<" in fv.a[1] else -2])


def cat(a, b):
    if b.op == "k" and b.a[0] in ("str", "char") and b.a[1] == "":
        return a
    if b.op == "k" and b.a[0] == "char":
        b = kstr(b.a[1])
    if a.op == "k" and a.a[0] in ("str", "char"):
        if b.op == "k" and b.a[0] == "str":
            return kstr(a.a[1] + b.a[1])
        if a.a[1] == "":
            a = kstr("")
    if b.op == "cat":
        return cat(cat(a, b.a[0]), b.a[1])
    if a.op == "cat" and a.a[1].op == "k" and a.a[1].a[0] == "str" and b.op == "k" and b.a[0] == "str":
        return mk("cat", a.a[0], kstr(a.a[1].a[1] + b.a[1]))
    return mk("cat", a, b)


def append(I, c, st, target, x):
    for pl in I.deref_targets(st, target):
        old = I.val(st, I.load(st, pl))
        I.store(st, pl, cat(old, x))
        if I.recording:
            from engine import Event
            I.event(c.node, Event("push", I.place_name(pl), (x,), old, dict(st.facts), c.span, c.node, c.body, pl))


@model("std::string::String::push", "std::string::String::push_str", "std::fmt::Write::write_str",
       "std::fmt::Write::write_char", "std::ops::AddAssign::add_assign")
def m_push(I, c, st, fv, args, front):
    x = I.deep(st, args[1])
    if fv.a[1].endswith("add_assign") and fv.a[6] and not string_like(fv.a[6][0]):
        return None
    append(I, c, st, args[0], x)
    if "Write::" in fv.a[1]:
        return ok(UNIT)
    return UNIT


@model("std::ops::Add::add")
def m_add(I, c, st, fv, args, front):
    if fv.a[6] and string_like(fv.a[6][0]):
        return cat(I.deep(st, args[0]), I.deep(st, args[1]))
    return None


def fmt_value(I, st, v):
    """fmt::Arguments value -> string expression"""
    v = I.val(st, v)
    if v.op == "fmtargs":
        out = kstr("")
        for p in v.a[0]:
            out = cat(out, p)
        return out
    return mk("call", "display", I.deep(st, v))


@model("std::fmt::Write::write_fmt")
def m_wfmt(I, c, st, fv, args, front):
    g = fv.a[6][0] if fv.a[6] else ""
    if "String" in g:
        append(I, c, st, args[0], fmt_value(I, st, args[1]))
        return ok(UNIT)
    return None


def decode_template(hexs):
    b = bytes.fromhex(hexs)
    i = 0
    out = []
    argi = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 128:
            out.append(("lit", b[i:i + n].decode("utf8")))
            i += n
        elif n == 128:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(("lit", b[i:i + ln].decode("utf8")))
            i += ln
        else:
            opts = {}
            if n & 1:
                opts["flags"] = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if n & 2:
                opts["width"] = int.from_bytes(b[i:i + 2], "little")
                if n & 16:
                    opts["windirect"] = True
                i += 2
            if n & 4:
                opts["prec"] = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 8:
                argi = int.from_bytes(b[i:i + 2], "little")
                i += 2
            out.append(("arg", argi, tuple(sorted(opts.items()))))
            argi += 1
    return out


@model("std::fmt::Arguments::<'a>::new")
def m_fmtnew(I, c, st, fv, args, front):
    t = I.val(st, args[0])
    av = I.val(st, args[1])
    if t.op != "k" or t.a[0] != "bytes" or av.op != "agg":
        return None
    ps = []
    for p in decode_template(t.a[1]):
        if p[0] == "lit":
            ps.append(kstr(p[1]))
        else:
            x = I.deep(st, av.a[3][p[1]]) if p[1] < len(av.a[3]) else mk("k", "opaque", "fmtarg")
            if p[2]:
                w = dict(p[2])
                extra = ()
                if w.get("windirect"):
                    extra = (I.deep(st, av.a[3][w["width"]]),)
                x = mk("call", "fmtopt", x, *extra, mk("k", "opaque", str(p[2])))
            ps.append(x)
    return mk("fmtargs", tuple(ps))


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def m_fmtstr(I, c, st, fv, args, front):
    return mk("fmtargs", (I.val(st, args[0]),))


@model("core::fmt::rt::Argument::<'_>::new_display")
def m_disp(I, c, st, fv, args, front):
    v = I.val(st, args[0])
    g = fv.a[6][0] if fv.a[6] else ""
    if v.op == "k":
        return kstr(str(v.a[1])) if v.a[0] != "opaque" else v
    if string_like(g):
        return v
    return mk("call", "display", I.deep(st, v))


@model("core::fmt::rt::Argument::<'_>::new_debug")
def m_dbg(I, c, st, fv, args, front):
    return mk("call", "debug", I.deep(st, args[0]))


@model("core::fmt::rt::Argument::<'_>::from_usize")
def m_argus(I, c, st, fv, args, front):
    return I.val(st, args[0])


@model("std::fmt::format")
def m_format(I, c, st, fv, args, front):
    return fmt_value(I, st, args[0])


def fold_str(fn):
    def h(I, c, st, fv, args, front):
        vs = [I.val(st, a) for a in args]
        if all(v.op == "k" and v.a[0] in ("str", "char", "int") for v in vs):
            try:
                return fn(*[v.a[1] for v in vs])
            except Exception:
                return None
        return None
    return h


def _b(x):
    return kbool(x)


for n, fn in {
    "is_empty": lambda s: _b(s == ""),
    "len": lambda s: kint(len(s.encode())),
    "starts_with": lambda s, p: _b(s.startswith(p)),
    "ends_with": lambda s, p: _b(s.endswith(p)),
    "contains": lambda s, p: _b(p in s),
    "trim_end": lambda s: kstr(s.rstrip()),
    "trim_start": lambda s: kstr(s.lstrip()),
    "trim": lambda s: kstr(s.strip()),
    "eq_ignore_ascii_case": lambda a, b: _b(a.lower() == b.lower()),
}.items():
    TABLE[f"core::str::<impl str>::{n}"] = fold_str(fn)
    TABLE[f"std::string::String::{n}"] = fold_str(fn)
for n, fn in {"eq_ignore_ascii_case": lambda a, b: _b(a.lower() == b.lower()), "to_str": lambda a: some(kstr(a)),
              "to_string_lossy": kstr, "to_ascii_lowercase": lambda a: kstr(a.lower()), "is_empty": lambda a: _b(a == ""),
              "to_ascii_uppercase": lambda a: kstr(a.upper())}.items():
    TABLE[f"std::ffi::OsStr::{n}"] = fold_str(fn)
for n, fn in {"to_ascii_lowercase": lambda a: kstr(a.lower()), "to_ascii_uppercase": lambda a: kstr(a.upper())}.items():
    TABLE[f"std::str::<impl str>::{n}"] = fold_str(fn)
TABLE["std::str::<impl str>::repeat"] = fold_str(lambda s, n: kstr(s * n))
TABLE["std::str::<impl str>::replace"] = fold_str(lambda s, a, b: kstr(s.replace(a, b)))
TABLE["std::str::<impl str>::to_lowercase"] = fold_str(lambda s: kstr(s.lower()))
TABLE["std::str::<impl str>::to_uppercase"] = fold_str(lambda s: kstr(s.upper()))


def _chr(v):
    x = v.a[1]
    return chr(x) if isinstance(x, int) else x


def fold_char(fn):
    def h(I, c, st, fv, args, front):
        vs = [I.deep(st, a) for a in args]
        if vs and all(v.op == "k" and v.a[0] in ("char", "int") for v in vs):
            try:
                r = fn(*[_chr(v) for v in vs])
                return kbool(r)
            except Exception:
                return None
        return None
    return h


_ASCII = lambda c: ord(c) < 128
for n, fn in {
    "is_ascii": _ASCII, "is_ascii_graphic": lambda c: 33 <= ord(c) <= 126, "is_ascii_alphanumeric": lambda c: _ASCII(c) and c.isalnum(),
    "is_ascii_digit": lambda c: c in "0123456789", "is_ascii_alphabetic": lambda c: _ASCII(c) and c.isalpha(),
    "is_ascii_punctuation": lambda c: 33 <= ord(c) <= 126 and not c.isalnum(), "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c",
    "is_ascii_uppercase": lambda c: _ASCII(c) and c.isupper(), "is_ascii_lowercase": lambda c: _ASCII(c) and c.islower(),
    "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127,
    "is_whitespace": lambda c: c in " \t\n\r\x0b\x0c\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000" or "\u2000" <= c <= "\u200a",
    "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
}.items():
    TABLE["std::char::methods::<impl char>::" + n] = fold_char(fn)
    if n.startswith("is_ascii"):
        TABLE["core::num::<impl u8>::" + n] = fold_char(fn)


def const_text(E):
    """the elements of an iteration over a constant text, or None"""
    if E.op == "call" and E.a[0].split("::")[-1] in ("chars", "bytes", "as_bytes") and len(E.a) == 2 and E.a[1].op == "k" and E.a[1].a[0] == "str":
        s = E.a[1].a[1]
        if E.a[0].endswith("chars"):
            return [kchar(x) for x in dict.fromkeys(s)]
        return [kint(x) for x in dict.fromkeys(s.encode())]
    return None


def isempty(I, c, st, fv, args, front):
    v = I.val(st, args[0])
    if v.op == "k" and v.a[0] == "str":
        return kbool(v.a[1] == "")
    if v.op == "empty":
        return TRUE
    if v.op == "agg" and v.a[0] in ("array",):
        return kbool(not v.a[3])
    if v.op == "cat" and (v.a[1].op == "k" and v.a[1].a[1] != "" or v.a[1].op == "item"):
        return FALSE
    # one canonical spelling for "is empty", whatever the type
    return mk("call", "is_empty", I.deep(st, v))


def length(I, c, st, fv, args, front):
    v = I.val(st, args[0])
    if v.op == "k" and v.a[0] == "str":
        return kint(len(v.a[1].encode()))
    if v.op == "empty":
        return kint(0)
    if v.op == "agg" and v.a[0] == "array":
        return kint(len(v.a[3]))
    return mk("call", "len", I.deep(st, v))


for p in ("core::str::<impl str>::is_empty", "std::string::String::is_empty", "std::vec::Vec::<T, A>::is_empty",
          "core::slice::<impl [T]>::is_empty", "indexmap::IndexMap::<K, V, S>::is_empty",
          "std::collections::HashMap::<K, V, S, A>::is_empty", "std::collections::HashSet::<T, S, A>::is_empty"):
    TABLE[p] = isempty
for p in ("core::str::<impl str>::len", "std::string::String::len", "std::vec::Vec::<T, A>::len",
          "core::slice::<impl [T]>::len"):
    TABLE[p] = length


@model("std::string::String::clear", "std::vec::Vec::<T, A>::clear", "indexmap::IndexMap::<K, V, S>::clear",
       "std::collections::HashMap::<K, V, S, A>::clear", "std::collections::HashSet::<T, S, A>::clear")
def m_clear(I, c, st, fv, args, front):
    e = kstr("") if "String" in fv.a[1] else mk("empty", fv.a[1].split("::")[-3])
    for pl in I.deref_targets(st, args[0]):
        old = I.load(st, pl)
        I.store(st, pl, e)
        if I.recording:
            from engine import Event
            I.event(c.node, Event("clear", I.place_name(pl), (I.deep(st, old),), None, dict(st.facts), c.span, c.node, c.body, pl))
    return UNIT


@model("std::mem::take")
def m_take(I, c, st, fv, args, front):
    g = fv.a[6][0] if fv.a[6] else ""
    if "String" in g:
        e = kstr("")
    elif g.startswith("std::option::Option"):
        e = NONE
    elif g == "bool":
        e = FALSE
    elif g in ("usize", "u32", "u64"):
        e = kint(0)
    elif g.startswith(("std::vec::Vec<", "std::collections::", "indexmap::")):
        e = mk("empty", g.split("<")[0].split("::")[-1])
    else:
        e = mk("call", "default", kstr(g.split("<")[0]))
    return _swap(I, c, st, args[0], e)


def _swap(I, c, st, target, new):
    vals = []
    for pl in I.deref_targets(st, target):
        vals.append(I.load(st, pl))
        I.store(st, pl, new)
        if I.recording:
            from engine import Event
            I.event(c.node, Event("swap", I.place_name(pl), (I.deep(st, new), I.deep(st, vals[-1])), None,
                                  dict(st.facts), c.span, c.node, c.body, pl))
    return vals[0] if len(vals) == 1 else mk("alt", tuple(vals))


@model("std::mem::replace", "std::option::Option::<T>::replace")
def m_replace(I, c, st, fv, args, front):
    n = args[1]
    if "Option" in fv.a[1]:
        n = some(n)
    return _swap(I, c, st, args[0], n)


@model("std::option::Option::<T>::take")
def m_otake(I, c, st, fv, args, front):
    return _swap(I, c, st, args[0], NONE)


@model("std::mem::swap")
def m_swap(I, c, st, fv, args, front):
    b = I.val(st, args[1])
    a = _swap(I, c, st, args[0], b)
    _swap(I, c, st, args[1], a)
    return UNIT


@model("std::mem::drop")
def m_drop(I, c, st, fv, args, front):
    return UNIT


# --- collections -----------------------------------------------------------------
@model("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back",
       "std::collections::HashSet::<T, S, A>::insert", "std::collections::BTreeSet::<T, A>::insert")
def m_vpush(I, c, st, fv, args, front):
    x = mk("item", I.deep(st, args[1]) if I.val(st, args[1]).op != "clo" else args[1])
    append(I, c, st, args[0], x)
    if "insert" in fv.a[1]:
        r = mk("gen", "insert", I.deep(st, args[1]), c.node[0:2])
        I.regenerate(st, r)
        return r
    return UNIT


@model("indexmap::IndexMap::<K, V, S>::insert", "std::collections::HashMap::<K, V, S, A>::insert",
       "std::collections::BTreeMap::<K, V, A>::insert")
def m_minsert(I, c, st, fv, args, front):
    x = mk("item", agg("tuple", "", 0, (I.deep(st, args[1]), I.deep(st, args[2]))))
    append(I, c, st, args[0], x)
    r = mk("gen", "insert", I.deep(st, args[1]), c.node[0:2])
    I.regenerate(st, r)
    return r


@model("std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_from_slice", "std::vec::Vec::<T, A>::append")
def m_extend(I, c, st, fv, args, front):
    g = fv.a[6][0] if fv.a[6] else ""
    if "String" in g and not g.startswith("std::vec"):
        append(I, c, st, args[0], mk("concat", I.deep(st, args[1])))
    else:
        if I.val(st, args[1]).op == "iter" and I.on_elem is not None:
            r = m_collect(I, c, st, mk("fn", "", "", "", "", 0, "", ("",)), [args[1]], front)
            outs = [(r, st, front)] if r.__class__ is V else r
            for v, s, fr in outs:
                append(I, c, s, args[0], mk("items", v))
            return [(UNIT, s, fr) for v, s, fr in outs]
        append(I, c, st, args[0], mk("items", I.deep(st, args[1])))
    return UNIT


@model("indexmap::IndexMap::<K, V, S>::drain", "std::vec::Vec::<T, A>::drain", "std::string::String::drain")
def m_drain(I, c, st, fv, args, front):
    if "String" in fv.a[1]:
        return None
    rng = I.val(st, args[1])
    full = rng.op == "agg" and rng.a[1] == "std::ops::RangeFull" or (rng.op == "k" and "RangeFull" in str(rng.a[1]))
    if not full:
        return None
    r = _swap(I, c, st, args[0], mk("empty", "drained"))
    return I.deep(st, r)


# --- iterators ---------------------------------------------------------------------
ITER_PURE = {"std::iter::Iterator::enumerate": "enumerate", "std::iter::Iterator::rev": "rev",
             "std::iter::Iterator::skip": "skip", "std::iter::Iterator::take": "take",
             "std::iter::Iterator::zip": "zip", "std::iter::Iterator::chain": "chain",
             "std::iter::Iterator::map": "map", "std::iter::Iterator::filter": "filter",
             "std::iter::Iterator::filter_map": "filter_map", "std::iter::Iterator::flat_map": "flat_map",
             "std::iter::Iterator::flatten": "flatten",
             "std::iter::Iterator::take_while": "take_while", "std::iter::Iterator::skip_while": "skip_while",
             "std::iter::Iterator::step_by": "step_by", "std::iter::Iterator::inspect": "inspect",
             "std::iter::Iterator::map_while": "map_while"}


def iterctor(I, c, st, fv, args, front):
    # the source iterator is consumed by value; closures keep their captures by reference
    src = I.val(st, args[0])
    return mk("iter", ITER_PURE[fv.a[1]], src, *args[1:])


for p in ITER_PURE:
    TABLE[p] = iterctor


def elem_of(I, c, st, E, front, tag=(), d=0):
    """[(value or None, state, frontier)] for one `next()` on iterator value E"""
    E = I.val(st, E)
    if E.op == "iter" and d < 8:
        kind, src = E.a[0], E.a[1]
        outs = []

        def again(s3, fr3):
            """an element was passed over: go on with the next one (only if a monitor moved)"""
            if I.on_elem is not None and I.trackkey(s3) != I.trackkey(st0) and d < 6:
                outs.extend(elem_of(I, c, s3, E, fr3, tag, d + 1))
        st0 = st.copy()
        if kind == "zip":
            for v, s, fr in elem_of(I, c, st, src, front, tag + (0,), d + 1):
                if v is None:
                    outs.append((None, s, fr))
                    continue
                for w, s2, fr2 in elem_of(I, c, s, E.a[2], fr, tag + (1,), d + 1):
                    outs.append((None if w is None else agg("tuple", "", 0, (v, w)), s2, fr2))
            return outs
        if kind == "chain":
            outs = [x for x in elem_of(I, c, st, src, front, tag + (0,), d + 1) if x[0] is not None]
            outs += elem_of(I, c, st.copy(), E.a[2], front, tag + (1,), d + 1)
            return outs
        I.shapes.append(E)
        try:
            base = elem_of(I, c, st, src, front, tag, d + 1)
        finally:
            I.shapes.pop()
        for v, s, fr in base:
            if v is None:
                outs.append((None, s, fr))
                continue
            if kind == "enumerate":
                outs.append((agg("tuple", "", 0, (mk("index", v) if whole(src) else mk("index", v, I.deep(st, src)), v)), s, fr))
            elif kind in ("rev", "take", "step_by", "skip"):
                if kind != "rev":
                    s.facts[mk("partial", kind, I.deep(s, v))] = TRUE
                outs.append((v, s, fr))
            elif kind == "map":
                for r, s2, fr2 in I.apply(c, s, E.a[2], [v], fr, ("it", d) + tag):
                    outs.append((r, s2, fr2))
            elif kind in ("filter", "take_while", "skip_while", "inspect"):
                cell = mk("loc", ("itv", c.node, d, tag), 0)
                s.store[cell] = v
                for r, s2, fr2 in I.apply(c, s, E.a[2], [mk("ref", cell, ())], fr, ("it", d) + tag):
                    if kind in ("skip_while", "inspect"):
                        outs.append((v, s2, fr2))
                        continue
                    kn = I.known(s2, r)
                    s3 = s2.copy()
                    if (kn is None or kn is TRUE) and I.learn(s2, r, TRUE):
                        outs.append((v, s2, fr2))
                    if (kn is None or kn is FALSE) and I.learn(s3, r, FALSE):
                        if kind == "take_while":
                            outs.append((None, s3, fr2))
                        else:
                            again(s3, fr2)
            elif kind in ("filter_map", "map_while"):
                for r, s2, fr2 in I.apply(c, s, E.a[2], [v], fr, ("it", d) + tag):
                    for x, s3 in split_option(I, s2, r):
                        if x is not None:
                            outs.append((x, s3, fr2))
                        elif kind == "map_while":
                            outs.append((None, s3, fr2))
                        else:
                            again(s3, fr2)
            elif kind == "flat_map":
                for r, s2, fr2 in I.apply(c, s, E.a[2], [v], fr, ("it", d) + tag):
                    for x in flat(I, c, st0, s2, r, fr2, tag + ("fm",), d + 1):
                        if x[0] is not None:
                            outs.append(x)
                        else:
                            again(x[1], x[2])
            elif kind == "flatten":
                for x in flat(I, c, st0, s, v, fr, tag + ("fl",), d + 1):
                    if x[0] is not None:
                        outs.append(x)
                    else:
                        again(x[1], x[2])
            else:
                outs.append((v, s, fr))
        if not any(x[0] is None for x in outs) and (I.on_elem is None or kind in ("take", "take_while", "map_while", "step_by")):
            outs.append((None, st.copy(), front))
        return outs
    if E.op in ("phi", "alt") or (E.op == "f" and I.has_phi_base(E)):
        al = [x for x in I.alts(E)]
        its = [x for x in al if x.op == "iter"]
        if len(al) == 1:
            return elem_of(I, c, st, al[0], front, tag, d + 1)
        # the same iterator seen before and after being advanced
        roots = {iter_root(x) for x in al}
        if len(roots) == 1:
            return elem_of(I, c, st, roots.pop(), front, tag, d + 1)
    if E.op == "agg" and E.a[0] == "array" and d == 0 and len(E.a[3]) <= 12 and False:
        pass
    src = I.deep(st, iter_root(E))
    ev = mk("elem", src)
    I.regenerate(st, ev)
    s2 = st.copy()
    ct = const_text(src)
    if ct is not None:
        outs = [(x, st.copy(), front) for x in ct] + [(None, s2, front)]
    elif src.op == "empty":
        outs = [(None, s2, front)]
    else:
        outs = [(ev, st, front), (None, s2, front)]
    if I.on_elem is not None:
        outs = I.on_elem(I, c, src, outs)
    return outs


def whole(E):
    """does it go through all of what it goes through, from the start?"""
    E = iter_root(E)
    while E.op == "iter":
        if E.a[0] in ("skip", "skip_while", "filter", "filter_map", "step_by", "rev", "flat_map", "flatten", "chain"):
            return False
        E = iter_root(E.a[1])
    return E.op != "slice"


def flat(I, c, st0, st, r, front, tag, d):
    """one element of the inner list `r` of a flattened iteration"""
    outs = elem_of(I, c, st.copy(), r, front, tag, d)
    if I.on_elem is not None and I.on_flat is not None:
        outs = I.on_flat(I, c, st0, st, r, outs)
    return outs


def iter_root(E):
    while E.op == "mut" and E.a[0].startswith("std::iter"):
        E = E.a[1]
    return E


def split_option(I, st, r):
    """[(payload|None, state)]"""
    v = I.val(st, r)
    if v.op == "agg" and v.a[1] == OPTION:
        return [(v.a[3][0] if v.a[2] == 1 else None, st)]
    d = I.discr(st, v, OPTION)
    outs = []
    s2 = st.copy()
    kn = I.known(st, d)
    if (kn is None or cval(kn) == 1) and I.learn(st, d, kint(1)):
        outs.append((I.proj(v, ("f", "Some.0", 0)), st))
    if (kn is None or cval(kn) == 0) and I.learn(s2, d, kint(0)):
        outs.append((None, s2))
    return outs


def split_result(I, st, r):
    """[(is_ok, payload, state)]"""
    v = I.val(st, r)
    if v.op == "agg" and v.a[1] == RESULT:
        return [(v.a[2] == 0, v.a[3][0], st)]
    d = I.discr(st, v, RESULT)
    outs = []
    s2 = st.copy()
    kn = I.known(st, d)
    if (kn is None or cval(kn) == 0) and I.learn(st, d, kint(0)):
        outs.append((True, I.proj(v, ("f", "Ok.0", 0)), st))
    if (kn is None or cval(kn) == 1) and I.learn(s2, d, kint(1)):
        outs.append((False, I.proj(v, ("f", "Err.0", 0)), s2))
    return outs


@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def m_next(I, c, st, fv, args, front):
    pls = I.deref_targets(st, args[0])
    E = I.val(st, args[0])
    # constant ranges are unrolled
    if E.op == "agg" and E.a[1].startswith("std::ops::Range") and len(E.a[3]) == 2 and len(pls) == 1:
        lo, hi = E.a[3]
        if is_const(lo) and is_const(hi):
            if cval(lo) < cval(hi):
                I.store(st, pls[0], agg(E.a[0], E.a[1], E.a[2], (kint(cval(lo) + 1), hi)))
                return some(lo)
            return NONE
        ev = mk("elem", mk("range", I.deep(st, lo) if lo.op != "phi" else lo, I.deep(st, hi)))
        I.regenerate(st, ev)
        s2 = st.copy()
        outs = [(ev, st, front), (None, s2, front)]
        if I.on_elem is not None:
            outs = I.on_elem(I, c, ev.a[0], outs)
        return [(NONE if v is None else some(v), s, fr) for v, s, fr in outs]
    outs = []
    for v, s, fr in elem_of(I, c, st, E, front):
        outs.append((NONE if v is None else some(v), s, fr))
    return outs


@model("std::iter::Peekable::<I>::peek", "std::iter::Peekable::<I>::peek_mut")
def m_peek(I, c, st, fv, args, front):
    E = I.deep(st, iter_root(I.val(st, args[0])))
    s2 = st.copy()
    return [(some(mk("peeked", E)), st, front), (NONE, s2, front)]


@model("rayon::iter::ParallelIterator::for_each", "std::iter::Iterator::for_each")
def m_foreach(I, c, st, fv, args, front):
    E = args[0]

    def once(s, fr0):
        outs = []
        for v, s1, fr in elem_of(I, c, s, E, fr0):
            if v is None:
                outs.append((s1, fr, True))
                continue
            outs += [(s2, f2, False) for r, s2, f2 in I.apply(c, s1, args[1], [v], fr, ("fe",))]
        return outs
    return [(UNIT, s, f_) for s, f_ in I.loop_states(c, st, front, "for_each", once, (), True)]


@model("std::boxed::Box::<T>::new_uninit")
def m_boxnew(I, c, st, fv, args, front):
    r = mk("gen", "box", c.fr.ctx, c.node[1:3])
    I.regenerate(st, r)
    st.store[mk("obj", r)] = UNDEF
    return r


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_intovec(I, c, st, fv, args, front):
    v = I.deep(st, I.load(st, I.deref_targets(st, args[0])[0]))
    for _ in range(6):
        if v.op == "upd" and len(v.a[1]) == 1:
            v = I.deep(st, v.a[1][0][1])
        elif v.op == "agg" and v.a[0] == "adt" and len(v.a[3]) == 1:
            v = I.deep(st, v.a[3][0])
    return v if v.op == "agg" else None


@model("std::iter::Iterator::fold")
def m_fold(I, c, st, fv, args, front):
    acc = mk("loc", ("acc", c.node), 0)
    st = st.copy()
    st.store[acc] = I.deep(st, args[1])

    def once(s, fr0):
        outs = []
        for v, s1, fr in elem_of(I, c, s, args[0], fr0):
            if v is None:
                outs.append((s1, fr, True))
                continue
            for r, s2, f2 in I.apply(c, s1, args[2], [s1.store[acc], v], fr, ("fold",)):
                s2 = s2.copy()
                s2.store[acc] = I.deep(s2, r)
                outs.append((s2, f2, False))
        return outs
    return [(s.store[acc], s, f_) for s, f_ in I.loop_states(c, st, front, "fold", once, (acc,), ends=True)]


@model("rayon::iter::ParallelIterator::reduce")
def m_preduce(I, c, st, fv, args, front):
    acc = mk("loc", ("acc", c.node), 0)
    res = []
    for r0, s0, f0 in I.apply(c, st.copy(), args[1], [], front, ("red0",)):
        s0 = s0.copy()
        s0.store[acc] = I.deep(s0, r0)

        def once(s, fr0):
            outs = []
            for v, s1, fr in elem_of(I, c, s, args[0], fr0):
                if v is None:
                    outs.append((s1, fr, True))
                    continue
                for r, s2, f2 in I.apply(c, s1, args[2], [s1.store[acc], v], fr, ("red",)):
                    s2 = s2.copy()
                    s2.store[acc] = I.deep(s2, r)
                    outs.append((s2, f2, False))
            return outs
        res += [(s.store[acc], s, f_) for s, f_ in I.loop_states(c, s0, f0, "reduce", once, (acc,), ends=True)]
    return res


@model("std::iter::Iterator::try_for_each", "std::iter::Iterator::try_fold")
def m_tryfe(I, c, st, fv, args, front):
    fold = fv.a[1].endswith("fold")
    acc = mk("loc", ("acc", c.node), 0)
    fin = mk("loc", ("fin", c.node), 0)
    st = st.copy()
    st.store[acc] = I.deep(st, args[1]) if fold else UNIT

    def once(s, fr0):
        outs = []
        for v, s1, fr in elem_of(I, c, s, args[0], fr0):
            if v is None:
                outs.append((s1, fr, True))
                continue
            fa = [s1.store[acc], v] if fold else [v]
            for r, s2, f2 in I.apply(c, s1, args[-1], fa, fr, ("tfe",)):
                r = I.val(s2, r)
                if r.op == "agg" and r.a[1] in (RESULT, OPTION, CFLOW):
                    good = (r.a[2] == 0) == (r.a[1] != OPTION)
                    s2 = s2.copy()
                    if good:
                        s2.store[acc] = I.deep(s2, r.a[3][0]) if r.a[3] else UNIT
                        outs.append((s2, f2, False))
                    else:
                        s2.store[fin] = r
                        outs.append((s2, f2, True))
                else:
                    for good, x, s3 in split_result(I, s2.copy(), r):
                        if good:
                            s3.store[acc] = x
                            outs.append((s3, f2, False))
                        else:
                            s3.store[fin] = err(x)
                            outs.append((s3, f2, True))
        return outs
    res = []
    for s, f_ in I.loop_states(c, st, front, "tryfe", once, (acc,), ends=True):
        if fin in s.store:
            r = s.store.pop(fin)
            res.append((r, s, f_))
        else:
            res.append((ok(s.store[acc]), s, f_))
    return res


def _pred_loop(I, c, st, fv, args, front):
    """any/all/find/position...: run the closure on a symbolic element, forget its state effects only by join"""
    E = I.val(st, args[0])
    name = fv.a[1].split("::")[-1]
    outs_all = []
    base_st = st.copy()
    results = []
    saved, I.on_elem = I.on_elem, None       # monitors see loops, not predicates over a list
    els = elem_of(I, c, st.copy(), E, front)
    I.on_elem = saved
    for v, s, fr in els:
        if v is None:
            continue
        arg = v
        if name in ("find", "max_by_key", "min_by_key"):
            base = mk("loc", ("itv", c.node, name), 0)
            s.store[base] = v
            arg = mk("ref", base, ())
        for r, s2, fr2 in I.apply(c, s, args[1], [arg], fr, (name,)):
            results.append((v, r, s2, fr2))
    node = (c.node[0], c.node[1], ("inv", name, c.node[2]))
    inputs = {"skip": base_st}
    fro = set(front)
    for i, (v, r, s2, fr2) in enumerate(results):
        inputs[("out", i)] = State_(s2.store, base_st.facts)
        fro |= set(fr2)
    j, _ = I.join(node, inputs, None, c.fr, c.node[1], c.body)
    j = j.copy()
    rs = tuple(dict.fromkeys(I.deep(st, r) for v, r, s2, fr2 in results))
    ct = const_text(I.deep(st, E))
    if ct and name in ("any", "all") and all(is_const(r) for r in rs):
        return [(kbool(any(r is TRUE for r in rs) if name == "any" else all(r is TRUE for r in rs)), j, frozenset(fro))]
    if all(r is FALSE for r in rs) and name == "any":
        return [(FALSE, j, frozenset(fro))]
    if all(r is TRUE for r in rs) and name == "all":
        return [(TRUE, j, frozenset(fro))]
    val = mk("call", name, I.deep(st, E), *rs)
    if name in ("find",):
        s2 = j.copy()
        vs = list(dict.fromkeys(v for v, r, _s, _f in results if r is not FALSE))
        if not vs:
            return [(NONE, j, frozenset(fro))]
        w = vs[0] if len(vs) == 1 else mk("alt", tuple(vs))
        return [(some(w), j, frozenset(fro)), (NONE, s2, frozenset(fro))]
    if name in ("position", "rposition"):
        s2 = j.copy()
        return [(some(mk("call", "position", I.deep(st, E), *rs)), j, frozenset(fro)), (NONE, s2, frozenset(fro))]
    return [(val, j, frozenset(fro))]


def State_(store, facts):
    from engine import State
    return State(dict(store), dict(facts))


for n in ("any", "all", "find", "position", "rposition", "count_by"):
    TABLE[f"std::iter::Iterator::{n}"] = _pred_loop
for n in ("any", "all"):
    TABLE[f"rayon::iter::ParallelIterator::{n}"] = _pred_loop


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(I, c, st, fv, args, front):
    """collect: a container whose items are the elements"""
    g = fv.a[6][-1] if fv.a[6] else ""
    E = I.val(st, args[0])
    if E.op != "iter":
        if g == "std::string::String":
            return mk("concat", I.deep(st, E))
        return I.deep(st, E)
    kind = "concat" if g == "std::string::String" else "coll"
    vals = []
    j = None
    fro = set(front)
    node = (c.node[0], c.node[1], ("inv", "collect", c.node[2]))
    inputs = {"skip": st.copy()}
    base_facts = st.facts
    for i, (v, s, fr) in enumerate(elem_of(I, c, st.copy(), E, front)):
        fro |= set(fr)
        inputs[("out", i)] = State_(s.store, base_facts)
        if v is not None:
            d = I.deep(s, v) if I.val(s, v).op != "clo" else v
            if d not in vals:
                vals.append(d)
    j, _ = I.join(node, inputs, None, c.fr, c.node[1], c.body)
    for gh in I.keep_ghosts:
        j.store[gh] = st.store[gh]
    shape = []
    e = E
    while e.op == "iter":
        shape.append(e.a[0])
        if e.a[0] in ("skip", "take", "step_by"):
            shape[-1] = (e.a[0], I.deep(st, e.a[2]) if len(e.a) > 2 else None)
        e = e.a[1]
    val = mk(kind, I.deep(st, e), tuple(shape), tuple(vals))
    if g.startswith("std::result::Result"):
        return [(mk("call", "collect_result", val), j.copy(), frozenset(fro))]
    return [(val, j.copy(), frozenset(fro))]


@model("std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::count", "std::iter::Iterator::last",
       "std::iter::Iterator::sum")
def m_reduce(I, c, st, fv, args, front):
    name = fv.a[1].split("::")[-1]
    r = m_collect(I, c, st, mk("fn", "", "", "", "", 0, "", ("",)), args, front)
    if r.__class__ is V:
        return mk("call", name, r)
    return [(mk("call", name, v), s, f_) for v, s, f_ in r]


@model("std::iter::repeat_n")
def m_repeatn(I, c, st, fv, args, front):
    return mk("call", "repeat_n", I.deep(st, args[0]), I.deep(st, args[1]))


# --- Option / Result -----------------------------------------------------------------
def _opt_is(I, st, v, want):
    d = I.discr(st, v, OPTION)
    return I.binop("Eq", d, kint(want))


@model("std::option::Option::<T>::is_some")
def m_issome(I, c, st, fv, args, front):
    return _opt_is(I, st, args[0], 1)


@model("std::option::Option::<T>::is_none")
def m_isnone(I, c, st, fv, args, front):
    return I.unop("Not", _opt_is(I, st, args[0], 1))


@model("std::result::Result::<T, E>::is_ok")
def m_isok(I, c, st, fv, args, front):
    return I.binop("Eq", I.discr(st, args[0], RESULT), kint(0))


@model("std::result::Result::<T, E>::is_err")
def m_iserr(I, c, st, fv, args, front):
    return I.unop("Not", I.binop("Eq", I.discr(st, args[0], RESULT), kint(0)))


def _panic(I, c, st, what, front):
    if I.recording:
        from engine import Event
        for n in front:
            pass
        I.event(c.node, Event("panic", what, tuple(I.deep(st, a) for a in c.args), None, dict(st.facts), c.span, c.node, c.body))


@model("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect",
       "std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect")
def m_unwrap(I, c, st, fv, args, front):
    v = I.val(st, args[0])
    key = "Some.0" if "Option" in fv.a[1] else "Ok.0"
    goodd = 1 if "Option" in fv.a[1] else 0
    d = I.discr(st, v, OPTION if goodd else RESULT)
    kn = I.known(st, d)
    if kn is not None and kn.op == "k":
        if cval(kn) != goodd:
            _panic(I, c, st, fv.a[1], front)
            return []
    else:
        _panic(I, c, st, fv.a[1], front)
        I.learn(st, d, kint(goodd))
    return I.proj(v, ("f", key, 0))


def opt_cases(I, c, st, v, some_fn, none_fn, front):
    outs = []
    for x, s in split_option(I, st, v):
        r = some_fn(x, s) if x is not None else none_fn(s)
        outs += r if r.__class__ is list else [(r, s, front)]
    return outs


@model("std::option::Option::<T>::unwrap_or")
def m_unwrap_or(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0], lambda x, s: x, lambda s: args[1], front)


@model("std::option::Option::<T>::unwrap_or_default")
def m_unwrap_or_default(I, c, st, fv, args, front):
    d = m_default(I, c, st, fv, args, front)
    return opt_cases(I, c, st, args[0], lambda x, s: x, lambda s: d, front)


@model("std::option::Option::<T>::unwrap_or_else")
def m_unwrap_or_else(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0], lambda x, s: x,
                     lambda s: I.apply(c, s, args[1], [], front, ("oe",)), front)


@model("std::option::Option::<T>::map")
def m_omap(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0],
                     lambda x, s: [(some(r), s2, f2) for r, s2, f2 in I.apply(c, s, args[1], [x], front, ("om",))],
                     lambda s: NONE, front)


@model("std::option::Option::<T>::and_then")
def m_oand(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0], lambda x, s: I.apply(c, s, args[1], [x], front, ("oa",)),
                     lambda s: NONE, front)


@model("std::option::Option::<T>::map_or")
def m_omapor(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0], lambda x, s: I.apply(c, s, args[2], [x], front, ("omo",)),
                     lambda s: args[1], front)


@model("std::option::Option::<T>::map_or_else")
def m_omapore(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0], lambda x, s: I.apply(c, s, args[2], [x], front, ("omo",)),
                     lambda s: I.apply(c, s, args[1], [], front, ("omn",)), front)


@model("std::option::Option::<T>::is_some_and")
def m_issomeand(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0], lambda x, s: I.apply(c, s, args[1], [x], front, ("isa",)),
                     lambda s: FALSE, front)


@model("std::option::Option::<T>::is_none_or")
def m_isnoneor(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0], lambda x, s: I.apply(c, s, args[1], [x], front, ("ino",)),
                     lambda s: TRUE, front)


@model("std::option::Option::<T>::filter")
def m_ofilter(I, c, st, fv, args, front):
    def some_fn(x, s):
        base = mk("loc", ("itv", c.node, "ofilter"), 0)
        s.store[base] = x
        outs = []
        for r, s2, f2 in I.apply(c, s, args[1], [mk("ref", base, ())], front, ("of",)):
            kn = I.known(s2, r)
            s3 = s2.copy()
            if (kn is None or kn is TRUE) and I.learn(s2, r, TRUE):
                outs.append((some(x), s2, f2))
            if (kn is None or kn is FALSE) and I.learn(s3, r, FALSE):
                outs.append((NONE, s3, f2))
        return outs
    return opt_cases(I, c, st, args[0], some_fn, lambda s: NONE, front)


@model("std::option::Option::<T>::or")
def m_oor(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0], lambda x, s: some(x), lambda s: args[1], front)


@model("std::option::Option::<T>::or_else")
def m_oorelse(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0], lambda x, s: some(x), lambda s: I.apply(c, s, args[1], [], front, ("oo",)), front)


@model("std::option::Option::<T>::ok_or")
def m_okor(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0], lambda x, s: ok(x), lambda s: err(args[1]), front)


@model("std::option::Option::<T>::ok_or_else")
def m_okorelse(I, c, st, fv, args, front):
    return opt_cases(I, c, st, args[0], lambda x, s: ok(x),
                     lambda s: [(err(r), s2, f2) for r, s2, f2 in I.apply(c, s, args[1], [], front, ("ooe",))], front)


@model("std::option::Option::<std::result::Result<T, E>>::transpose")
def m_transpose(I, c, st, fv, args, front):
    outs = []
    for x, s in split_option(I, st, args[0]):
        if x is None:
            outs.append((ok(NONE), s, front))
            continue
        for good, p, s2 in split_result(I, s, x):
            outs.append((ok(some(p)) if good else err(p), s2, front))
    return outs


def res_cases(I, c, st, v, ok_fn, err_fn, front):
    outs = []
    for good, x, s in split_result(I, st, v):
        r = ok_fn(x, s) if good else err_fn(x, s)
        outs += r if r.__class__ is list else [(r, s, front)]
    return outs


@model("std::result::Result::<T, E>::map")
def m_rmap(I, c, st, fv, args, front):
    return res_cases(I, c, st, args[0],
                     lambda x, s: [(ok(r), s2, f2) for r, s2, f2 in I.apply(c, s, args[1], [x], front, ("rm",))],
                     lambda x, s: err(x), front)


@model("std::result::Result::<T, E>::map_err")
def m_rmaperr(I, c, st, fv, args, front):
    return res_cases(I, c, st, args[0], lambda x, s: ok(x),
                     lambda x, s: [(err(r), s2, f2) for r, s2, f2 in I.apply(c, s, args[1], [x], front, ("re",))], front)


@model("std::result::Result::<T, E>::and_then")
def m_rand(I, c, st, fv, args, front):
    return res_cases(I, c, st, args[0], lambda x, s: I.apply(c, s, args[1], [x], front, ("ra",)),
                     lambda x, s: err(x), front)


@model("std::result::Result::<T, E>::ok")
def m_rok(I, c, st, fv, args, front):
    return res_cases(I, c, st, args[0], lambda x, s: some(x), lambda x, s: NONE, front)


@model("std::result::Result::<T, E>::err")
def m_rerr(I, c, st, fv, args, front):
    return res_cases(I, c, st, args[0], lambda x, s: NONE, lambda x, s: some(x), front)


@model("std::result::Result::<T, E>::unwrap_or")
def m_runwrapor(I, c, st, fv, args, front):
    return res_cases(I, c, st, args[0], lambda x, s: x, lambda x, s: args[1], front)


@model("std::result::Result::<T, E>::unwrap_or_else")
def m_runwrapore(I, c, st, fv, args, front):
    return res_cases(I, c, st, args[0], lambda x, s: x,
                     lambda x, s: I.apply(c, s, args[1], [x], front, ("rue",)), front)


@model("std::result::Result::<T, E>::unwrap_or_default")
def m_runwrapdef(I, c, st, fv, args, front):
    d = m_default(I, c, st, fv, args, front)
    return res_cases(I, c, st, args[0], lambda x, s: x, lambda x, s: d, front)


@model("std::ops::Try::branch")
def m_branch(I, c, st, fv, args, front):
    g = fv.a[6][0] if fv.a[6] else ""
    cont = lambda x: agg("adt", CFLOW, 0, (x,))
    brk = lambda x: agg("adt", CFLOW, 1, (x,))
    if g.startswith("std::option::Option"):
        return [(cont(x) if x is not None else brk(NONE), s, front) for x, s in split_option(I, st, args[0])]
    if g.startswith("std::result::Result"):
        return [(cont(x) if good else brk(err(x)), s, front) for good, x, s in split_result(I, st, args[0])]
    return None


@model("std::ops::FromResidual::from_residual")
def m_resid(I, c, st, fv, args, front):
    g = fv.a[6][0] if fv.a[6] else ""
    v = I.val(st, args[0])
    if g.startswith("std::option::Option"):
        return NONE
    if v.op == "agg" and v.a[1] == RESULT:
        # the conversion is the identity when both error types are the same
        r = fv.a[6][1] if len(fv.a[6]) > 1 else ""
        m = re.match(r"std::result::Result<(?:!|std::convert::Infallible), (.*)>$", r)
        if m:
            e = m.group(1)
            if g.endswith(", " + e + ">"):
                return err(v.a[3][0])
        return err(mk("call", "err_from", I.deep(st, v.a[3][0])))
    return None


@model("std::ops::Not::not")
def m_not(I, c, st, fv, args, front):
    return I.unop("Not", I.val(st, args[0]))


@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def m_eq(I, c, st, fv, args, front):
    a, b = I.deep(st, args[0]), I.deep(st, args[1])
    ne = fv.a[1].endswith("ne")
    r = eqv(I, st, a, b)
    return I.unop("Not", r) if ne else r


def eqv(I, st, a, b):
    for x, y in ((a, b), (b, a)):
        # comparisons with a unit variant are discriminant tests
        if y.op == "agg" and y.a[0] == "adt" and not y.a[3]:
            ad = I.P.adts.get(y.a[1])
            if (ad and ad["enum"]) or y.a[1] == OPTION:
                d = I.discr(st, x, y.a[1])
                var = I.P.variant(y.a[1], y.a[2])
                return I.binop("Eq", d, kint(var[1] if var else y.a[2]))
        if y.op == "agg" and y.a[0] == "adt" and len(y.a[3]) == 1 and y.a[1] == OPTION:
            if x.op == "agg" and x.a[1] == OPTION:
                if x.a[2] != 1:
                    return FALSE
                return eqv(I, st, x.a[3][0], y.a[3][0])
            if x.op not in ("phi", "alt", "agg"):
                d = I.binop("Eq", I.discr(st, x, OPTION), kint(1))
                e = eqv(I, st, I.proj(x, ("f", "Some.0", 0)), y.a[3][0])
                return e if d is TRUE else I.binop("BitAnd", d, e)
    return I.binop("Eq", a, b)


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def m_ord(I, c, st, fv, args, front):
    op = fv.a[1].split("::")[-1].capitalize()
    return I.binop(op, I.deep(st, args[0]), I.deep(st, args[1]))


@model("std::cmp::max", "std::cmp::Ord::max")
def m_max(I, c, st, fv, args, front):
    a, b = I.deep(st, args[0]), I.deep(st, args[1])
    if is_const(a) and is_const(b):
        return a if cval(a) >= cval(b) else b
    return mk("call", "max", *sorted((a, b), key=lambda v: (v.op == "k", id(v))))


@model("std::cmp::min", "std::cmp::Ord::min")
def m_min(I, c, st, fv, args, front):
    a, b = I.deep(st, args[0]), I.deep(st, args[1])
    if is_const(a) and is_const(b):
        return a if cval(a) <= cval(b) else b
    return mk("call", "min", *sorted((a, b), key=lambda v: (v.op == "k", id(v))))


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(I, c, st, fv, args, front):
    v = I.deep(st, args[0])
    i = I.deep(st, args[1])
    if v.op == "agg" and v.a[0] == "array" and is_const(i) and cval(i) < len(v.a[3]):
        return v.a[3][cval(i)]
    if i.op == "agg" and i.a[1].startswith("std::ops::Range"):
        return mk("slice", v, i.a[1].split("::")[-1], *i.a[3])
    if i.op == "k" and "RangeFull" in str(i.a[1]):
        return args[0]
    return mk("idx", v, i)


@model("core::slice::<impl [T]>::get", "std::collections::HashMap::<K, V, S, A>::get", "indexmap::IndexMap::<K, V, S>::get")
def m_get(I, c, st, fv, args, front):
    if getattr(I, "splits_get", False) and fv.a[1].startswith("core::slice"):
        v, i = I.deep(st, args[0]), I.deep(st, args[1])
        if i.op != "agg":
            within = I.binop("Lt", i, mk("call", "len", v))
            outs = []
            for k, r in ((TRUE, some(mk("idx", v, i))), (FALSE, NONE)):
                s = st.copy()
                if I.learn(s, within, k):
                    outs.append((r, s, front))
            return outs
    return mk("call", "get", I.deep(st, args[0]), I.deep(st, args[1]))


@model("core::slice::<impl [T]>::contains", "std::collections::HashSet::<T, S, A>::contains",
       "std::collections::HashMap::<K, V, S, A>::contains_key", "indexmap::IndexMap::<K, V, S>::contains_key")
def m_contains(I, c, st, fv, args, front):
    a, b = I.deep(st, args[0]), I.deep(st, args[1])
    if a.op == "empty":
        return FALSE
    if a.op == "agg" and a.a[0] == "array" and is_const(b) and all(is_const(x) for x in a.a[3]):
        return kbool(b in a.a[3])
    return mk("call", "contains", a, b)


@model("std::ops::RangeInclusive::<Idx>::new")
def m_ri(I, c, st, fv, args, front):
    a, b = args
    if is_const(a) and is_const(b) and b.a[0] == "int":
        return agg("adt", "std::ops::Range", 0, (a, kint(cval(b) + 1)))
    return mk("call", "range_inclusive", I.deep(st, a), I.deep(st, b))


@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def m_callfn(I, c, st, fv, args, front):
    t = I.val(st, args[1])
    xs = list(t.a[3]) if t.op == "agg" and t.a[0] == "tuple" else [t]
    return I.apply(c, st, args[0], xs, front, ("call",))


@model("std::vec::from_elem")
def m_fromelem(I, c, st, fv, args, front):
    return mk("call", "vec_repeat", I.deep(st, args[0]), I.deep(st, args[1]))


def _boolthen(I, c, st, fv, args, front):
    v = I.val(st, args[0])
    kn = I.known(st, v)
    outs = []
    s2 = st.copy()
    if (kn is None or kn is TRUE) and I.learn(st, v, TRUE):
        if fv.a[1].endswith("then"):
            outs += [(some(r), s, f_) for r, s, f_ in I.apply(c, st, args[1], [], front, ("bt",))]
        else:
            outs.append((some(args[1]), st, front))
    if (kn is None or kn is FALSE) and I.learn(s2, v, FALSE):
        outs.append((NONE, s2, front))
    return outs


TABLE["core::bool::<impl bool>::then"] = _boolthen
TABLE["core::bool::<impl bool>::then_some"] = _boolthen
TABLE["std::bool::<impl bool>::then"] = _boolthen
TABLE["std::bool::<impl bool>::then_some"] = _boolthen

_NORM = [
    (re.compile(r"^std::vec::Vec::<T>::"), "std::vec::Vec::<T, A>::"),
]


def lookup(path):
    for rx, rep in _NORM:
        p = rx.sub(rep, path)
        if p != path and p in TABLE:
            return TABLE[p]
    return None


# --- interior-mutable cells, seen sequentially -------------------------------
@model("std::sync::atomic::Atomic::<bool>::new", "std::sync::atomic::Atomic::<usize>::new", "std::cell::Cell::<T>::new",
       "std::sync::atomic::Atomic::<bool>::into_inner", "std::cell::RefCell::<T>::new",
       "std::sync::atomic::AtomicBool::new", "std::sync::Mutex::<T>::new", "std::cell::RefCell::<T>::into_inner")
def m_cellnew(I, c, st, fv, args, front):
    return args[0]


@model("std::sync::atomic::Atomic::<bool>::load", "std::cell::Cell::<T>::get", "std::sync::atomic::AtomicBool::load",
       "std::sync::atomic::Atomic::<usize>::load")
def m_cellload(I, c, st, fv, args, front):
    return I.val(st, args[0])


@model("std::sync::atomic::Atomic::<bool>::store", "std::cell::Cell::<T>::set", "std::sync::atomic::AtomicBool::store",
       "std::sync::atomic::Atomic::<usize>::store")
def m_cellstore(I, c, st, fv, args, front):
    I.store_places(st, I.deref_targets(st, args[0]), I.deep(st, args[1]))
    return UNIT


@model("std::sync::atomic::Atomic::<bool>::swap", "std::sync::atomic::Atomic::<bool>::fetch_or",
       "std::sync::atomic::Atomic::<bool>::fetch_and")
def m_cellswap(I, c, st, fv, args, front):
    old = I.val(st, args[0])
    new = I.deep(st, args[1])
    if fv.a[1].endswith("fetch_or"):
        new = TRUE if TRUE in (old, new) else (old if new is FALSE else mk("bin", "BitOr", old, new))
    elif fv.a[1].endswith("fetch_and"):
        new = FALSE if FALSE in (old, new) else (old if new is TRUE else mk("bin", "BitAnd", old, new))
    I.store_places(st, I.deref_targets(st, args[0]), new)
    return old


def _range_contains(I, c, st, fv, args, front):
    r, x = I.val(st, args[0]), I.val(st, args[1])
    if r.op != "agg" or x.op not in ("k", "sym", "f", "call", "elem", "bin"):
        return None
    n, fs = r.a[1].split("::")[-1], r.a[3]
    if n == "Range" and len(fs) == 2:
        return I.binop("BitAnd", I.binop("Le", fs[0], x), I.binop("Lt", x, fs[1]))
    if n == "RangeInclusive" and len(fs) >= 2:
        return I.binop("BitAnd", I.binop("Le", fs[0], x), I.binop("Le", x, fs[1]))
    if n == "RangeFrom":
        return I.binop("Le", fs[0], x)
    if n == "RangeTo":
        return I.binop("Lt", x, fs[0])
    if n == "RangeToInclusive":
        return I.binop("Le", x, fs[0])
    return None


for _n in ("Range::<Idx>", "RangeInclusive::<Idx>", "RangeFrom::<Idx>", "RangeTo::<Idx>", "RangeToInclusive::<Idx>", "RangeBounds"):
    TABLE[f"std::ops::{_n}::contains"] = _range_contains


@model("std::clone::Clone::clone_from")
def m_clone_from(I, c, st, fv, args, front):
    v = I.deep(st, args[1])
    for pl in I.deref_targets(st, args[0]):
        I.store(st, pl, v)
    return UNIT


@model("std::string::String::truncate", "std::vec::Vec::<T, A>::truncate")
def m_truncate(I, c, st, fv, args, front):
    """dropping exactly what was appended since the length was taken"""
    n = I.deep(st, args[1])
    pls = I.deref_targets(st, args[0])
    if len(pls) != 1:
        return None
    v = I.val(st, I.load(st, pls[0]))
    if n is kint(0):
        I.store(st, pls[0], kstr("") if "String" in fv.a[1] else mk("empty", "truncated"))
        return UNIT
    if n.op == "call" and n.a[0] == "len":
        x = v
        while True:
            if x is n.a[1]:
                I.store(st, pls[0], x)
                return UNIT
            if x.op != "cat":
                return None
            x = x.a[0]
    return None


@model("core::num::<impl usize>::saturating_sub")
def m_saturating_sub(I, c, st, fv, args, front):
    a, b = I.val(st, args[0]), I.val(st, args[1])
    if is_const(a) and is_const(b):
        return kint(max(0, cval(a) - cval(b)))
    if is_const(b) and a.op == "bin" and a.a[0] == "Add" and is_const(a.a[2]) and cval(a.a[2]) >= cval(b):
        return I.binop("Sub", a, b)
    return None
