"""Settings files: what each key sets (C07), what is the default of each setting on
each route (C09), and which values of constrained settings can exist (C13)."""
import os
import re
import tomllib

import build
from engine import Interp, State
from values import *
from checks import serdes
from checks.cli import prog
from checks.options import SPEC, SECTIONS, fields

CONFIG, LAYER = "config::Config", "config::ConfigLayer"
TOP = ("no_inherit", "line_width", "include", "exclude", "git_aware")


def section_ty(P, s):
    t = "config::" + "".join(w.title() for w in s.split("_")) + "Config"
    return t if t in P.adts else None


def run1(P, body, args=(), **kw):
    """all result values of one body"""
    I = Interp(P, **kw)
    vals = []
    for v, s, _ in I.run(body, list(args)):
        v = I.deep(s, v)
        vals += I.alts(v) if v.op == "phi" else [v]
    return I, vals


def default_of(P, adt):
    c = [b for b in P.bodies.values() if b.path == f"<{adt} as std::default::Default>::default"]
    if len(c) != 1:
        return None
    _, vals = run1(P, c[0])
    return vals[0] if len(vals) == 1 else None


def words(P, ty):
    """word -> variant index of a unit-only enum, for the words its deserialiser lists"""
    out = {}
    for b in P.bodies.values():
        if b.path.endswith(f"for {ty}>::deserialize::__FieldVisitor as serde::de::Visitor<'de>>::visit_str"):
            for w in strings(P, b):
                v = serdes.enum_variant(P, ty, w)
                if v is not None:
                    out[w] = v
    return out


def strings(P, body):
    """string constants a body compares with"""
    I = Interp(P)
    I.run(body, [sym("SELF"), sym("TEXT")])
    out = []
    for e in I.all_events():
        for a in e.args:
            for x in walk(a):
                if x.op == "k" and x.a[0] == "str" and x.a[1] not in out:
                    out.append(x.a[1])
    return out


_W = {}


def canon(P, v):
    """a comparable constant for a setting's value; None if it is not a constant"""
    if v is None:
        return None
    if v.op == "k":
        return v.a[1]
    if v.op == "empty":
        return "(empty)"
    if v.op == "call" and v.a[0].split("::")[-1] in ("new", "default") and len(v.a) == 1:
        return "(empty)"
    if v.op == "agg":
        ad = P.adts.get(v.a[1])
        if ad is None:
            return None
        if v.a[1].endswith("DashSetting"):
            return False if not v.a[3] else canon(P, v.a[3][0])
        if len(ad["variants"]) == 1 and len(v.a[3]) == 1:
            return canon(P, v.a[3][0])
        if not v.a[3]:
            w = _W.setdefault(v.a[1], words(P, v.a[1]))
            for k, i in w.items():
                if i == v.a[2]:
                    return k
            return f"{v.a[1]}#{v.a[2]}"
    return None


def readme_sample():
    """the sample configuration of the documentation: {(section, name): value}"""
    with open(os.path.join(build.REPO, "README.md"), encoding="utf8") as fh:
        txt = fh.read()
    best, src = {}, None
    for m in re.finditer(r"^(~~~+|```+) *toml[^\n]*\n(.*?)^\1", txt, re.S | re.M):
        try:
            t = tomllib.loads(m.group(2))
        except tomllib.TOMLDecodeError:
            continue
        d = {}
        for k, v in t.items():
            if isinstance(v, dict):
                for k2, v2 in v.items():
                    d[(k, k2)] = v2
            else:
                d[("", k)] = v
        if len(d) > len(best):
            best = d
    return {k: ("(empty)" if v in ([], {}) else v) for k, v in best.items()}


def file_rules(r):
    """C07: which key of a configuration file sets which setting"""
    P = prog()
    r.rule("key-to-setting", "in a configuration file the key of each setting's name sets that setting, to the value given, and nothing else")
    r.rule("word-to-value", "each marker, fence and padding word stands for the value that renders as that word")
    r.rule("entry-forms", "a formatter entry in table form takes its command and timeout from the keys of those names")
    want = {}
    for s, n in set(SPEC.values()):
        want.setdefault(s, set()).add(n)
    want[""] |= set(TOP) | set(SECTIONS)
    layer_only = {CONFIG: [""], LAYER: [""]}
    types = [(CONFIG, ""), (LAYER, "")] + [(section_ty(P, s), s) for s in SECTIONS]
    for ty, s in types:
        if ty is None:
            r.ob("key-to-setting", f"section {s}", False, "type of the section not found")
            continue
        fs = fields(P, ty)
        base = None
        I0, v0 = serdes.parse(P, ty)
        base = v0[0].a[3][0] if len(v0) == 1 and v0[0].op == "agg" and v0[0].a[2] == 0 else None
        for n in sorted(want[s]):
            k = f"{ty.split('::')[-1]}: key {n}"
            fld = serdes.key(P, ty, n)
            if fld is None:
                r.ob("key-to-setting", k, False, "the key is not recognised")
                continue
            I, vals = serdes.parse(P, ty, fld)
            r.interp(I)
            good = [v for v in vals if v.op == "agg" and v.a[1] == RESULT and v.a[2] == 0]
            okk, why = bool(good), "no successful result"
            for v in good:
                o = v.a[3][0]
                for i, fn in enumerate(fs):
                    x = I.proj(o, ("f", fn, i))
                    if fn == n:
                        if x is not serdes.VALUE:
                            okk, why = False, f"sets {show(x, 0, 4)}"
                    elif any(y is serdes.VALUE for y in walk(x)):
                        okk, why = False, f"also sets {fn}"
                    elif base is not None and I.proj(base, ("f", fn, i)) is not x:
                        okk, why = False, f"changes {fn}"
            r.ob("key-to-setting", k, okk, why)
    for ty in ("UnorderedMarker", "OrderedMarker", "FenceChar"):
        ad = "config::" + ty
        exp = {"UnorderedMarker": "-*+", "OrderedMarker": ".)", "FenceChar": "~`"}[ty]
        acc = P.at_path(ad + "::as_char")
        for w in exp:
            vi = serdes.enum_variant(P, ad, w)
            got = None
            if vi is not None:
                I, vals = run1(P, acc, [agg("adt", ad, vi, ())])
                r.interp(I)
                got = vals[0].a[1] if len(vals) == 1 and vals[0].op == "k" else None
                got = chr(got) if isinstance(got, int) else got
            r.ob("word-to-value", f"{ty} {w}", got == w, f"renders as {got!r}")
    for i, w in enumerate(("start", "end")):
        vi = serdes.enum_variant(P, "config::OrderedListPad", w)
        name = P.adts["config::OrderedListPad"]["variants"][vi][0] if vi is not None else None
        r.ob("word-to-value", f"pad {w}", name == w.title(), f"means {name}")
    FC = "config::FormatterConfig"
    for n in ("command", "timeout"):
        fld = serdes.key(P, FC, n)
        if fld is None:
            r.ob("entry-forms", f"key {n}", False, "the key is not recognised")
            continue
        I, vals = serdes.parse(P, FC, fld)
        vi = P.variant_index(FC, "Full")
        fs = [x[0] if isinstance(x, (list, tuple)) else x for x in P.adts[FC]["variants"][vi][2]]
        good = [v.a[3][0] for v in vals if v.op == "agg" and v.a[2] == 0]
        okk = all(o.op == "agg" and o.a[2] == vi and o.a[3][fs.index(n)] is serdes.VALUE for o in good)
        # without a command there is no entry at all
        okk = okk and (bool(good) or n == "timeout")
        r.ob("entry-forms", f"key {n}", okk, "another field is set")
        if n == "command" and good:
            t = good[0].a[3][fs.index("timeout")]
            r.ob("entry-forms", "timeout left out", t.op == "k", f"is {show(t)}")


def C09(r):
    P = prog()
    r.rule("same-default", "every route by which a setting can be left out gives it the same value")
    r.rule("documented-default", "the documentation's sample configuration and option tables state that value")
    opt = default_of(P, "Options")
    ofs = fields(P, "Options")
    I = Interp(P)
    ref = {}
    for n, (s, name) in SPEC.items():
        v = I.proj(opt, ("f", n, ofs.index(n))) if opt is not None and n in ofs else None
        c = canon(P, v)
        r.ob("same-default", f"Options::default {n} is a constant", c is not None, show(v) if v is not None else "not found")
        ref[(s, name)] = c
    routes = {}
    cfg = default_of(P, CONFIG)
    I1, v1 = serdes.parse(P, CONFIG)
    r.interp(I1)
    empty = v1[0].a[3][0] if len(v1) == 1 and v1[0].op == "agg" and v1[0].a[2] == 0 else None
    cf = fields(P, CONFIG)

    def get(base, s, n):
        if base is None:
            return None
        if s:
            base = I.proj(base, ("f", s, cf.index(s))) if s in cf else None
            ty = section_ty(P, s)
            fs = fields(P, ty) if ty else []
        else:
            fs = cf
        if base is None or n not in fs:
            return None
        return canon(P, I.proj(base, ("f", n, fs.index(n))))
    for (s, n), want in sorted(ref.items()):
        k = f"{s + '.' if s else ''}{n}"
        c = get(cfg, s, n)
        r.ob("same-default", f"{k}: Config::default", c == want and type(c) is type(want), f"{c!r}, the formatting option's default is {want!r}")
        c = get(empty, s, n)
        r.ob("same-default", f"{k}: empty configuration file", c == want and type(c) is type(want), f"{c!r}, the formatting option's default is {want!r}")
        if s:
            ty = section_ty(P, s)
            if ty:
                I2, v2 = serdes.parse(P, ty)
                r.interp(I2)
                o = v2[0].a[3][0] if len(v2) == 1 and v2[0].op == "agg" and v2[0].a[2] == 0 else None
                c = canon(P, I.proj(o, ("f", n, fields(P, ty).index(n)))) if o is not None and n in fields(P, ty) else None
                r.ob("same-default", f"{k}: section without the key", c == want and type(c) is type(want), f"{c!r}, the formatting option's default is {want!r}")
    # settings that are not formatting options
    other = {}
    for n in TOP:
        if n == "line_width":
            continue
        a, b = get(cfg, "", n), get(empty, "", n)
        other[("", n)] = a
        r.ob("same-default", f"{n}: empty configuration file", a is not None and a == b, f"{b!r}, Config::default has {a!r}")
    doc = readme_sample()
    for (s, n), want in sorted({**ref, **{k: v for k, v in other.items() if k[1] != "no_inherit"}}.items()):
        k = f"{s + '.' if s else ''}{n}"
        if (s, n) not in doc:
            r.ob("documented-default", f"README {k}", False, "not in the sample configuration")
            continue
        r.ob("documented-default", f"README {k}", doc[(s, n)] == want and type(doc[(s, n)]) is type(want), f"documented as {doc[(s, n)]!r}, is {want!r}")
    known = set(ref) | set(other)
    for s, n in doc:
        r.ob("documented-default", f"README {s + '.' if s else ''}{n} exists", (s, n) in known or (s == "code_block" and n == "formatters"), "documented but not a setting")
    timeouts(r, P)
    import checks.js as js
    js.defaults(r, ref)
    return "other", ("Constant propagation through every default on every route (library options, configuration type, generated deserialisers with "
                     "absent keys, JavaScript options with absent properties), compared setting by setting with each other and with the documented values. ")


def timeouts(r, P):
    FC = "config::FormatterConfig"
    vals = {}
    fld = serdes.key(P, FC, "command")
    vi = P.variant_index(FC, "Full")
    fs = [x[0] if isinstance(x, (list, tuple)) else x for x in P.adts[FC]["variants"][vi][2]]
    if fld is not None:
        I, vs = serdes.parse(P, FC, fld)
        for v in vs:
            if v.op == "agg" and v.a[2] == 0:
                vals["table form without timeout"] = canon(P, v.a[3][0].a[3][fs.index("timeout")])
    I, vs = run1(P, P.at_path(FC + "::timeout"), [agg("adt", FC, P.variant_index(FC, "Simple"), (sym("COMMAND"),))])
    vals["list form"] = canon(P, vs[0]) if len(vs) == 1 else None
    with open(os.path.join(build.REPO, "README.md"), encoding="utf8") as fh:
        m = re.search(r"timeout[^\n]*default[^\d\n]*(\d+)", fh.read())
    if m:
        vals["documented"] = int(m.group(1))
    r.ob("same-default", "timeout of a formatter", len(set(vals.values())) == 1 and None not in vals.values(), str(vals))
