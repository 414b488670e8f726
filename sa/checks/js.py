"""The JavaScript route (C08) and the agreement of all entry points (C11)."""
import json
import os
import subprocess

import build
from engine import Interp, State
from values import *
from checks import serdes
from checks.cli import prog
from checks.options import SPEC, fields, path_of, expand

_P = {}
JSO = "wasm::JsOptions"
NOT_JS = ("code_formatters",)


def wprog():
    if "P" not in _P:
        _P["P"] = build.program("wasm-api", bin_too=False)
    return _P["P"]


def ts():
    if "ts" not in _P:
        r = subprocess.run(["node", os.path.join(build.VERIF, "sa", "ts", "tsq.js"), os.path.join(build.REPO, "packages/wasm/src")],
                           capture_output=True, text=True)
        if r.returncode:
            raise build.BuildError("reading the TypeScript sources failed: " + r.stderr[-600:])
        _P["ts"] = json.loads(r.stdout)
    return _P["ts"]


def camel(n):
    a = n.split("_")
    return a[0] + "".join(x.title() for x in a[1:])


def to_options(P, js):
    """alternatives of the options made from one JavaScript options value"""
    I = Interp(P)
    body = P.at_path(JSO + "::to_options")
    vals = []
    for v, s, _ in I.run(body, [js]):
        v = I.deep(s, v)
        vals += expand(I, v)
    return I, vals


def jsobj(fs, **kw):
    return agg("adt", JSO, 0, tuple(kw.get(n, NONE) for n in fs))


def field_vals(I, vals, n, i):
    out = []
    for v in vals:
        for x in expand(I, I.proj(v, ("f", n, i))):
            for y in newtype_alts(I, x):
                if y not in out:
                    out.append(y)
    return out


def newtype_alts(I, x):
    """a one-field wrapper around alternatives: the alternatives, each wrapped"""
    if x.op == "agg" and len(x.a[3]) == 1:
        return [agg(x.a[0], x.a[1], x.a[2], (z,)) for y in expand(I, x.a[3][0]) for z in newtype_alts(I, y)]
    return [x]


def same(I, a, b):
    """equal, possibly spelled by different calls"""
    if a is b:
        return True
    return show(a, 0, 12) == show(b, 0, 12) and "phi" not in show(a, 0, 12)


SAMPLES = {
    "LineWidth": (8, 39, 40, 79, 80, 81, 120, 100000),
    "LeadingSpaces": (0, 1, 2, 3), "TrailingSpaces": (0, 1, 2, 3),
    "IndentWidth": (1, 2, 3, 4, 5, 8, 100), "MinFenceLength": (3, 4, 5, 6, 100),
}


def C08(r):
    from checks import settings
    P = wprog()
    r.rule("js-key", "the JavaScript property named like the option sets the field that feeds it, to the value given, and nothing else")
    r.rule("js-option", "a value of a JavaScript option becomes the value of the formatting option of the same name, and changes no other")
    r.rule("js-absent", "an absent JavaScript option leaves the option's default")
    r.rule("ts-declares", "the TypeScript declarations list exactly the properties the module reads, each with values the module accepts")
    r.rule("ts-passes", "each function of the package passes its text and options on unchanged to the module function of the same name and returns its result")
    r.rule("js-options-used", "each module function formats with the options converted from the object it was given; a malformed object is an error")
    fs = fields(P, JSO)
    ofs = fields(P, "Options")
    names = [n for n in ofs if n not in NOT_JS]
    for n in ofs:
        r.ob("js-option", f"option {n} is known", n in SPEC, "an option this table does not know")
    # keys
    holder = {}
    I0, v0 = serdes.parse(P, JSO)
    r.interp(I0)
    none = v0[0].a[3][0] if len(v0) == 1 and v0[0].op == "agg" and v0[0].a[2] == 0 else None
    for n in names:
        k = camel(n)
        fld = serdes.key(P, JSO, k)
        if fld is None:
            r.ob("js-key", k, False, "the property is not recognised")
            continue
        I, vals = serdes.parse(P, JSO, fld)
        r.interp(I)
        good = [v.a[3][0] for v in vals if v.op == "agg" and v.a[2] == 0]
        hit, okk, why = set(), bool(good), "no successful result"
        for o in good:
            for i, fn in enumerate(fs):
                x = I.proj(o, ("f", fn, i))
                if x is serdes.VALUE:
                    hit.add(fn)
                elif any(y is serdes.VALUE for y in walk(x)):
                    okk, why = False, f"{fn} is {show(x, 0, 4)}"
                elif not (x.op == "agg" and x is NONE or x is NONE):
                    okk, why = False, f"{fn} is {show(x, 0, 4)}"
        if len(hit) != 1:
            okk, why = False, f"sets {sorted(hit)}"
        r.ob("js-key", k, okk, why)
        if len(hit) == 1:
            holder[n] = hit.pop()
    okk = none is not None and all(x is NONE for x in none.a[3])
    r.ob("js-absent", "an empty object sets nothing", okk, show(none) if none is not None else "")
    # conversion
    base_I, base = to_options(P, jsobj(fs))
    r.interp(base_I)
    dflt = [base_I.proj(base[0], ("f", n, i)) for i, n in enumerate(ofs)] if len(base) == 1 else None
    r.ob("js-absent", "no option given", len(base) == 1, f"{len(base)} results")
    if dflt is None:
        return "other", "no conversion"
    V_ = sym("JS_VALUE")
    optty = {x[0]: x[1] for x in P.adts["Options"]["variants"][0][2]} if isinstance(P.adts["Options"]["variants"][0][2][0], (list, tuple)) else {}
    for n in names:
        if n not in holder:
            continue
        i = ofs.index(n)

        def conv(val):
            I, vals = to_options(P, jsobj(fs, **{holder[n]: some(val)}))
            r.interp(I)
            r.count("js_conversions")
            return I, vals
        cases = []      # (name, js value, accept(I, x))
        d = dflt[i]
        ad = P.adts.get(d.a[1]) if d.op == "agg" else None
        if ad is not None and d.a[1].endswith("DashSetting"):
            DS, JD = d.a[1], "wasm::JsDashSetting"
            dis, pat = P.variant_index(DS, "Disabled"), P.variant_index(DS, "Pattern")
            jdis, jpat = P.variant_index(JD, "Disabled"), P.variant_index(JD, "Pattern")
            cases.append(("false", agg("adt", JD, jdis, (FALSE,)), lambda I, x: x.op == "agg" and x.a[2] == dis))
            for w in ("-", "--", "---", "~"):
                cases.append((w, agg("adt", JD, jpat, (kstr(w),)),
                              lambda I, x, w=w: x.op == "agg" and x.a[2] == pat and inner(x) is kstr(w)))
            cases.append(("any pattern", agg("adt", JD, jpat, (V_,)),
                          lambda I, x: x.op == "agg" and (x.a[2] == dis or inner(x) is V_)))
        elif ad is not None and len(ad["variants"]) > 1:
            ws = settings.words(P, d.a[1])
            r.ob("js-option", f"{n}: words", len(ws) >= 2, str(ws))
            for w, vi in sorted(ws.items()):
                cases.append((w, kstr(w), lambda I, x, vi=vi: x.op == "agg" and x.a[2] == vi))
        elif ad is not None and len(ad["variants"]) == 1 and len(d.a[3]) == 1:
            T = d.a[1]
            cases.append(("any value", V_, lambda I, x: same(I, x, d) or x.op == "agg" and x.a[1] == T and x.a[3][0] is V_))
            for c in SAMPLES.get(T.split("::")[-1], ()):
                cases.append((str(c), kint(c), lambda I, x, c=c: x.op == "agg" and x.a[3][0] is kint(c)))
            if T.endswith("ThematicBreakStyle"):
                cases.append(("kept text", V_, lambda I, x: same(I, x, d) or inner(x) is V_))
        else:
            cases.append(("any value", V_, lambda I, x: x is V_))
            if d.op == "k" and d.a[0] == "bool":
                for b in (TRUE, FALSE):
                    cases.append((str(b.a[1]), b, lambda I, x, b=b: x is b))
        for nm, js, acc in cases:
            I, vals = conv(js)
            xs = field_vals(I, vals, n, i)
            bad = [x for x in xs if not acc(I, x)]
            r.ob("js-option", f"{n} <- {nm}", bool(xs) and not bad, f"{n} is {show(bad[0], 0, 5) if bad else 'nothing'}")
            if nm in ("any value", "any pattern", "kept text"):
                r.ob("js-option", f"{n} <- {nm} is used", any(any(y is V_ for y in walk(x)) for x in xs), "the value given is never used")
            for j, m in enumerate(ofs):
                if m != n:
                    ys = field_vals(I, vals, m, j)
                    r.ob("js-option", f"{n} leaves {m} alone", all(same(I, y, dflt[j]) for y in ys), f"{m} becomes {show(ys[0], 0, 4)}")
    # declarations
    t = ts()
    fo = t["interfaces"].get("FormatOptions", {"members": {}})["members"]
    for n in names:
        r.ob("ts-declares", camel(n), camel(n) in fo, "not declared in FormatOptions")
    for k, m in sorted(fo.items()):
        r.ob("ts-declares", k, serdes.key(P, JSO, k) is not None, "declared but not read by the module")
        r.ob("ts-declares", f"{k} optional", m["optional"], "must be optional")
    for nm, mod, res in (("format", "format", None), ("formatWithWarnings", "formatWithWarnings", None), ("formatWithCodeFormatter", "formatWithCodeFormatter", None)):
        fn = t["functions"].get(nm)
        if fn is None:
            r.ob("ts-passes", nm, False, "function is not exported")
            continue
        want = [["param", 0], ["param", 1]]
        calls = fn["calls"]
        mods = [c for c in calls if c[0] in ("format", "formatWithWarnings", "formatWithCodeFormatter")]
        okk = len(mods) == 1 and mods[0][0] == mod
        why = str(mods)[:300]
        if okk:
            a = mods[0][1]
            okk = a[0] == ["param", 0]
            if nm == "formatWithCodeFormatter":
                okk = okk and len(a) == 3 and a[1] in (["param", 1], ["rest", ["param", 1], ["codeFormatter"]]) and a[2] == ["prop", ["param", 1], "codeFormatter"]
            else:
                okk = okk and len(a) == 2 and a[1] == ["param", 1]
            r.ob("ts-passes", f"{nm} result", fn["ret"] == ["call", mod, a], str(fn["ret"])[:300])
        r.ob("ts-passes", nm, okk, why)
    # module functions convert what they are given
    for e in entries("wasm"):
        for ev_opts, facts in e.options:
            base, okk, why = ev_opts, False, show(ev_opts, 0, 5)
            if base.op == "call" and base.a[0].endswith("JsOptions::to_options"):
                alts = expand(e.I, base.a[1])
                okk, why = bool(alts), ""
                seen_from = False
                for a in alts:
                    b, nn = path_of(a)
                    if b.op == "call" and b.a[0] == "serde_wasm_bindgen::from_value" and nn == ("Ok.0",) and b.a[1] is sym("OPTIONS"):
                        seen_from = True
                    elif a.op == "agg" and all(x is NONE for x in a.a[3]):
                        pass
                    else:
                        okk, why = False, f"options come from {show(a, 0, 4)}"
                okk = okk and seen_from
            r.ob("js-options-used", e.name, okk, why)
        r.ob("js-options-used", f"{e.name}: formats", bool(e.options), "no rendering reached")
        given = e.given_default
        r.ob("js-options-used", f"{e.name}: an object given is read", not given, "the defaults are used although options were given")
    return "other", ("Constant and symbolic propagation through the generated deserialiser, JsOptions::to_options and the module's entry points, one run per "
                     "option and value; syntax-tree evaluation of the TypeScript wrapper. ")


def inner(x):
    while x.op == "agg" and len(x.a[3]) == 1:
        x = x.a[3][0]
    return x


def defaults(r, ref):
    """C09: JavaScript options left out, and their documented defaults"""
    from checks import settings
    P = wprog()
    fs, ofs = fields(P, JSO), fields(P, "Options")
    I, vals = to_options(P, jsobj(fs))
    r.interp(I)
    t = ts()["interfaces"].get("FormatOptions", {"members": {}})["members"]
    for n, k in SPEC.items():
        if n in NOT_JS:
            continue
        c = settings.canon(P, I.proj(vals[0], ("f", n, ofs.index(n)))) if len(vals) == 1 and n in ofs else None
        want = ref.get(k)
        r.ob("same-default", f"{n}: JavaScript option absent", c == want and type(c) is type(want), f"{c!r}, the formatting option's default is {want!r}")
        d = t.get(camel(n), {}).get("default")
        if d is not None:
            try:
                dv = json.loads(d)
            except ValueError:
                dv = d
            dv = "(empty)" if dv in ([], {}) else dv
            r.ob("documented-default", f"types.ts {camel(n)}", dv == want and type(dv) is type(want), f"documented as {dv!r}, is {want!r}")
    dv = settings.default_of(P, JSO)
    r.ob("same-default", "JsOptions::default is all absent", dv is not None and all(x is NONE for x in dv.a[3]), "")


# ---------------------------------------------------------------- entry points
class Entry:
    """one entry point, with the parser and the renderer left opaque"""

    def __init__(self, P, path, args, empty):
        self.P, self.name, self.path = P, path, path
        self.parses, self.renders, self.options, self.tovalues = [], [], [], []
        self.given_default = False
        body = P.at_path(path)
        txt = kstr("") if empty else sym("INPUT")
        self.txt = txt
        absent = mk("call", "is_empty", txt)

        def assume(I, st, v):
            if v is absent:
                return FALSE
            if v.op == "call" and v.a[0].split("::")[-1] in ("is_undefined", "is_null") and v.a[1] is sym("OPTIONS"):
                return FALSE
            return None

        def h_parse(I, c, st, fv, args, front):
            ev = record_(I, c, st, fv, args)
            if I.recording:
                self.parses.append(ev)
            return None

        def h_ser(I, c, st, fv, args, front):
            ev = record_(I, c, st, fv, args)
            if I.recording:
                self.renders.append(ev)
                s = ev.args[0]
                fs = fields(P, "serializer::state::Serializer")
                self.options.append((I.proj(s, ("f", "options", fs.index("options"))), None))
            return None

        def h_tov(I, c, st, fv, args, front):
            ev = record_(I, c, st, fv, args)
            if I.recording:
                self.tovalues.append(ev.args[0])
            return None
        from ghost import record as record_
        sn = P.one("serialize_node")
        hooks = {"comrak::parse_document": h_parse, sn.path: h_ser, "serde_wasm_bindgen::to_value": h_tov}
        self.I = I = Interp(P, opaque=lambda b: b.name in ("serialize_node", "to_options"), assume=assume, hooks=hooks)
        self.outs = []
        for v, s, _ in I.run(body, [txt] + list(args)):
            v = I.deep(s, v)
            for x in (I.alts(v) if v.op == "phi" else [v]):
                self.outs.append(x)
        for o, _ in self.options:
            if o.op == "call" and o.a[0].endswith("to_options"):
                for a in expand(I, o.a[1]):
                    if a.op == "agg":
                        self.given_default = True


_E = {}


def entries(which, empty=False):
    if (which, empty) not in _E:
        if which == "wasm":
            P, base = wprog(), "wasm::"
            ps = [("wasm::format", 1), ("wasm::format_with_warnings", 1), ("wasm::format_with_code_formatter", 2)]
        else:
            P = prog()
            ps = [("format", 1), ("format_with_warnings", 1)]
        _E[(which, empty)] = [Entry(P, p, [sym("OPTIONS"), sym("CALLBACK")][:n], empty) for p, n in ps]
    return _E[(which, empty)]


def canon(v, memo=None):
    """complete structure of a value, as text"""
    memo = {}

    def go(x):
        if x.__class__ is V:
            if x not in memo:
                memo[x] = show(x) if x.op in ("k", "sym") else f"{x.op}({', '.join(go(y) for y in x.a)})"
            return memo[x]
        if x.__class__ is tuple:
            return "[" + ", ".join(go(y) for y in x) + "]"
        return short(x) if isinstance(x, str) and "::" in x else str(x)
    return go(v)


def C11(r):
    r.rule("same-parser", "every entry point parses its complete text, once, with the same parser settings")
    r.rule("same-renderer", "every entry point renders the parsed document with the same renderer in the same initial state: its options, the text's lines, and nothing else")
    r.rule("result-returned", "what is returned is exactly what the renderer wrote, with exactly its warnings")
    r.rule("empty-input", "empty text gives empty output and no warnings")
    ref, refst = None, None
    for which in ("lib", "wasm"):
        for e in entries(which):
            I, P = e.I, e.P
            r.interp(I)
            r.ob("same-parser", f"{e.name}: parses", bool(e.parses), "the parser is not reached")
            for ev in e.parses:
                r.ob("same-parser", f"{e.name}: text", ev.args[1] is e.txt, f"parses {show(ev.args[1], 0, 4)}", ev.span)
                c = canon(ev.args[2])
                if ref is None:
                    ref = (e.name, c)
                r.ob("same-parser", f"{e.name}: settings", c == ref[1], f"parser settings differ from those of {ref[0]}", ev.span)
            r.ob("same-renderer", f"{e.name}: renders", bool(e.renders), "the renderer is not reached")
            fs = fields(P, "serializer::state::Serializer")
            for ev in e.renders:
                for x in expand(I, ev.args[1]):
                    r.ob("same-renderer", f"{e.name}: document", x.op in ("call", "gen") and x.a[0] == "comrak::parse_document", f"renders {show(x, 0, 4)}", ev.span)
                state = {}
                for i, n in enumerate(fs):
                    x = I.proj(ev.args[0], ("f", n, i))
                    if n == "options":
                        if which == "lib":
                            r.ob("same-renderer", f"{e.name}: options", x is sym("OPTIONS"), show(x, 0, 4), ev.span)
                        continue
                    if "callback" in n:
                        if e.name.endswith("code_formatter"):
                            callback(r, e, I, x, ev)
                            continue
                        r.ob("same-renderer", f"{e.name}: {n}", all(y is NONE for y in expand(I, x)), show(x, 0, 4), ev.span)
                        continue
                    state[n] = sorted({canon(y) for y in expand(I, x)})
                if refst is None:
                    refst = (e.name, state)
                for n in sorted(set(state) | set(refst[1])):
                    if n in state and n in refst[1]:
                        r.ob("same-renderer", f"{e.name}: initial {n}", state[n] == refst[1][n], f"{state[n]} but {refst[1][n]} in {refst[0]}", ev.span)
            results(r, e, which)
        for e in entries(which, True):
            r.interp(e.I)
            results(r, e, which, empty=True)
    # the lines handed to the renderer are the text's
    ln = refst[1].get("source_lines") if refst else None
    r.ob("same-renderer", "source lines", ln == ["call(str::lines, INPUT)"], str(ln))
    # the command line formats through the library only
    main_routes(r)
    return "other", ("Abstract interpretation of each of the five entry points with parser and renderer opaque: parser settings, text, initial renderer "
                     "state and result of each are compared symbolically. ")


def callback(r, e, I, x, ev):
    """the closure given to the renderer calls the function the caller passed"""
    for y in expand(I, x):
        if y is NONE:
            continue
        okk = y.op == "agg" and y.a[1] == OPTION
        clo = y.a[3][0] if okk and y.a[3] else None
        r.ob("same-renderer", f"{e.name}: callback", clo is not None and any(z is sym("CALLBACK") for z in walk(clo)), show(y, 0, 4), ev.span)


def from_render(v, field):
    """is v the given field of the renderer after rendering?"""
    b, n = path_of(v)
    return n == (field,) and b.op == "mut" and b.a[0].endswith("serialize_node")


def results(r, e, which, empty=False):
    I = e.I
    rule = "empty-input" if empty else "result-returned"
    ok_ = [x for x in e.outs if x.op == "agg" and x.a[1] == RESULT and x.a[2] == 0]
    other = [x for x in e.outs if not (x.op == "agg" and x.a[1] == RESULT)]
    if e.name.startswith("wasm::") and e.name != "wasm::format":
        vals = e.tovalues
        r.ob(rule, f"{e.name}: result", bool(vals), "nothing is returned")
        for x in [z for v in e.outs for z in expand(I, v)]:
            if x.op == "agg" and x.a[2] == 0:
                b, n = path_of(x.a[3][0])
                r.ob(rule, f"{e.name}: what is returned", b.op == "call" and b.a[0] == "serde_wasm_bindgen::to_value", show(x, 0, 4))
    else:
        r.ob(rule, f"{e.name}: result", bool(ok_), "no successful result")
        vals = [x.a[3][0] for x in ok_]
        vals = [y for v in vals for y in expand(I, v)]
    for v in vals:
        if v.op == "agg" and v.a[1].endswith("FormatResult"):
            fs = fields(e.P, v.a[1])
            outs = expand(I, I.proj(v, ("f", "output", fs.index("output"))))
            ws = expand(I, I.proj(v, ("f", "warnings", fs.index("warnings"))))
        else:
            outs, ws = expand(I, v), None
        for o in outs:
            okk = (o is kstr("") or o.op == "empty") if empty else from_render(o, "output")
            r.ob(rule, f"{e.name}: output", okk, f"output is {show(o, 0, 4)}")
        for w in ws or ():
            if empty:
                okk = w.op == "empty" or w.op == "coll" and w.a[0].op == "empty"
            elif w.op == "coll":
                okk = all(s == "map" for s in w.a[1]) and all(from_render(y, "warnings") for y in expand(I, w.a[0])) and all(
                    warning_ok(e, I, t, w.a[0]) for t in w.a[2])
            else:
                okk = from_render(w, "warnings")
            r.ob(rule, f"{e.name}: warnings", okk, f"warnings are {show(w, 0, 5)}")


def warning_ok(e, I, t, root):
    if t.op != "agg":
        return False
    for i, n in enumerate(fields(e.P, t.a[1])):
        x = I.proj(t, ("f", n, i))
        b, nn = path_of(x)
        if nn != (n,) or b.op != "elem":
            return False
    return True


def main_routes(r):
    """every rendering started by the command line program goes through the library's entry points"""
    from checks.cli import callees
    P = prog()
    names = {(c, b.path) for b, c, *_ in callees(P, "bin")}
    direct = [(c, p) for c, p in names if c.startswith("comrak::") or c.startswith("serializer::serialize")]
    r.ob("same-renderer", "command line", not direct, f"{direct[:3]} bypass the library's entry points")
    r.ob("same-renderer", "command line formats", any(c in ("format", "format_with_warnings") for c, p in names), "no call of the library's formatting function")
