"""C13: which values of the constrained settings can come into being."""
import itertools

import unroll
from engine import Interp, State, INT_BITS
from values import *
from ghost import gget, gset, init, track, record
from checks import cli, serdes
from checks.cli import prog, is_parse
from checks.options import fields, path_of, CFG

# newtype -> (documented smallest value, documented largest value)
NUM = {"LineWidth": (8, None), "LeadingSpaces": (0, 3), "TrailingSpaces": (0, 3), "IndentWidth": (1, None), "MinFenceLength": (3, None)}
TEXT = ("ThematicBreakStyle", "DashPattern")
CMP = ("Lt", "Le", "Gt", "Ge", "Eq", "Ne")
RAW = sym("RAW_VALUE")
MAXU = 2**64 - 1


def kint_(n):
    return kint(n)


def dash_ok(s):
    return s != "" and all("!" <= c <= "~" for c in s)


def break_ok(s):
    m = [c for c in s if c not in " \t"]
    return len(m) >= 3 and len(set(m)) == 1 and m[0] in "*-_"


def results(P, body, args, hooks=None, consts=False):
    I = Interp(P, hooks={**(unroll.HOOKS if consts else {}), **(hooks or {})})
    if consts:
        I.unroll, I.MAXPART = True, 300
    out = []
    for v, s, _ in I.run(body, list(args)):
        v = I.deep(s, v)
        out += I.alts(v) if v.op in ("phi", "alt") else [v]
    return I, out


def payload(v):
    """(accepted?, contents) of a Result, contents of the newtype inside; None if unclear"""
    if v.op != "agg" or v.a[1] != RESULT:
        return None
    if v.a[2] == 1:
        return False, None
    x = v.a[3][0]
    return True, x


def inner(x, ty):
    if x.op == "agg" and x.a[1] == ty and len(x.a[3]) == 1:
        return x.a[3][0]
    return None


def route_new(P, ty):
    b = P.at_path(ty + "::new")
    return lambda v: results(P, b, [v], consts=v is not RAW)


def route_de(P, ty, prim):
    """the deserialiser of the newtype, handed a raw value of its primitive type"""
    c = [b for b in P.bodies.values() if " as serde::Deserialize<" in b.impl_trait and b.name == "deserialize"
         and b.self_ty == ty and b.crate == "lib"]
    if len(c) != 1:
        return None

    def run(v):
        def h(I, cc, st, fv, args, front):
            g = [str(x) for x in (fv.a[6] or ())] if len(fv.a) > 6 else []
            w = INT_BITS.get(g[0]) if g else None
            if w and v.op == "k" and v.a[0] == "int":
                lo, hi = (-(1 << (w[0] - 1)), (1 << (w[0] - 1)) - 1) if w[1] else (0, (1 << w[0]) - 1)
                if not lo <= v.a[1] <= hi:
                    return [(err(mk("call", "deserialize_error")), st, front)]
            return [(ok(v), st, front)]
        return results(P, c[0], [sym("DESERIALIZER")], {"serde::Deserialize::deserialize": h}, v is not RAW)
    return run


def numbers(r, P):
    for n, (lo, hi) in NUM.items():
        ty = "config::" + n
        routes = {"new": route_new(P, ty), "deserialize": route_de(P, ty, "usize")}
        for rn, run in routes.items():
            key = f"{n}::{rn}"
            if run is None:
                r.ob("range-exact", key, False, "construction route not found")
                continue
            # 1. every decision compares the value with constants
            I, vs = run(RAW)
            r.interp(I)
            crit, odd = {0, MAXU}, None
            for cnd in I.conds:
                if not mentions(cnd, RAW):
                    continue
                ks = cmp_consts(cnd)
                if ks is None:
                    odd = show(cnd, 0, 5)
                else:
                    crit |= ks
            r.ob("range-exact", f"{key}: decisions", odd is None, f"decides by {odd}, which is not a comparison of the value with a constant")
            crit |= {lo} | ({hi} if hi is not None else set())
            pts = sorted({x + d for x in crit for d in (-1, 0, 1) if 0 <= x + d <= MAXU})
            if rn == "deserialize":
                pts = [-(2**63), -1] + pts
            # 2. the outcome in each of the regions the constants make
            bad, changed = [], []
            for p in pts:
                _, outs = run(kint(p))
                want = lo <= p and (hi is None or p <= hi)
                got = {payload(v)[0] if payload(v) else None for v in outs}
                if got != {want}:
                    bad.append(p)
                for v in outs:
                    pv = payload(v)
                    if pv and pv[0] and inner(pv[1], ty) is not kint(p):
                        changed.append(p)
            rng = f"{lo}..={hi}" if hi is not None else f"{lo}.."
            r.ob("range-exact", f"{key}: range", not bad, f"accepts or rejects {bad} against the documented range {rng}")
            r.ob("value-unchanged", key, not changed, f"{changed} are stored as another value")


def mentions(v, x):
    return any(y is x for y in walk(v))


def cmp_consts(c):
    """the constants a decision compares the value with, None if it does anything else with it"""
    if not mentions(c, RAW):
        return set()
    if c.op == "sw" and c.a[0] is RAW:
        return set(c.a[1])
    if c.op == "un" and c.a[0] == "Not":
        return cmp_consts(c.a[1])
    if c.op == "bin" and c.a[0] in ("BitAnd", "BitOr"):
        a, b = cmp_consts(c.a[1]), cmp_consts(c.a[2])
        return None if a is None or b is None else a | b
    if c.op == "bin" and c.a[0] in CMP:
        a, b = c.a[1], c.a[2]
        if a is RAW and b.op == "k" and b.a[0] == "int":
            return {b.a[1]}
        if b is RAW and a.op == "k" and a.a[0] == "int":
            return {a.a[1]}
    return None


def texts(r, P, tier):
    # dash patterns: one string per class of characters, in every position
    chars = [chr(i) for i in range(128)] + ["\x80", "\xa0", "é", "–", "—", "\u2028", "\u3000", "😀"]
    dash = [""] + chars + [a + b for a in "-x \n é–" for b in "-x \n é–"] + ["--", "---", "- -", "-- ", " --", "a\u00a0b", "-é-", "----------"]
    alpha = "*-_ \tx"
    brk = ["".join(t) for n in range(0, 5) for t in itertools.product(alpha, repeat=n)]
    brk += ["*****", "- - -", "_  _  _", "* * * -", "***-", "***--", "-**-*", "- - - *", "___*_", "*\t*\t*", "**** _", "*** ---", "*-_*-_*-_", "***é", "***\n", "***\n***"]
    # white space at the ends is not part of the property
    brk = [s for s in brk if s == s.strip()]
    for n, cand, good in (("DashPattern", dash, dash_ok), ("ThematicBreakStyle", brk, break_ok)):
        ty = "config::" + n
        routes = {"new": (route_new(P, ty), cand)}
        d = route_de(P, ty, "String")
        small = [s for s in cand if len(s) <= 3]
        routes["deserialize"] = (d, small)
        for rn, (run, cs) in routes.items():
            key = f"{n}::{rn}"
            if run is None:
                r.ob("text-accepted", key, False, "construction route not found")
                continue
            bad, changed, unclear = [], [], []
            nst = 0
            for s in dict.fromkeys(cs):
                I, outs = run(kstr(s))
                nst += I.nsteps
                got = {payload(v)[0] if payload(v) else None for v in outs}
                if got != {good(s)}:
                    (unclear if len(got) != 1 or None in got else bad).append(s)
                for v in outs:
                    pv = payload(v)
                    if pv and pv[0] and inner(pv[1], ty) is not kstr(s):
                        changed.append(s)
            r.count("abstract runs over text classes", len(cs))
            r.ob("text-accepted", key, not bad, f"accepts or rejects against the documented form: {bad[:6]!r}")
            r.ob("text-accepted", f"{key} is decided", not unclear, f"outcome depends on something other than the text: {unclear[:4]!r}")
            r.ob("value-unchanged", key, not changed, f"stored as another text: {changed[:6]!r}")


def dash_setting(r, P):
    """a dash setting in a file: false, or an acceptable pattern; true and other types are errors"""
    vis = [b for b in P.bodies.values() if " as serde::de::Visitor<" in b.impl_trait and "<config::DashSetting as serde::Deserialize<" in b.path]
    names = {b.name: b for b in vis}
    off = P.variant_index("config::DashSetting", "Disabled")
    pat = P.variant_index("config::DashSetting", "Pattern")
    ok1 = ok2 = False
    if "visit_bool" in names:
        for v, want in ((FALSE, True), (TRUE, False)):
            I, outs = results(P, names["visit_bool"], [sym("VISITOR"), v])
            r.interp(I)
            okk = bool(outs)
            for o in outs:
                p = payload(o)
                okk = okk and p is not None and p[0] == want and (not want or (p[1].op == "agg" and p[1].a[2] == off))
            r.ob("dash-forms", f"dash setting {'true' if v is TRUE else 'false'}", okk, "not handled as documented")
    else:
        r.ob("dash-forms", "dash setting false", False, "booleans are not handled")
    strs = [n for n in ("visit_str", "visit_string", "visit_borrowed_str") if n in names]
    r.ob("dash-forms", "dash setting given as text", "visit_str" in strs, "texts are not handled")
    for n in strs:
        bad = []
        for s in ("", "-", "--", "a b", " ", "é", "\t", "~", " --", "-- ", "\n", "A", "---"):
            I, outs = results(P, names[n], [sym("VISITOR"), kstr(s)], consts=True)
            for o in outs:
                p = payload(o)
                good = p is not None and p[0] == dash_ok(s)
                if good and p[0]:
                    x = p[1]
                    good = x.op == "agg" and x.a[2] == pat and inner(x.a[3][0], "config::DashPattern") is kstr(s)
                if not good:
                    bad.append(s)
            if not outs:
                bad.append(s)
        r.ob("dash-forms", f"dash setting given as text ({n})", not bad, f"wrong outcome for {bad!r}")
    other = [n for n in names if n.startswith("visit_") and n not in ("visit_bool", "visit_str", "visit_string", "visit_borrowed_str")]
    r.ob("dash-forms", "dash setting of another type", not other, f"accepted by {other}")


def aggregates(P, tys):
    """(type, body, block, statement, operand) of every construction, and mentions of the constructor as a function"""
    for b0 in P.bodies.values():
        for b in [b0] + list(b0.promoted):
            for bi, bl in enumerate(b.blocks):
                for s in bl["s"]:
                    rv = s[1]
                    if isinstance(rv, list) and rv and rv[0] == "agg" and rv[1] == "adt" and rv[2] in tys:
                        yield rv[2], b, s, "construct"
                    d = s[0]
                    if isinstance(d, list) and any(isinstance(e, list) and e[0] == "f" and len(e) > 3 and e[3] in tys for e in d[1:]):
                        yield next(e[3] for e in d[1:] if isinstance(e, list) and e[0] == "f" and len(e) > 3 and e[3] in tys), b, s, "assign"
                    if isinstance(rv, list) and rv and rv[0] == "ref" and rv[1] is True and isinstance(rv[2], list) \
                            and any(isinstance(e, list) and e[0] == "f" and len(e) > 3 and e[3] in tys for e in rv[2][1:]):
                        yield next(e[3] for e in rv[2][1:] if isinstance(e, list) and e[0] == "f" and len(e) > 3 and e[3] in tys), b, s, "borrow"
                for j in ctor_consts([bl["s"], bl["t"]], tys):
                    yield j, b, bl, "ctor"


def ctor_consts(j, tys):
    if isinstance(j, dict):
        if j.get("ctor") in tys:
            yield j["ctor"]
        for x in j.values():
            yield from ctor_consts(x, tys)
    elif isinstance(j, list):
        for x in j:
            yield from ctor_consts(x, tys)


def construction(r, P):
    tys = {"config::" + n for n in list(NUM) + list(TEXT)}
    for ty in sorted(tys):
        ad = P.adts.get(ty)
        if ad is None:
            r.ob("one-way-in", f"{ty}", False, "type not found")
            continue
        pub = [f for v in ad["variants"] for f in v[2] if f[2]]
        r.ob("one-way-in", f"{ty}: contents private", not pub, "the contents can be set from anywhere")
    groups = {}
    for ty, b, s, kind in aggregates(P, tys):
        root = b
        groups.setdefault((ty, b.prom_of or b.id, kind), []).append((b, s))
    for (ty, bid, kind), sites in sorted(groups.items(), key=str):
        b = P.bodies.get(bid) or sites[0][0]
        n = ty.split("::")[-1]
        key = f"{n} {kind} in {b.path}"
        site = sites[0][1][2] if kind != "ctor" else b.span
        if b.path == ty + "::new" or (b.kind == "closure" and (P.bodies[b.parent].path if b.parent in P.bodies else "") == ty + "::new"):
            r.ob("one-way-in", key, True, "", site)
            continue
        if kind == "borrow" or kind == "assign":
            r.ob("one-way-in", key, False, "the contents are changed outside the checking constructor", site)
            continue
        # anything else may only rebuild an existing value or make an acceptable constant
        S = sym("SELF")
        I = Interp(P)
        outs = I.run(b, [S] + [sym(f"ARG{i}") for i in range(1, b.nargs)])
        okk, why = bool(outs), "never returns"
        found = False
        for v, st, _ in outs:
            v = I.deep(st, v)
            for y in walk(v):
                x = inner(y, ty)
                if x is None:
                    continue
                found = True
                for z in (I.alts(x) if x.op in ("phi", "alt") else [x]):
                    if z.op == "k":
                        if n in NUM:
                            lo, hi = NUM[n]
                            good = z.a[0] == "int" and lo <= z.a[1] and (hi is None or z.a[1] <= hi)
                        else:
                            good = z.a[0] == "str" and (dash_ok if n == "DashPattern" else break_ok)(z.a[1])
                    else:
                        while z.op == "call" and z.a[0].split("::")[-1] in ("clone", "to_string", "to_owned", "deref"):
                            z = z.a[1]
                        good = z.op == "f" and z.a[1] == "0"
                    if not good:
                        okk, why = False, f"makes a value from {show(z, 0, 4)} without checking it"
        if not found and kind == "ctor":
            okk, why = False, "the constructor is used as a function"
        r.ob("one-way-in", key, okk, why, site)


class Reject:
    """main with one bad setting: nothing may be read"""

    def __init__(self, P, name, cfg, stdin=False, files=True):
        self.P, self.name, self.stdin, self.files = P, name, stdin, files
        self.reads, self.codes = [], set()
        self.cfg = cfg
        self.run()

    def assume(self, I, st, v):
        if v.op == "f" and is_parse(v.a[0]) and v.a[1] == "stdin":
            return kbool(self.stdin)
        if v.op == "call" and v.a[0] == "is_empty" and v.a[1].op == "f" and v.a[1].a[1] == "files" and is_parse(v.a[1].a[0]):
            return kbool(not self.files)
        return None

    def h_load(self, which):
        def h(I, c, st, fv, args, front):
            record(I, c, st, fv, args)
            v = self.cfg
            if which == "casc":
                v = agg("tuple", "", 0, (v, sym("PROJECT_PATH")))
            return [(ok(v), st, front)]
        return h

    def h_input(self, I, c, st, fv, args, front):
        ev = record(I, c, st, fv, args)
        if I.recording:
            self.reads.append((fv.a[1], c.span))
        val = mk("call", "local:" + fv.a[1], *ev.args)
        return [(ok(mk("f", val, "Ok.0", 0)), st, front), (err(mk("f", val, "Err.0", 0)), st.copy(), front)]

    def run(self):
        P = self.P
        fmt = P.at_path("format_with_warnings", crate="lib").path
        hooks = {"config::Config::from_file": self.h_load("file"), "config::Config::load_cascading": self.h_load("casc")}
        for n in (fmt, P.at_path("format", crate="lib").path, "std::fs::read_to_string", "std::fs::read", "std::io::Read::read_to_string",
                  "std::io::Read::read_to_end", "std::io::read_to_string", "std::fs::File::open", "config::Config::collect_files", "std::fs::write"):
            hooks[n] = self.h_input
        keep = {"config::FormatterConfig::validate", "config::FormatterConfig::command", "serializer::punctuation::validate_dash_settings"}

        def opaque(b):
            return not (b.crate == "bin" or b.path in keep or b.derived or b.impl_trait.startswith("std::cmp::PartialEq") or b.kind == "closure")
        self.I = I = Interp(P, opaque=opaque, assume=self.assume, hooks={**unroll.HOOKS, **hooks})
        I.MAXPART = 200
        for v, s, _ in I.run(P.one("main", crate="bin"), [], State()):
            self.codes.add(cli.exit_code(I, s, v))


def set_field(I, P, v, path, val):
    ty = "config::Config"
    proj = []
    for n in path:
        i = fields(P, ty).index(n)
        proj.append(("f", n, i))
        t = P.adts[ty]["variants"][0][2][i][1]
        ty = t
    return I.update(v, proj, val)


def before_input(r, P):
    FC = "config::FormatterConfig"
    ad = P.adts[FC]
    names = lambda vi: [x[0] if isinstance(x, (list, tuple)) else x for x in ad["variants"][vi][2]]
    body = P.at_path(FC + "::validate")
    # the validation itself
    shapes = {}
    for vi, var in enumerate(ad["variants"]):
        for emp in (True, False):
            lst = mk("empty", "Vec") if emp else agg("array", "", 0, (sym("PROGRAM"),))
            fs = [lst if n in ("0", "command") else sym("TIMEOUT") for n in names(vi)]
            w = agg("adt", FC, vi, fs)
            shapes[(var[0], emp)] = w
            I, outs = results(P, body, [w])
            r.interp(I)
            got = {payload(o)[0] if payload(o) else None for o in outs}
            r.ob("formatter-command", f"{var[0]} with {'an empty' if emp else 'a'} command", got == {not emp}, f"outcome {sorted(map(str, got))}")
    # dash settings against each other
    DS, DP = "config::DashSetting", "config::DashPattern"
    off, pat = P.variant_index(DS, "Disabled"), P.variant_index(DS, "Pattern")
    mkd = lambda s: agg("adt", DS, off, ()) if s is None else agg("adt", DS, pat, (agg("adt", DP, 0, (kstr(s),)),))
    vb = P.at_path("serializer::punctuation::validate_dash_settings")
    ofs = fields(P, "Options")
    bad = []
    for en, em in itertools.product((None, "-", "--", "---", "~"), repeat=2):
        I = Interp(P)
        o = sym("OPTIONS")
        o = I.update(o, [("f", "en_dash", ofs.index("en_dash"))], mkd(en))
        o = I.update(o, [("f", "em_dash", ofs.index("em_dash"))], mkd(em))
        _, outs = results(P, vb, [o])
        got = {payload(x)[0] if payload(x) else None for x in outs}
        if got != {not (en is not None and en == em)}:
            bad.append((en, em))
    r.ob("dash-conflict", "equal dash patterns", not bad, f"wrong outcome for {bad}")
    # main rejects before anything is read
    I0 = Interp(P)
    C0 = sym("CONFIG")
    good = set_field(I0, P, set_field(I0, P, C0, ("punctuation", "en_dash"), mkd(None)), ("punctuation", "em_dash"), mkd("--"))
    clash = set_field(I0, P, set_field(I0, P, C0, ("punctuation", "en_dash"), mkd("--")), ("punctuation", "em_dash"), mkd("--"))
    fine = agg("tuple", "", 0, (kstr("a"), shapes[(ad["variants"][0][0], False)]))
    fine2 = agg("tuple", "", 0, (kstr("z"), shapes[(ad["variants"][-1][0], False)]))
    maps = lambda *xs: agg("array", "", 0, xs)
    with_f = lambda c, m: set_field(I0, P, c, ("code_block", "formatters"), m)
    cases = [("contradictory dash settings", with_f(clash, maps(fine)))]
    for vi, var in enumerate(ad["variants"]):
        bad = agg("tuple", "", 0, (kstr("lang"), shapes[(var[0], True)]))
        cases.append((f"formatter without a command ({var[0]})", with_f(good, maps(fine, bad, fine2))))
    for name, cfg in cases:
        for stdin, files in ((False, True), (True, True), (False, False)):
            k = f"{name}, {'standard input' if stdin else 'files' if files else 'include patterns'}"
            x = Reject(P, name, cfg, stdin, files)
            r.interp(x.I)
            r.ob("rejected-first", k, not x.reads, f"{x.reads[:1]} is reached", x.reads[0][1] if x.reads else "")
            r.ob("rejected-first", f"{k}: status", x.codes <= {1} and x.codes, f"exit status {x.codes}")
    for stdin, files in ((False, True), (True, True), (False, False)):
        x = Reject(P, "acceptable", with_f(good, maps(fine, fine2)), stdin, files)
        r.interp(x.I)
        r.ob("accepted-settings-run", f"{'standard input' if stdin else 'files' if files else 'include patterns'}", bool(x.reads), "acceptable settings are rejected")


def C13(r):
    P = prog()
    r.rule("range-exact", "constructor and deserialiser of each numeric setting accept exactly the documented range, deciding only by comparisons of the value with constants")
    r.rule("text-accepted", "thematic break styles and dash patterns are accepted exactly in the documented form")
    r.rule("value-unchanged", "an accepted value is stored unchanged")
    r.rule("one-way-in", "constrained values come into being only in their checking constructor, as acceptable constants, or as copies")
    r.rule("dash-forms", "a dash setting in a file is false or an acceptable pattern")
    r.rule("formatter-command", "a formatter is valid exactly if its command is not empty")
    r.rule("dash-conflict", "dash settings contradict each other exactly if both are enabled with the same pattern")
    r.rule("rejected-first", "with an invalid formatter or contradictory dash settings the program fails before any input is read")
    r.rule("accepted-settings-run", "valid settings are not rejected")
    numbers(r, P)
    texts(r, P, "quick")
    dash_setting(r, P)
    construction(r, P)
    before_input(r, P)
    return "other", ("Constant-region propagation through constructors and deserialisers, a scan of every construction site of the constrained "
                     "types, and abstract interpretation of main with one invalid setting. ")
