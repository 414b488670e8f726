"""How settings become formatting options: from the configuration (C07), and their
defaults (C09) and use (C10)."""
import models
from engine import Interp, State
from values import *
from ghost import gget, gset, init, track, record
from checks import cli
from checks.cli import prog, is_parse

CFG = {"file": sym("CONFIG_FROM_FILE"), "casc": sym("CONFIG_CASCADED")}
SECTIONS = ("heading", "unordered_list", "ordered_list", "code_block", "thematic_break", "punctuation")
# option -> setting (section, name); the options carry the section in their name only where names clash
SPEC = {
    "line_width": ("", "line_width"),
    "setext_h1": ("heading", "setext_h1"),
    "setext_h2": ("heading", "setext_h2"),
    "heading_sentence_case": ("heading", "sentence_case"),
    "heading_proper_nouns": ("heading", "proper_nouns"),
    "heading_common_nouns": ("heading", "common_nouns"),
    "unordered_marker": ("unordered_list", "unordered_marker"),
    "leading_spaces": ("unordered_list", "leading_spaces"),
    "trailing_spaces": ("unordered_list", "trailing_spaces"),
    "indent_width": ("unordered_list", "indent_width"),
    "odd_level_marker": ("ordered_list", "odd_level_marker"),
    "even_level_marker": ("ordered_list", "even_level_marker"),
    "ordered_list_pad": ("ordered_list", "pad"),
    "ordered_list_indent_width": ("ordered_list", "indent_width"),
    "fence_char": ("code_block", "fence_char"),
    "min_fence_length": ("code_block", "min_fence_length"),
    "space_after_fence": ("code_block", "space_after_fence"),
    "default_language": ("code_block", "default_language"),
    "thematic_break_style": ("thematic_break", "style"),
    "thematic_break_leading_spaces": ("thematic_break", "leading_spaces"),
    "curly_double_quotes": ("punctuation", "curly_double_quotes"),
    "curly_single_quotes": ("punctuation", "curly_single_quotes"),
    "curly_apostrophes": ("punctuation", "curly_apostrophes"),
    "ellipsis": ("punctuation", "ellipsis"),
    "en_dash": ("punctuation", "en_dash"),
    "em_dash": ("punctuation", "em_dash"),
    "code_formatters": ("code_block", "formatters"),
}


def fields(P, adt):
    a = P.adts[adt]
    return [x[0] if isinstance(x, (list, tuple)) else x for x in a["variants"][0][2]]


def path_of(v):
    """(base, names) of a chain of field projections"""
    names = []
    while v.op == "f":
        names.append(v.a[1])
        v = v.a[0]
    return v, tuple(reversed(names))


class Build:
    """main, under: --config given or not, --line-width given or not."""

    def __init__(self, conf, width):
        self.conf, self.width = conf, width
        self.name = f"{'--config' if conf else 'no --config'}, {'--line-width' if width else 'no --line-width'}"
        self.P = prog()
        self.formats, self.loads, self.eprints = [], [], []
        self.missed, self.inserted = {}, {}
        self.run()

    def assume(self, I, st, v):
        if v.op == "discr" and v.a[0].op == "f" and is_parse(v.a[0].a[0]):
            if v.a[0].a[1] == "config":
                return kint(1 if self.conf else 0)
            if v.a[0].a[1] == "line_width":
                return kint(1 if self.width else 0)
        return None

    def h_load(self, which):
        def h(I, c, st, fv, args, front):
            ev = record(I, c, st, fv, args)
            if I.recording:
                self.loads.append((which, ev))
            s2 = st.copy()
            gset(st, "ld", which)
            gset(s2, "ld", "failed")
            gset(s2, "msg", True)
            val = CFG[which]
            if which == "casc":
                val = agg("tuple", "", 0, (val, sym("PROJECT_PATH")))
            return [(ok(val), st, front), (err(sym("LOAD_ERROR")), s2, front)]
        return h

    def h_format(self, I, c, st, fv, args, front):
        ev = record(I, c, st, fv, args)
        if I.recording:
            self.formats.append((gget(st, "ld"), gget(st, "msg"), ev, I.deep(st, args[1])))
        val = mk("call", "FORMAT", ev.args[0])
        return [(ok(mk("f", val, "Ok.0", 0)), st, front), (err(mk("f", val, "Err.0", 0)), st.copy(), front)]

    def h_eprint(self, I, c, st, fv, args, front):
        gset(st, "msg", False)
        return None

    def is_formatters(self, root):
        b, n = path_of(root)
        return n[-1:] == ("formatters",)

    def on_elem(self, I, c, root, outs):
        r = root
        while r.op in ("call", "mut") and len(r.a) > 1 and r.a[1].__class__ is V and r.a[0].split("::")[-1] in ("iter", "into_iter", "clone"):
            r = r.a[1]
        if not self.is_formatters(r):
            return outs
        k = str(c.node[0])
        for v, s, f_ in outs:
            if gget(s, "fm") == "pend":
                self.missed[k] = c.span
            if v is not None:
                gset(s, "fm", "pend")
                gset(s, "ln", k)
            else:
                gset(s, "fm", "no")
        return outs

    def h_insert(self, I, c, st, fv, args, front):
        key = I.deep(st, args[1])
        if any(x.op == "elem" for x in walk(key)):
            if gget(st, "fm") == "pend":
                self.inserted[gget(st, "ln")] = c.span
                gset(st, "fm", "done")
        return None

    def run(self):
        P = self.P
        fmt = P.at_path("format_with_warnings", crate="lib").path
        fmt2 = P.at_path("format", crate="lib").path
        hooks = {
            "config::Config::from_file": self.h_load("file"),
            "config::Config::load_cascading": self.h_load("casc"),
            fmt: self.h_format, fmt2: self.h_format,
            "std::io::_eprint": self.h_eprint,
            "std::collections::HashMap::<K, V, S, A>::insert": self.h_insert,
        }
        stop = {"config::FormatterConfig::command", "config::FormatterConfig::timeout", "config::FormatterConfig::validate",
                "config::Config::collect_files", "serializer::punctuation::validate_dash_settings",
                "config::Config::default", "config::LineWidth::new"}

        def opaque(b):
            if b.crate == "bin":
                return False
            return b.path in stop or b.path.startswith("serializer::") or b.name == "default" or b.path.startswith("<config::Config as")
        self.I = I = Interp(P, opaque=opaque, assume=self.assume, hooks=hooks, track=track(["ld", "msg", "fm"]))
        I.MAXPART = 200
        I.on_elem = self.on_elem
        st = init(State(), ld="none", msg=False, fm="no", ln="-")
        I.run(P.one("main", crate="bin"), [], st)


_B = {}


def builds():
    if not _B:
        for conf in (False, True):
            for width in (False, True):
                _B[(conf, width)] = Build(conf, width)
    return _B


def expand(I, v):
    """constructor fields of v may be phis: all alternatives"""
    if v.op in ("phi", "alt") or (v.op == "f" and I.has_phi_base(v)):
        return I.alts(v)
    return [v]


def unwrap_new(v):
    """LineWidth::new(x).Ok.0 or LineWidth(x) -> x"""
    if v.op == "agg" and v.a[1].endswith("LineWidth") and len(v.a[3]) == 1:
        return v.a[3][0]
    if v.op == "f" and v.a[1] == "Ok.0" and v.a[0].op == "call" and v.a[0].a[0] == "local:config::LineWidth::new":
        return v.a[0].a[1]
    return None


def base_ok(I, base, ld):
    if ld in CFG:
        return base is CFG[ld]
    return base.op == "call" and "Config" in base.a[0] and base.a[0].endswith("::default")


def entries(I, v, out, seen):
    """the (key, value) pairs a map expression may hold, and the shapes of the iterations building it"""
    for x in expand(I, v):
        if x in seen:
            continue
        seen.add(x)
        if x.op == "cat":
            entries(I, x.a[0], out, seen)
            entries(I, x.a[1], out, seen)
        elif x.op == "item":
            t = x.a[0]
            for y in expand(I, t):
                out.append(("item", y, None))
        elif x.op == "items":
            entries(I, x.a[0], out, seen)
        elif x.op == "coll":
            for t in x.a[2]:
                for y in expand(I, t):
                    out.append(("coll", y, (x.a[0], x.a[1])))
        elif x.op == "empty":
            pass
        elif x.op == "call" and x.a[0].split("::")[-1] in ("new", "default", "with_capacity"):
            pass
        elif x.op == "prev":
            entries(I, x.a[0], out, seen)
        else:
            out.append(("?", x, None))


def C07(r):
    P = prog()
    r.rule("setting-to-option", "each field of the options given to the formatter is the configuration's setting of the same section and name")
    r.rule("line-width-override", "--line-width, validated, replaces the configured line width, and nothing else does")
    r.rule("config-source", "the configuration is read from the --config file if given, else from the cascade starting at the current directory")
    r.rule("load-failure-reported", "a configuration that cannot be loaded is reported on stderr and only then replaced by the defaults")
    r.rule("formatter-entries", "every configured formatter becomes one entry: its language, its full command, its timeout")
    r.rule("all-options-covered", "every field of the options type is covered by the table of settings, and every setting feeds an option")
    opt = "Options" if "Options" in P.adts else [a for a in P.adts if a.split("::")[-1] == "Options"][0]
    fs = fields(P, opt)
    for n in fs:
        r.ob("all-options-covered", f"option {n}", n in SPEC, "an option this table does not know")
    used = set(SPEC.values())
    for s, a in [("", "config::Config")] + [(x, None) for x in SECTIONS]:
        if s:
            cand = [k for k in P.adts if k == "config::" + "".join(w.title() for w in s.split("_")) + "Config"]
            if not cand:
                r.ob("all-options-covered", f"section {s}", False, "section type not found")
                continue
            a = cand[0]
        for n in fields(P, a):
            if s or n not in SECTIONS + ("no_inherit", "include", "exclude", "git_aware"):
                r.ob("all-options-covered", f"setting {s + '.' if s else ''}{n}", (s, n) in used, "a setting that feeds no option")
    for (conf, width), b in builds().items():
        I = b.I
        r.interp(I)
        if not b.formats:
            r.ob("setting-to-option", f"formatting is reached [{b.name}]", False, "no call of the formatter is reachable")
        for which, ev in b.loads:
            want = "file" if conf else "casc"
            r.ob("config-source", f"source [{b.name}]", which == want, f"loads the configuration from {which}", ev.span)
            for a in expand(I, ev.args[0]):
                if which == "file":
                    okk = a.op == "f" and a.a[1] == "Some.0" and path_of(a.a[0])[1] == ("config",) and is_parse(path_of(a.a[0])[0])
                else:
                    okk = (a.op == "f" and a.a[1] == "Ok.0" and a.a[0].op == "call" and a.a[0].a[0] == "std::env::current_dir") or (a.op == "k" and a.a[1] == ".")
                r.ob("config-source", f"argument of {ev.path.split('::')[-1]} [{b.name}]", okk, show(a, 0, 4), ev.span)
        r.ob("config-source", f"loaded [{b.name}]", bool(b.loads), "no configuration is loaded")
        seen = set()
        for ld, msg, ev, o in b.formats:
            where = f"[{b.name}, {'configuration loaded' if ld in CFG else 'configuration not loaded'}]"
            r.ob("load-failure-reported", where, not (ld == "failed" and msg), "no message before formatting", ev.span)
            if (ld, o) in seen:
                continue
            seen.add((ld, o))
            for ov in expand(I, o):
                for i, n in enumerate(fs):
                    if n not in SPEC:
                        continue
                    sec, name = SPEC[n]
                    v = I.proj(ov, ("f", n, i))
                    if n == "code_formatters":
                        formatters(r, b, I, v, ld, where, ev)
                        continue
                    for x in expand(I, v):
                        if n == "line_width" and width:
                            u = unwrap_new(x)
                            bb, nn = path_of(u) if u is not None else (None, ())
                            r.ob("line-width-override", f"{n} {where}", u is not None and nn == ("line_width", "Some.0") and is_parse(bb),
                                 show(x, 0, 4), ev.span)
                            continue
                        bb, nn = path_of(x)
                        want = (sec, name) if sec else (name,)
                        r.ob("line-width-override" if n == "line_width" else "setting-to-option", f"{n} {where}",
                             nn == want and base_ok(I, bb, ld), f"{n} is {show(x, 0, 4)}, expected {'.'.join(want)}", ev.span)
        for k, sp in b.missed.items():
            r.ob("formatter-entries", f"loop over the formatters [{b.name}]", k not in b.inserted, "an iteration inserts nothing", sp)
    # the accessors of a configured formatter
    fc = P.adts["config::FormatterConfig"]
    for acc in ("command", "timeout"):
        body = P.at_path("config::FormatterConfig::" + acc, crate="lib")
        for vi, var in enumerate(fc["variants"]):
            vn, dv = var[0], var[1]
            S = sym("FORMATTER")
            I = Interp(P, assume=lambda I, st, v: kint(dv) if v.op == "discr" and v.a[0] is S else None)
            outs = I.run(body, [S])
            r.interp(I)
            names = [x[0] if isinstance(x, (list, tuple)) else x for x in var[2]]
            for val, s, _ in outs:
                v = I.deep(s, val)
                want = f"{vn}.{acc}" if acc in names else (f"{vn}.0" if acc == "command" else None)
                if want is None:
                    okk = v.op == "k"
                else:
                    okk = v.op == "f" and v.a[0] is S and v.a[1] == want
                r.ob("formatter-entries", f"FormatterConfig::{acc} of {vn}", okk, f"returns {show(v)}", body.span)
    import checks.settings as settings
    settings.file_rules(r)
    return "other", ("Abstract interpretation of main with a symbolic configuration, once per (--config given or not, --line-width given or not): "
                     "the provenance of every field of the options value at every call of the formatter is compared with the setting it must come from. ")


def formatters(r, b, I, v, ld, where, ev):
    out = []
    entries(I, v, out, set())
    if not out:
        r.ob("formatter-entries", f"code_formatters {where}", False, "no configured formatter is passed on", ev.span)
    for kind, t, info in out:
        okk, why = False, show(t, 0, 4)
        if t.op == "agg" and t.a[0] == "tuple" and len(t.a[3]) == 2:
            k, c = t.a[3]
            el = [x for x in walk(k) if x.op == "elem"]
            root = None
            if k.op == "f" and k.a[1] == "0" and k.a[0].op in ("elem", "prev"):
                root = e = k.a[0]
                while e.op == "prev":
                    e = e.a[0]
                if e.op != "elem":
                    root = None
            if root is not None:
                src = e.a[0]
                while src.op == "call" and src.a[0].split("::")[-1] in ("iter", "into_iter", "clone"):
                    src = src.a[1]
                bb, nn = path_of(src)
                okk = nn == ("code_block", "formatters") and base_ok(I, bb, ld)
                val = mk("f", root, "1", 1)
                cmd, tmo = I.proj(c, ("f", "command", 0)), I.proj(c, ("f", "timeout_secs", 1))
                if not (cmd.op == "call" and cmd.a[0] == "local:config::FormatterConfig::command" and cmd.a[1] is val):
                    okk, why = False, f"command is {show(cmd, 0, 4)}"
                if not (tmo.op == "call" and tmo.a[0] == "local:config::FormatterConfig::timeout" and tmo.a[1] is val):
                    okk, why = False, f"timeout is {show(tmo, 0, 4)}"
        if info is not None and any(s not in ("map", "inspect", "enumerate", "rev") for s in info[1]):
            okk, why = False, f"entries are selected by {info[1]}"
        r.ob("formatter-entries", f"code_formatters {where}", okk, why, ev.span)
