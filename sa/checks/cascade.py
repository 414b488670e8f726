"""Configuration layering (C12) and discovery (C14)."""
import models
from engine import Interp, State
from values import *
from ghost import gget, gset, init, track, record
from checks import cli
from checks.cli import prog, is_parse
from checks.options import expand, path_of, SECTIONS, fields

KINDS = ("system", "legacy", "xdg", "project")
LAYER = {k: sym("LAYER_" + k) for k in KINDS}
START, ABOVE = sym("START_DIR"), sym("ANCESTOR_DIR")
WHERE = {"system": "/etc/hongdown/config.toml", "legacy": "<home>/.hongdown.toml", "xdg": "<config>/hongdown/config.toml",
         "project": ".hongdown.toml in the starting directory or an ancestor"}


def path_text(I, v, d=0):
    """a path expression as text, with <home>, <config>, <start>, <above> for its symbolic roots"""
    if d > 8:
        return None
    if v.op == "k" and v.a[0] == "str":
        return v.a[1]
    if v is START:
        return "<start>"
    if v is ABOVE:
        return "<above>"
    if v.op == "elem" and any(x.op == "call" and x.a[0] == "std::path::Path::ancestors" for x in walk(v)):
        return "<above>"
    if v.op == "f" and v.a[1] == "Some.0" and v.a[0].op == "call":
        n = v.a[0].a[0]
        if n in ("dirs::home_dir", "std::env::home_dir"):
            return "<home>"
        if n == "dirs::config_dir":
            return "<config>"
    if v.op == "call" and v.a[0].split("::")[-1] == "join" and len(v.a) == 3:
        a, b = path_text(I, v.a[1], d + 1), path_text(I, v.a[2], d + 1)
        return None if a is None or b is None else b if b.startswith("/") else a + "/" + b
    if v.op == "call" and len(v.a) == 2 and v.a[0].split("::")[-1] in ("new", "from", "as_path", "to_path_buf", "to_owned", "as_ref"):
        return path_text(I, v.a[1], d + 1)
    if v.op == "mut" and v.a[0].split("::")[-1] == "push":
        a, b = path_text(I, v.a[1], d + 1), path_text(I, v.a[3][0] if v.a[3] else v, d + 1)
        return None if a is None or b is None else a + "/" + b
    return None


def classify(I, v):
    t = path_text(I, v)
    if t == "/etc/hongdown/config.toml":
        return "system"
    if t == "<home>/.hongdown.toml":
        return "legacy"
    if t == "<config>/hongdown/config.toml":
        return "xdg"
    if t in ("<start>/.hongdown.toml", "<above>/.hongdown.toml"):
        return "project"
    return None


def concrete(I, v, d=0):
    """the elements of a list expression of known shape, or None"""
    if d > 12:
        return None
    if v.op in ("phi", "alt"):
        al = I.alts(v)
        if len(al) != 1:
            return None
        v = al[0]
    if v.op == "empty":
        return []
    if v.op == "item":
        return [v.a[0]]
    if v.op == "items":
        return concrete(I, v.a[0], d + 1)
    if v.op == "cat":
        a, b = concrete(I, v.a[0], d + 1), concrete(I, v.a[1], d + 1)
        return None if a is None or b is None else a + b
    if v.op == "agg" and v.a[0] == "array":
        return list(v.a[3])
    if v.op == "agg" and v.a[1] == OPTION:
        return list(v.a[3])
    if v.op == "call" and len(v.a) == 2 and v.a[0].split("::")[-1] in ("into_iter", "iter", "into_vec", "to_vec"):
        return concrete(I, v.a[1], d + 1)
    return None


class Cascade:
    """load_cascading (or another discovery function) with every file present, absent or unreadable."""
    GH = ["px_system", "px_legacy", "px_xdg", "px_project", "ld_system", "ld_legacy", "ld_xdg", "ld_project",
          "er", "lv", "ex", "cl"]

    def __init__(self, fn, loader):
        self.P = prog()
        self.bad, self.results, self.paths, self.levels = {}, [], {}, 0
        self.fn, self.loader = fn, loader
        body = self.P.at_path(fn, crate="lib")
        LD = self.loader

        def h_load(I, c, st, fv, args, front):
            ev = record(I, c, st, fv, args)
            p = ev.args[0]
            res = []
            for x in expand(I, p):
                k = classify(I, x)
                if I.recording:
                    self.paths[x] = (k, c.span)
                if k is None:
                    self.mark("file-locations", f"loads {path_text(I, x) or show(x, 0, 4)}", c.span)
                    continue
                s, s2 = st.copy(), st.copy()
                if gget(s, "px_" + k) == "no":
                    self.mark("absent-ignored", f"{k}: a file known to be absent is read", c.span)
                if k == "project" and gget(s, "lv") not in ("found",):
                    # reading without having looked is fine only if failure to find is handled; treated as found
                    pass
                gset(s, "ld_" + k, "ok")
                gset(s2, "ld_" + k, "err")
                gset(s2, "er", k)
                if LD.endswith("ConfigLayer::from_file"):
                    res.append((ok(LAYER[k]), s, front))
                else:
                    res.append((ok(LAYER[k]), s, front))
                res.append((err(sym("LOAD_ERROR_" + k)), s2, front))
            return res

        def h_exists(I, c, st, fv, args, front):
            ev = record(I, c, st, fv, args)
            res = []
            tr = fv.a[1].endswith("try_exists")
            for x in expand(I, ev.args[0]):
                k = classify(I, x)
                if k is None:
                    self.mark("file-locations", f"looks for {path_text(I, x) or show(x, 0, 4)}", c.span)
                    continue
                if I.recording:
                    self.levels += k == "project"
                known = gget(st, "px_" + k)
                for val, lab in ((TRUE, "yes"), (FALSE, "no")):
                    if known in ("yes", "no") and known != lab and k != "project":
                        continue
                    s = st.copy()
                    gset(s, "px_" + k, lab)
                    if k == "project":
                        gset(s, "lv", "found" if lab == "yes" else "checked")
                    res.append((ok(val) if tr else val, s, front))
            return res

        def step(I, c, st, what):
            lv = gget(st, "lv")
            if lv == "todo":
                self.mark("nearest-first", "a directory is left without looking for its configuration file", c.span)
            if lv == "found":
                self.mark("nearest-first", "the search goes on above a directory that has a configuration file", c.span)

        def h_pop(I, c, st, fv, args, front):
            v = I.val(st, args[0])
            if not self.dirs(I, v):
                return None
            record(I, c, st, fv, args)
            step(I, c, st, "pop")
            s2 = st.copy()
            I.store_places(st, I.deref_targets(st, args[0]), ABOVE)
            gset(st, "lv", "todo")
            gset(s2, "ex", "yes")
            return [(TRUE, st, front), (FALSE, s2, front)]

        def h_parent(I, c, st, fv, args, front):
            v = I.val(st, args[0])
            if not self.dirs(I, v):
                return None
            record(I, c, st, fv, args)
            step(I, c, st, "parent")
            s2 = st.copy()
            gset(st, "lv", "todo")
            gset(s2, "ex", "yes")
            return [(some(ABOVE), st, front), (NONE, s2, front)]

        def h_merge(I, c, st, fv, args, front):
            record(I, c, st, fv, args)
            return [(mk("call", "MERGE", I.deep(st, args[0]), I.deep(st, args[1])), st, front)]

        hooks = {self.loader: h_load, "config::ConfigLayer::merge_over": h_merge,
                 "std::path::PathBuf::pop": h_pop, "std::path::Path::parent": h_parent}
        for n in ("exists", "is_file", "try_exists"):
            hooks["std::path::Path::" + n] = h_exists
        self.getters = [("ni_" + k, (lambda k: lambda I, st: st.facts.get(mk("f", LAYER[k], "no_inherit", self.nidx)))(k)) for k in KINDS]
        lf = fields(self.P, "config::ConfigLayer")
        self.nidx = lf.index("no_inherit") if "no_inherit" in lf else 0
        self.I = I = Interp(self.P, opaque=lambda b: b.path != fn and (b.name == "default" or b.path.startswith("<config::Config as")),
                            hooks=hooks, track=track(self.GH) + self.getters)
        I.MAXPART = 4000
        I.on_elem = self.on_elem
        st = init(State(), **{g: "?" for g in self.GH})
        gset(st, "er", "no")
        gset(st, "lv", "todo")
        gset(st, "ex", "no")
        gset(st, "cl", "0")
        for r, s, fr in I.run(body, [START] if body.nargs else [], st):
            ni = {k: g(I, s) for k, g in zip(KINDS, [g for _, g in self.getters])}
            self.results.append((I.deep(s, r), {g: gget(s, g) for g in self.GH}, ni))

    def mark(self, rule, key, site):
        if self.I.recording:
            self.bad.setdefault((rule, key), site)

    def dirs(self, I, v):
        return all(x in (START, ABOVE) for x in expand(I, v))

    def on_elem(self, I, c, root, outs):
        if any(x.op == "call" and x.a[0] == "std::path::Path::ancestors" for x in walk(root)):
            res = []
            for v, s, f_ in outs:
                lv = gget(s, "lv")
                first = gget(s, "cl") != "in"
                if not first:
                    if lv == "todo":
                        self.mark("nearest-first", "a directory is left without looking for its configuration file", c.span)
                    if lv == "found":
                        self.mark("nearest-first", "the search goes on above a directory that has a configuration file", c.span)
                if v is None:
                    if first:
                        continue          # ancestors() yields at least the directory itself
                    gset(s, "ex", "yes")
                    gset(s, "cl", "0")
                else:
                    gset(s, "cl", "in")
                    gset(s, "lv", "todo")
                res.append((v, s, f_))
            return res
        st = outs[0][1]
        el = concrete(I, root)
        if el is None:
            return outs
        i = gget(st, "cl")
        i = int(i) if i and i.isdigit() else 0
        v, s, f_ = outs[0]
        if i < len(el):
            gset(s, "cl", str(i + 1))
            return [(el[i], s, f_)]
        gset(s, "cl", "0")
        return [(None, s, f_)]


def fields_idx(P, adt):
    return {n: i for i, n in enumerate(fields(P, adt))}


def merge_rules(r, P):
    """merge_over: a setting the layer mentions wins, one it does not mention keeps the earlier value"""
    body = P.at_path("config::ConfigLayer::merge_over", crate="lib")
    L, B = sym("LAYER"), sym("BASE")
    lay, cfg = P.adts["config::ConfigLayer"], fields_idx(P, "config::Config")
    n = 0
    for i, fld in enumerate(lay["variants"][0][2]):
        name = fld[0] if isinstance(fld, (list, tuple)) else fld
        if name == "no_inherit":
            continue
        if name not in cfg:
            r.ob("layer-wins", f"setting {name}", False, "a setting of a layer that the configuration does not have", body.span)
            continue
        lv = mk("f", L, name, i)
        for present in (True, False):
            def assume(I, st, v):
                if v.op == "discr" and v.a[0].op == "f" and v.a[0].a[0] is L and v.a[0].a[1] == name:
                    return kint(1 if present else 0)
                return None
            I = Interp(P, assume=assume, opaque=lambda b: b.path.startswith("serializer::"))
            I.MAXPART = 64
            outs = I.run(body, [L, B])
            r.interp(I)
            rule = "layer-wins" if present else "unset-keeps"
            want = (name, "Some.0") if present else (name,)
            wb = L if present else B
            r.ob(rule, f"{name}: merge returns", bool(outs), "merge_over does not return", body.span)
            for v, s, _ in outs:
                v = I.deep(s, v)
                for a in expand(I, v):
                    x = I.proj(a, ("f", name, cfg[name]))
                    for y in expand(I, x):
                        bb, nn = path_of(y)
                        r.ob(rule, name, bb is wb and nn == want, f"becomes {show(y, 0, 4)}", body.span)
                        n += 1
    # settings inside a section
    for sec in SECTIONS:
        i = [j for j, x in enumerate(lay["variants"][0][2]) if (x[0] if isinstance(x, (list, tuple)) else x) == sec]
        if not i:
            r.ob("unset-keeps", f"section {sec}", False, "the layer has no such section")
            continue
        fld = lay["variants"][0][2][i[0]]
        ty = fld[1] if isinstance(fld, (list, tuple)) and len(fld) > 1 else ""
        inner = ty[ty.index("<") + 1:-1] if ty.startswith("std::option::Option<") else ty
        a = P.adts.get(inner)
        optional = a is not None and all("std::option::Option<" in (x[1] if isinstance(x, (list, tuple)) else "") for x in a["variants"][0][2])
        r.ob("unset-keeps", f"settings of section {sec}", optional,
             f"a layer's section is a complete {inner.split('::')[-1]}, so settings it does not mention are reset to the defaults", body.span)
    return n


def C12(r):
    P = prog()
    r.rule("layer-order", "the configuration is the defaults overlaid by the loaded layers in the order system, legacy user, XDG user, project; "
           "a project layer with no_inherit drops the earlier ones")
    r.rule("file-locations", "only the documented files are consulted, each as its own layer")
    r.rule("load-errors", "a file that exists and cannot be read or parsed makes loading fail; nothing else does")
    r.rule("absent-ignored", "a file that does not exist contributes nothing and is no error")
    r.rule("layer-wins", "a setting present in the layer replaces the earlier value")
    r.rule("unset-keeps", "a setting absent from the layer keeps the earlier value")
    r.rule("read-or-error", "reading a configuration file fails if the file cannot be read or parsed, and otherwise returns what was parsed")
    c = Cascade("config::Config::load_cascading", "config::ConfigLayer::from_file")
    I = c.I
    r.interp(I)
    for (rule, key), site in c.bad.items():
        if rule in r.rules:
            r.ob(rule, key, False, key, site)
    seen = {k for k, _ in c.paths.values()}
    for k in KINDS:
        r.ob("file-locations", k, k in seen, f"{WHERE[k]} is never loaded")
    body = P.at_path("config::Config::load_cascading", crate="lib")
    n = 0
    for v, g, ni in c.results:
        for x in expand(I, v):
            n += 1
            st = ", ".join(f"{k} {'unreadable' if g['ld_' + k] == 'err' else 'present' if g['ld_' + k] == 'ok' else 'absent'}" for k in KINDS)
            if x.op != "agg" or x.a[1] != RESULT:
                r.ob("load-errors", st, False, f"returns {show(x, 0, 4)}", body.span)
                continue
            isok = x.a[2] == 0
            r.ob("load-errors", st, isok == (g["er"] == "no"),
                 "an unreadable file is not reported as an error" if isok else "fails although every file that exists was loaded", body.span)
            if not isok or g["er"] != "no":
                continue
            conf = I.proj(x.a[3][0], ("f", "0", 0))
            for k in KINDS:
                r.ob("absent-ignored", f"{k} ({st})", not (g["px_" + k] == "yes" and g["ld_" + k] != "ok"), "a file that exists is not loaded", body.span)
            present = [k for k in KINDS if g["ld_" + k] == "ok"]
            wants = []
            nip = ni["project"]
            if "project" in present:
                if nip is None or nip is FALSE:
                    wants.append(present)
                if nip is None or nip is TRUE:
                    wants.append(["project"])
            else:
                wants.append(present)
            for y in expand(I, conf):
                chain, z = [], y
                while z.op == "call" and z.a[0] == "MERGE":
                    chain.append(next((k for k in KINDS if LAYER[k] is z.a[1]), show(z.a[1], 0, 3)))
                    z = z.a[2]
                chain.reverse()
                base = z.op == "call" and z.a[0].endswith("::default") and len(z.a) == 1
                for w in wants:
                    r.ob("layer-order", f"{st}{'' if nip is None else ', no_inherit' if nip is TRUE else ''}", base and chain == w,
                         f"merges {chain}{'' if base else ' over ' + show(z, 0, 3)}, expected {w} over the defaults", body.span)
    r.ob("layer-order", "load_cascading", n >= 16, f"{n} outcomes examined")
    r.count("outcomes", n)
    r.count("merge_fields", merge_rules(r, P))
    for fn in ("config::ConfigLayer::from_file", "config::Config::from_file"):
        readfile(r, P, fn)
    return "other", ("Abstract interpretation of load_cascading with each of the four files present, absent or unreadable and no_inherit set or not "
                     "(all combinations, kept apart as monitor states), the resulting configuration read off as a chain of merges; and of merge_over per setting. ")


def readfile(r, P, fn):
    """from_file: Ok(parse(content of that path)) exactly when reading and parsing succeed"""
    body = P.at_path(fn, crate="lib")
    PATH = sym("PATH")

    def h_read(I, c, st, fv, args, front):
        ev = record(I, c, st, fv, args)
        s2 = st.copy()
        r.ob("read-or-error", f"{fn}: path", ev.args[0] is PATH, f"reads {show(ev.args[0])}", c.span)
        gset(s2, "er", "yes")
        return [(ok(sym("CONTENT")), st, front), (err(sym("IO_ERROR")), s2, front)]

    def h_toml(I, c, st, fv, args, front):
        ev = record(I, c, st, fv, args)
        r.ob("read-or-error", f"{fn}: text", ev.args[0] is sym("CONTENT"), f"parses {show(ev.args[0])}", c.span)
        s2 = st.copy()
        gset(s2, "er", "yes")
        gset(st, "er", "no")
        return [(ok(sym("PARSED")), st, front), (err(sym("PARSE_ERROR")), s2, front)]
    I = Interp(P, hooks={"std::fs::read_to_string": h_read, "toml::from_str": h_toml, "toml::de::from_str": h_toml}, track=track(["er"]))
    st = init(State(), er="?")
    outs = I.run(body, [PATH], st)
    r.interp(I)
    oks = 0
    for v, s, _ in outs:
        for x in expand(I, I.deep(s, v)):
            isok = x.op == "agg" and x.a[1] == RESULT and x.a[2] == 0
            oks += isok
            r.ob("read-or-error", f"{fn}: {'Ok' if isok else 'Err'}", x.op == "agg" and x.a[1] == RESULT and
                 (gget(s, "er") == "no" and x.a[3][0] is sym("PARSED") if isok else gget(s, "er") == "yes"),
                 f"returns {show(x, 0, 4)} (failed: {gget(s, 'er')})", body.span)
    r.ob("read-or-error", f"{fn}: success", oks > 0, "never succeeds")


def C14(r):
    P = prog()
    r.rule("nearest-first", "every directory from the starting one upwards is looked at, in order, and the search stops at the first that has the file")
    r.rule("found-loaded", "the file found is the one loaded and returned; failing to load it is an error; nothing is returned only if no directory has one")
    r.rule("file-locations", "the project configuration is .hongdown.toml of the directory looked at")
    r.rule("pattern-base", "include patterns are relative to the directory of the configuration file they come from (the current directory if there is none)")
    for fn, loader in (("config::Config::load_cascading", "config::ConfigLayer::from_file"),
                       ("config::Config::discover", "config::Config::from_file")):
        if fn not in P.by_path:
            continue
        c = Cascade(fn, loader)
        I = c.I
        r.interp(I)
        body = P.at_path(fn, crate="lib")
        short_ = fn.split("::")[-1]
        for (rule, key), site in c.bad.items():
            if rule in r.rules:
                r.ob(rule, f"{short_}: {key}", False, key, site)
        r.ob("nearest-first", f"{short_}: directories are looked at", c.levels > 0, "no directory is looked at")
        r.ob("nearest-first", f"{short_}: starts at the starting directory", any(path_text(I, x) and path_text(I, x).startswith(("<start>", "<above>"))
             for x, (k, _) in c.paths.items() if k == "project"), "the starting directory is not looked at")
        n = 0
        for v, g, ni in c.results:
            for x in expand(I, v):
                if x.op != "agg" or x.a[1] != RESULT:
                    r.ob("found-loaded", f"{short_}: result", False, f"returns {show(x, 0, 4)}", body.span)
                    continue
                n += 1
                found = g["px_project"] == "yes"
                if x.a[2] == 1:
                    r.ob("found-loaded", f"{short_}: Err", g["er"] != "no", "fails without a load failure", body.span)
                    continue
                if g["er"] != "no":
                    r.ob("found-loaded", f"{short_}: load failure", g["er"] != "project", "a project file that cannot be loaded is not an error", body.span)
                    continue
                p = x.a[3][0]
                if p.op == "agg" and p.a[1] == OPTION:
                    path = some(I.proj(p.a[3][0], ("f", "0", 0))) if p.a[2] == 1 else p
                    lay = I.proj(p.a[3][0], ("f", "1", 1)) if p.a[2] == 1 else None
                    if lay is not None:
                        r.ob("found-loaded", f"{short_}: configuration", lay is LAYER["project"], f"returns {show(lay, 0, 3)}", body.span)
                else:
                    path = I.proj(p, ("f", "1", 1))
                for q in expand(I, path):
                    if found:
                        okk = q.op == "agg" and q.a[1] == OPTION and q.a[2] == 1 and all(classify(I, z) == "project" for z in expand(I, q.a[3][0]))
                        r.ob("found-loaded", f"{short_}: found", okk and g["ld_project"] == "ok", f"returns {show(q, 0, 4)} (loaded: {g['ld_project']})", body.span)
                    else:
                        r.ob("found-loaded", f"{short_}: not found", q is NONE and g["ex"] == "yes" and g["lv"] == "checked",
                             f"returns {show(q, 0, 4)} before every directory was looked at" if q is NONE else f"returns {show(q, 0, 4)}", body.span)
        r.ob("found-loaded", f"{short_}: outcomes", n > 1, f"{n} outcomes")
    base_dir(r, P)
    return "other", ("Abstract interpretation of the upward search with the directory looked at, and whether it has the file, as monitor states; all depths. ")


def base_dir(r, P):
    for conf in (True, False):
        name = "--config" if conf else "cascade"
        seen = []

        def assume(I, st, v):
            if v.op == "discr" and v.a[0].op == "f" and is_parse(v.a[0].a[0]) and v.a[0].a[1] == "config":
                return kint(1 if conf else 0)
            return None

        def h_load(which):
            def h(I, c, st, fv, args, front):
                record(I, c, st, fv, args)
                s2 = st.copy()
                gset(st, "ld", which)
                gset(s2, "ld", "failed")
                if which == "file":
                    return [(ok(sym("CONFIG")), st, front), (err(sym("LOAD_ERROR")), s2, front)]
                s1 = st.copy()
                gset(s1, "pp", "none")
                gset(st, "pp", "some")
                t = lambda o: ok(agg("tuple", "", 0, (sym("CONFIG"), o)))
                return [(t(some(sym("PROJECT_PATH"))), st, front), (t(NONE), s1, front), (err(sym("LOAD_ERROR")), s2, front)]
            return h

        def h_parent(I, c, st, fv, args, front):
            v = I.deep(st, args[0])
            if not (v is sym("PROJECT_PATH") or (path_of(v)[1] == ("config", "Some.0") and is_parse(path_of(v)[0]))):
                return None
            record(I, c, st, fv, args)
            return [(some(mk("call", "PARENT", v)), st, front)]

        def h_empty(I, c, st, fv, args, front):
            v = I.deep(st, args[0])
            while v.op == "call" and v.a[0] != "PARENT" and len(v.a) == 2:
                v = v.a[1]
            if v.op == "call" and v.a[0] == "PARENT":
                known = gget(st, "emp")
                s2 = st.copy()
                gset(st, "emp", "yes")
                gset(s2, "emp", "no")
                return [(TRUE, st, front)] * (known != "no") + [(FALSE, s2, front)] * (known != "yes")
            return None

        def h_eq(I, c, st, fv, args, front):
            a, b = I.deep(st, args[0]), I.deep(st, args[1])
            for x, y in ((a, b), (b, a)):
                while y.op == "call" and len(y.a) == 2 and y.a[0] != "PARENT":
                    y = y.a[1]
                if y is kstr("") and any(z.op == "call" and z.a[0] == "PARENT" for z in walk(x)):
                    s2 = st.copy()
                    gset(st, "emp", "yes")
                    gset(s2, "emp", "no")
                    yes = not fv.a[1].endswith("ne")
                    return [(kbool(yes), st, front), (kbool(not yes), s2, front)]
            return None

        def h_collect(I, c, st, fv, args, front):
            ev = record(I, c, st, fv, args)
            if I.recording:
                for x in expand(I, ev.args[1]):
                    seen.append((gget(st, "ld"), gget(st, "pp"), gget(st, "emp"), x, c.span))
            return [(ok(sym("FILES")), st, front), (err(sym("COLLECT_ERROR")), st.copy(), front)]
        hooks = {"config::Config::from_file": h_load("file"), "config::Config::load_cascading": h_load("casc"),
                 "std::path::Path::parent": h_parent, "config::Config::collect_files": h_collect,
                 "std::ffi::OsStr::is_empty": h_empty, "std::path::Path::is_empty": h_empty,
                 "std::ffi::OsStr::len": lambda I, c, st, fv, args, front: None,
                 "std::cmp::PartialEq::eq": h_eq, "std::cmp::PartialEq::ne": h_eq}
        I = Interp(P, opaque=lambda b: b.crate != "bin", assume=assume, hooks=hooks, track=track(["ld", "pp", "emp"]))
        I.MAXPART = 200
        I.run(P.one("main", crate="bin"), [], init(State(), ld="none", pp="?", emp="?"))
        r.interp(I)
        r.ob("pattern-base", f"{name}: patterns are used", bool(seen), "files are never collected from patterns")
        for ld, pp, emp, x, span in seen:
            while x.op == "call" and len(x.a) == 2 and x.a[0].split("::")[-1] in ("to_path_buf", "into", "to_owned", "from", "clone"):
                x = x.a[1]
            cwd = (x.op == "f" and x.a[1] == "Ok.0" and x.a[0].op == "call" and x.a[0].a[0] == "std::env::current_dir") or \
                (x.op == "k" and x.a[1] == ".")
            if ld == "failed" or (ld == "casc" and pp == "none"):
                okk, why = cwd, "expected the current directory"
            elif ld == "file" and emp == "yes":
                okk, why = cwd or (x.op == "k" and x.a[1] in (".", "./")), "the parent of a bare file name is empty: expected the current directory"
            else:
                okk, why = x.op == "call" and x.a[0] == "PARENT", "expected the directory of the configuration file"
                if okk and ld == "file" and emp != "no":
                    okk, why = False, "the parent of a bare file name is the empty path, which is no directory"
            r.ob("pattern-base", f"{name} ({'not loaded' if ld == 'failed' else 'loaded'}{', no project file' if pp == 'none' else ''})", okk, f"{why}, got {show(x, 0, 4)}", span)
