"""C06: which files are processed.  A *witness* (one arbitrary selected file) is
followed through the lists of the program: a loop over a list that must contain
the witness yields it; at the end of the program it must have been read once."""
import models
from engine import Interp, State
from values import *
from ghost import gget, gset, init, track, record
from checks import cli
from checks.cli import prog, is_parse

WS = [sym(f"WITNESS#{i}") for i in range(6)]
GH = ["p", "curD", "curE", "curL", "rd", "er", "we", "hand"]
WENT, WDIR = sym("WITNESS_ENTRY"), sym("WITNESS_DIR")
ORDER_ONLY = ("sort", "reverse", "reserve", "shrink", "dedup", "iter_mut", "into_iter", "iter", "par_iter", "as_slice", "deref")


def mentions(I, v, what, seen=None):
    """does v (through its alternatives) contain a value satisfying `what`?"""
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if what(x):
            return x
        if x.op in ("phi", "alt") or (x.op == "f" and I.has_phi_base(x)):
            st.extend(I.alts(x))
        else:
            st.extend(children(x))
    return None


def windex(I, v):
    best = -1
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in WS:
            best = max(best, WS.index(x))
        if x.op in ("phi", "alt") or (x.op == "f" and I.has_phi_base(x)):
            st.extend(I.alts(x))
        elif x.op in ("cat", "item", "items", "coll", "mut", "iter", "concat", "upd") or (x.op == "agg" and x.a[0] == "array"):
            st.extend(children(x))
    return best


class Sel:
    """scenario: 'file' (an argument that is not a directory), 'dir' (a file with
    extension `ext` below a directory argument)"""

    def __init__(self, kind, ext="md", mode="stdout", stdin=False, regular=True):
        self.kind, self.ext, self.mode, self.stdin, self.regular = kind, ext, mode, stdin, regular
        self.name = f"{kind} .{ext} {mode}{' stdin' if stdin else ''}{'' if regular else ' not a regular file'}"
        self.bad = {}
        self.reads = 0
        self.yields = 0
        self.ends = set()
        self.walk_codes = set()
        self.run()

    def mark(self, rule, detail, site):
        if self.I.recording:
            self.bad.setdefault((rule, f"{detail}"), site)

    def assume(self, I, st, v):
        if v.op == "f" and is_parse(v.a[0]):
            n = v.a[1]
            if n in ("write", "check", "diff"):
                return kbool(self.mode == n)
            if n == "stdin":
                return kbool(self.stdin)
        if v.op == "call" and v.a[0] == "is_empty" and v.a[1].op == "f" and v.a[1].a[1] == "files" and is_parse(v.a[1].a[0]):
            return kbool(self.kind == "include")
        if v.op == "call" and v.a[0] == "is_empty" and v.a[1].op == "f" and v.a[1].a[1] == "include":
            return FALSE
        if v.op == "call" and v.a[0] == "any" and any(x.op == "f" and x.a[1] == "files" and is_parse(x.a[0]) for x in walk(v)) \
                and any(x.op == "k" and x.a[1] == "-" for x in walk(v)):
            return kbool(self.stdin)
        if v.op in ("phi", "alt"):
            ks = set()
            for x in I.alts(v)[:6]:
                k = x if x.op == "k" else (self.assume(I, st, x) if x.op == "call" else None)
                if k is None:
                    return None
                ks.add(k)
            if len(ks) == 1:
                return ks.pop()
        return None

    # -- what is known of the witness
    def pathfn(self, I, c, st, fv, args, front):
        v = I.deep(st, args[0]) if args else None
        n = fv.a[1].split("::")[-1]
        if v in WS:
            name = "w." + self.ext if self.ext else "w"
            r = {"is_dir": FALSE, "is_file": kbool(self.regular), "exists": TRUE, "is_symlink": FALSE,
                 "to_str": some(kstr("d/" + name)), "to_string_lossy": kstr("d/" + name),
                 "extension": some(kstr(self.ext)) if self.ext else NONE, "file_name": some(kstr(name)),
                 "file_stem": some(kstr("w")), "as_os_str": kstr("d/" + name), "into_os_string": kstr("d/" + name),
                 "display": v, "metadata": None}.get(n)
            return [(r, st, front)] if r is not None else None
        if v is WDIR:
            r = {"is_dir": TRUE, "is_file": FALSE, "exists": TRUE, "to_str": some(kstr("d"))}.get(n)
            return [(r, st, front)] if r is not None else None
        return None

    def entryfn(self, I, c, st, fv, args, front):
        v = I.deep(st, args[0])
        n = fv.a[1].split("::")[-1]
        if v is WENT:
            if n in ("path", "into_path"):
                return [(WS[1], st, front)]
            if n == "file_type":
                return [(sym("WITNESS_FT"), st, front)]
            if n == "file_name":
                return [(kstr("w." + self.ext if self.ext else "w"), st, front)]
            if n == "depth":
                return None
            if n == "path_is_symlink":
                return [(FALSE, st, front)]
        if v.op == "sym" and v.a[0] == "WITNESS_FT":
            return [(kbool(self.regular and n == "is_file"), st, front)]
        return None

    # -- lists
    def stage(self, I, st, root):
        """(witness to yield, must it be there) for a loop over `root`"""
        if root.op == "f" and root.a[1] == "files" and is_parse(root.a[0]):
            if self.kind == "include":
                return None, False
            return (WS[1] if self.kind == "file" else WDIR), True
        if self.kind == "dir":
            r, opts = root, []
            while r.op in ("call", "mut") and r.a[0].startswith("walkdir::WalkDir") and not r.a[0].endswith("::new"):
                opts.append(r)
                r = r.a[1]
            if r.op == "call" and r.a[0] == "walkdir::WalkDir::new":
                for o in opts:
                    n = o.a[0].split("::")[-1]
                    if n in ("max_depth", "min_depth", "filter_entry", "same_file_system"):
                        self.mark("walk-complete", f"the directory walk is restricted by {n}", "")
                    if n == "follow_links" and o.a[2] is not TRUE:
                        self.mark("walk-complete", "the directory walk does not follow links", "")
                if r.a[1] is WDIR:
                    return ok(WENT), True
                return None, False
        k = windex(I, root)
        if k >= 0:
            m = mentions(I, root, lambda x: x.op == "mut" and not any(s in x.a[0].split("::")[-1] for s in ORDER_ONLY)
                         and not x.a[0].startswith("std::iter") and not x.a[0].startswith("rayon") and windex(I, x) >= 0)
            if m is not None:
                self.mark("selected-kept", f"files are dropped from the list by {m.a[0]}", "")
            p = gget(st, "p")
            if root.op == "agg":
                return WS[k], len(root.a[3]) == 1      # a literal list of it
            return WS[min(k + 1, len(WS) - 1)], int(p[0]) >= k
        return None, False

    def root(self, I, st, E):
        E = I.val(st, E)
        shape = []
        while True:
            E = models.iter_root(E)
            if E.op == "iter":
                shape.append(E.a[0])
                E = I.val(st, E.a[1])
            elif E.op in ("phi", "alt"):
                al = I.alts(E)
                roots = {models.iter_root(x) for x in al}
                if len(roots) == 1:
                    E = roots.pop()
                    if E.op == "phi":
                        return E, shape
                else:
                    return I.deep(st, E), shape
            else:
                return I.deep(st, E), shape

    def cur(self, w, root):
        """the ghost 'this loop has had the witness'"""
        if root.op == "agg":
            return "curE"
        return "curD" if w is WDIR or (self.kind == "file" and w is WS[1]) else "curE" if w is not None and w not in WS else "curL"

    def on_elem(self, I, c, root, outs):
        """one next() on `root`: the witness is split off from the other elements"""
        st = outs[0][1]
        w, must = self.stage(I, st, root)
        if w is None:
            return outs
        cur = self.cur(w, root)
        self.yields += 1 if I.recording else 0
        res = []
        for v, s, f_ in outs:
            if gget(s, cur) == "yes":
                if v is None:
                    gset(s, cur, "no")
                elif w.op == "agg" and self.kind == "dir":
                    v = ok(mk("f", v, "Ok.0", 0))
                elif root.op == "agg":
                    continue
                res.append((v, s, f_))
            elif v is None:
                if not must:
                    res.append((v, s, f_))
            elif w.op == "agg" and self.kind == "dir":
                # a directory entry: the witness, another one, or one that cannot be read
                s2, s3 = s.copy(), s.copy()
                gset(s2, cur, "yes")
                gset(s3, "we", "yes")
                res += [(ok(mk("f", v, "Ok.0", 0)), s, f_), (w, s2, f_), (err(mk("f", v, "Err.0", 0)), s3, f_)]
            else:
                s2 = s.copy()
                gset(s2, cur, "yes")
                if root.op != "agg":
                    res.append((v, s, f_))
                res.append((w, s2, f_))
        for v, s, f_ in res:
            # whose turn it is keeps the witness apart from the other elements
            gset(s, "hand", "yes" if v is w else "no")
        return res

    def on_flat(self, I, c, st0, st, r, outs):
        """a flattened iteration forgets which outer element it is at: keep the outer
        element the witness comes from until the witness itself has come"""
        root, shape = self.root(I, st, r)
        w, must = self.stage(I, st, root)
        if w is None:
            return outs
        cur = self.cur(w, root)
        res = []
        for v, s, f_ in outs:
            if v is not None and gget(s, cur) != "yes":
                for g in GH:
                    gset(s, g, gget(st0, g))
            elif v is not None:
                gset(s, cur, "no")
            res.append((v, s, f_))
        return res

    def cut(self, I, c, shape, w):
        cut = [x for x in shape if x in ("take", "skip", "step_by", "take_while", "skip_while", "map_while")]
        if cut and w is not None:
            self.mark("selected-kept", f"only part of a list of files is used ({', '.join(cut)})", c.span)

    def h_next(self, I, c, st, fv, args, front):
        root, shape = self.root(I, st, args[0])
        self.cut(I, c, shape, self.stage(I, st, root)[0])
        return None

    def h_collect(self, I, c, st, fv, args, front):
        root, shape = self.root(I, st, args[0])
        w, must = self.stage(I, st, root)
        if w is None:
            return None
        self.cut(I, c, shape, w)
        record(I, c, st, fv, args)

        def once(s, fr0):
            outs = []
            for v, s1, fr in models.elem_of(I, c, s, args[0], fr0):
                if v is not None:
                    self.put(I, s1, c, v)
                outs.append((s1, fr, v is None))
            # an element that a filter rejects leaves the iterator at its next one
            return outs
        res = []
        p0 = int(gget(st, "p")[0])
        I.on_elem, saved = None, I.on_elem
        r = models.m_collect(I, c, st.copy(), fv, args, front)
        I.on_elem = saved
        val0 = r if r.__class__ is V else r[0][0]
        for s, f_ in I.loop_states(c, st.copy(), front, "collect", once, (), True):
            k = int(gget(s, "p")[0])
            res.append((mk("cat", val0, mk("item", WS[k])) if k > p0 else val0, s, f_))
        return res

    def put(self, I, st, c, x):
        """x is put in a list"""
        k = windex(I, x) if x.op in ("phi", "alt") else (WS.index(x) if x in WS else -1)
        if k < 0:
            return
        p = gget(st, "p")
        if int(p[0]) == k:
            self.mark("selected-once", "a file is put twice in the list of files", c.span)
        elif int(p[0]) < k:
            gset(st, "p", str(k))

    def h_push(self, I, c, st, fv, args, front):
        x = I.deep(st, args[-1])
        if x in WS:
            record(I, c, st, fv, args)
            self.put(I, st, c, x)
            models.append(I, c, st, args[0], mk("item", x))
            return [(UNIT, st, front)]
        return None

    def h_extend(self, I, c, st, fv, args, front):
        x = I.val(st, args[1])
        root, shape = self.root(I, st, x)
        if x.op == "iter":
            return self.ext_iter(I, c, st, fv, args, front, root)
        k = windex(I, I.deep(st, x))
        if k < 0:
            return None
        record(I, c, st, fv, args)
        if int(gget(st, "p")[0]) >= k:
            gset(st, "p", str(k + 1))
            models.append(I, c, st, args[0], mk("items", I.deep(st, x)))
            models.append(I, c, st, args[0], mk("item", WS[k + 1]))
            return [(UNIT, st, front)]
        return None

    def ext_iter(self, I, c, st, fv, args, front, root):
        if self.stage(I, st, root)[0] is None:
            return None
        fv2 = mk("fn", "", "std::iter::Iterator::collect", "", "", 0, "", ("std::vec::Vec",))
        outs = []
        for v, s, f_ in self.h_collect(I, c, st, fv2, (args[1],), front):
            models.append(I, c, s, args[0], mk("items", I.deep(s, v)))
            outs.append((UNIT, s, f_))
        return outs

    # -- processing
    def h_read(self, I, c, st, fv, args, front):
        if c.body.crate != "bin":
            return None
        p = I.deep(st, args[0])
        ev = record(I, c, st, fv, args)
        if p in WS:
            self.reads += 1 if I.recording else 0
            if gget(st, "rd") != "no":
                self.mark("selected-once", "a file is read more than once", c.span)
            gset(st, "rd", "yes")
        s2 = st.copy()
        gset(s2, "er", "yes")
        val = mk("call", fv.a[1], p)
        return [(ok(mk("f", val, "Ok.0", 0)), st, front), (err(mk("f", val, "Err.0", 0)), s2, front)]

    def h_fall(self, I, c, st, fv, args, front):
        if c.body.crate != "bin":
            return None
        ev = record(I, c, st, fv, args)
        val = mk("call", "local:" + fv.a[1], *ev.args)
        s2 = st.copy()
        gset(s2, "er", "yes")
        return [(ok(mk("f", val, "Ok.0", 0)), st, front), (err(mk("f", val, "Err.0", 0)), s2, front)]

    def h_collect_files(self, I, c, st, fv, args, front):
        if c.body.crate != "bin" or self.kind != "include":
            return self.h_fall(I, c, st, fv, args, front)
        ev = record(I, c, st, fv, args)
        s2 = st.copy()
        gset(s2, "er", "yes")
        gset(st, "p", "1")
        val = mk("call", "local:" + fv.a[1], *ev.args)
        lst = mk("cat", mk("f", val, "Ok.0", 0), mk("item", WS[1]))
        return [(ok(lst), st, front), (err(mk("f", val, "Err.0", 0)), s2, front)]

    def h_exit(self, I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        code = I.val(st, args[0])
        self.end(st, code.a[1] if code.op == "k" else None)
        return []

    def end(self, st, code):
        self.ends.add((gget(st, "rd"), gget(st, "er")))
        if gget(st, "we") == "yes" and gget(st, "er") == "no":
            self.walk_codes.add(code)

    def run(self):
        P = prog()
        pf = ("is_dir", "is_file", "exists", "is_symlink", "to_str", "to_string_lossy", "extension", "file_name",
              "file_stem", "as_os_str", "into_os_string", "display", "metadata")
        hooks = {}
        for n in pf:
            hooks["std::path::Path::" + n] = self.pathfn
            hooks["std::path::PathBuf::" + n] = self.pathfn
        for n in ("path", "into_path", "file_type", "file_name", "depth", "path_is_symlink"):
            hooks["walkdir::DirEntry::" + n] = self.entryfn
        for n in ("is_file", "is_dir", "is_symlink"):
            hooks["std::fs::FileType::" + n] = self.entryfn
        for n in ("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back"):
            hooks[n] = self.h_next
        for n in ("std::iter::Iterator::for_each", "rayon::iter::ParallelIterator::for_each"):
            hooks[n] = self.h_next
        hooks["std::iter::Iterator::collect"] = self.h_collect
        for n in ("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::insert", "std::collections::HashSet::<T, S, A>::insert",
                  "std::collections::BTreeSet::<T, A>::insert"):
            hooks[n] = self.h_push
        for n in ("std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_from_slice", "std::vec::Vec::<T, A>::append"):
            hooks[n] = self.h_extend
        hooks["std::fs::read_to_string"] = self.h_read
        hooks["std::fs::read"] = self.h_read
        hooks["std::process::exit"] = self.h_exit
        hooks["std::io::Read::read_to_string"] = self.h_fall
        fmt = P.at_path("format_with_warnings", crate="lib").path
        for n in (fmt, "config::FormatterConfig::validate", "serializer::punctuation::validate_dash_settings",
                  "config::LineWidth::new", "std::fs::write"):
            hooks[n] = self.h_fall
        hooks["config::Config::collect_files"] = self.h_collect_files
        self.I = I = Interp(P, opaque=lambda b: b.crate != "bin", assume=self.assume, hooks=hooks,
                            track=track(GH))
        I.MAXPART = 400
        I.on_elem = self.on_elem
        I.on_flat = self.on_flat
        st = init(State(), p="0", curD="no", curE="no", curL="no", rd="no", er="no", we="no", hand="no")
        for r, s, fr in I.run(P.one("main", crate="bin"), [], st):
            self.end(s, cli.exit_code(I, s, r))


class Walk(Sel):
    """Config::collect_files: the files the include and exclude patterns select."""

    GH = GH + ["inc", "exc"]

    def __init__(self, regular=True):
        self.kind, self.ext, self.mode, self.stdin, self.regular = "walk", "md", "", False, regular
        self.name = "include patterns" + ("" if regular else ", not a regular file")
        self.bad, self.reads, self.yields, self.ends = {}, 0, 0, set()
        self.run()

    def assume(self, I, st, v):
        if v.op == "call" and v.a[0] == "is_empty" and v.a[1] is f(self.cfg, "include") or \
                v.op == "call" and v.a[0] == "is_empty" and v.a[1].op == "f" and v.a[1].a[1] == "include":
            return FALSE
        return None

    def plain(self, root, name):
        return root.op == "f" and root.a[1] == name and root.a[0] is self.cfg

    def stage(self, I, st, root):
        if mentions(I, root, lambda x: x.op in ("call", "gen") and x.a[0] == "ignore::WalkBuilder::build") is not None:
            return ok(WENT), True
        k = windex(I, root)
        if k >= 0:
            return WS[min(k + 1, 5)], int(gget(st, "p")[0]) >= k
        return None, False

    def cur(self, w, root):
        return "curE" if w is not None and w not in WS else "curL"

    def on_elem(self, I, c, root, outs):
        for n, g in (("include", "inc"), ("exclude", "exc")):
            if self.plain(root, n):
                if gget(outs[0][1], g) == "pend":
                    self.mark("patterns-applied", f"an {n} pattern is not applied", c.span)
                for v, s, f_ in outs:
                    gset(s, g, "done" if v is None else "pend")
                return outs
        outs = Sel.on_elem(self, I, c, root, outs)
        if self.stage(I, outs[0][1], root)[0] is not None and root.op != "agg":
            res = []
            for v, s, f_ in outs:
                if v is not None and v.op == "elem" and self.stage(I, s, root)[0].op == "agg":
                    s2 = s.copy()
                    gset(s2, "er", "yes")
                    res.append((ok(mk("f", v, "Ok.0", 0)), s, f_))
                    res.append((err(mk("f", v, "Err.0", 0)), s2, f_))
                else:
                    res.append((v, s, f_))
            return res
        return outs

    def h_add(self, I, c, st, fv, args, front):
        ev = record(I, c, st, fv, args)
        x = ev.args[1]
        parts = [y for y in cli.Mode.pieces(self, x)]
        is_elem = lambda v, n: v.op == "elem" and self.plain(models.iter_root(v.a[0]), n)
        if len(parts) == 1 and is_elem(parts[0], "include"):
            if gget(st, "exc") != "none":
                self.mark("patterns-applied", "an include pattern is added after an exclude pattern and would override it", c.span)
            gset(st, "inc", "ok")
        elif len(parts) == 2 and parts[0] is kstr("!") and is_elem(parts[1], "exclude"):
            gset(st, "exc", "ok")
        else:
            self.mark("patterns-applied", f"the pattern added is neither an include pattern nor ! and an exclude pattern: {show(x)}", c.span)
        s2 = st.copy()
        gset(s2, "er", "yes")
        val = mk("call", "add", x)
        return [(ok(val), st, front), (err(mk("f", val, "Err.0", 0)), s2, front)]

    def h_obuild(self, I, c, st, fv, args, front):
        ev = record(I, c, st, fv, args)
        for g, n in (("inc", "include"), ("exc", "exclude")):
            if gget(st, g) != "done":
                self.mark("patterns-applied", f"the patterns are put to use before all {n} patterns are added ({gget(st, g)})", c.span)
        s2 = st.copy()
        gset(s2, "er", "yes")
        return [(ok(sym("OVERRIDE")), st, front), (err(sym("override_err")), s2, front)]

    def run(self):
        P = prog()
        fn = P.at_path("config::Config::collect_files")
        self.cfg = sym("self")
        hooks = {}
        for n in ("is_dir", "is_file", "exists", "is_symlink", "to_str", "to_string_lossy", "extension", "file_name"):
            hooks["std::path::Path::" + n] = self.pathfn
        for n in ("path", "into_path", "file_type", "file_name", "path_is_symlink"):
            hooks["ignore::DirEntry::" + n] = self.entryfn
        for n in ("is_file", "is_dir", "is_symlink"):
            hooks["std::fs::FileType::" + n] = self.entryfn
        hooks["std::iter::Iterator::collect"] = self.h_collect
        for n in ("std::iter::Iterator::next", "std::iter::Iterator::for_each", "std::iter::Iterator::try_for_each"):
            hooks[n] = self.h_next
        for n in ("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::insert", "std::collections::HashSet::<T, S, A>::insert",
                  "std::collections::BTreeSet::<T, A>::insert"):
            hooks[n] = self.h_push
        for n in ("std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_from_slice", "std::vec::Vec::<T, A>::append"):
            hooks[n] = self.h_extend
        hooks["ignore::overrides::OverrideBuilder::add"] = self.h_add
        hooks["ignore::overrides::OverrideBuilder::build"] = self.h_obuild
        self.I = I = Interp(P, assume=self.assume, hooks=hooks, track=track(self.GH))
        I.MAXPART = 400
        I.on_elem, I.on_flat = self.on_elem, self.on_flat
        st = init(State(), p="0", curD="no", curE="no", curL="no", rd="no", er="no", we="no", hand="no", inc="none", exc="none")
        self.opts = {}
        for r, s, fr in I.run(fn, [self.cfg, sym("base_dir")], st):
            r = I.deep(s, r)
            for x in (I.alts(r) if r.op in ("phi", "alt") else [r]):
                if x.op == "agg" and x.a[1] == RESULT:
                    good = x.a[2] == 0
                    has = good and windex(I, I.deep(s, x.a[3][0])) >= 0 and int(gget(s, "p")[0]) >= 1
                    self.ends.add((good, bool(has), gget(s, "er"), gget(s, "inc"), gget(s, "exc")))
                else:
                    self.ends.add((None, False, gget(s, "er"), "", ""))
        for e in I.all_events():
            if e.kind == "call" and e.path.startswith(("ignore::WalkBuilder::", "ignore::overrides::OverrideBuilder::")):
                self.opts.setdefault(e.path.split("::")[-2] + "::" + e.path.split("::")[-1], []).append(e)


RULES = {
    "selected-processed": "a selected file is read before the program ends without an error",
    "selected-once": "a selected file is put in the list once and read once",
    "selected-kept": "no step between selection and processing drops files",
    "not-selected": "a file that is not selected is not read",
    "walk-complete": "directories are walked in full",
    "patterns-applied": "every include pattern, then every exclude pattern (negated), is applied before the walk",
    "walk-options": "the walk starts at the given directory, shows hidden files, and honours ignore files exactly when git_aware is set",
    "walk-errors": "an entry that cannot be read is an error, not skipped",
}


def C06(r):
    for k, v in RULES.items():
        r.rule(k, v)
    sel = []
    for mode in ("stdout", "write", "check", "diff"):
        sel.append((Sel("file", "md", mode), True))
        sel.append((Sel("dir", "md", mode), True))
        sel.append((Sel("include", "md", mode), True))
    for ext in ("txt", ""):
        sel.append((Sel("file", ext), True))
    for ext in ("markdown", "MD", "mD", "Markdown"):
        sel.append((Sel("dir", ext), True))
    for ext in ("txt", "", "mdx", "mkd", "amd", "markdow", "markdowns"):
        sel.append((Sel("dir", ext), False))
    sel.append((Sel("dir", "md", regular=False), False))
    sel.append((Sel("file", "md", "stdout", True), True))
    for s, want in sel:
        r.interp(s.I)
        okk = ("no", "no") not in s.ends if want else s.reads == 0
        r.ob("selected-processed" if want else "not-selected", f"{s.name}", okk,
             ("the file can be left out" if want else "the file is processed although it was not asked for") if not okk else "")
        if want and not s.stdin:
            r.ob("reached", f"{s.name}: the selected file is read", s.reads > 0, "it is never read")
        if s.kind == "dir":
            r.ob("walk-errors", f"directory argument [{s.mode}]", 0 not in s.walk_codes and None not in s.walk_codes,
                 "an entry of a directory that cannot be read is skipped and the exit status is a success")
        for (rule, detail), site in s.bad.items():
            r.ob(rule, f"{s.name}: {detail}", False, detail, site)
    for w, want in ((Walk(), True), (Walk(False), False)):
        r.interp(w.I)
        goods = [e for e in w.ends if e[0]]
        r.ob("reached", f"{w.name}: the collection can succeed", bool(goods))
        for e in w.ends:
            if e[0] is None:
                raise Exception("result of collect_files not understood")
            if e[0]:
                r.ob("walk-errors", f"{w.name}: success after an error", e[2] == "no", "a failure is dropped and the collection goes on")
                if e[2] == "no":
                    r.ob("selected-processed" if want else "not-selected", w.name, e[1] == want,
                         "a matching file is left out" if want else "something that is not a file is collected")
                    r.ob("patterns-applied", f"{w.name}: all patterns added", e[3] == "done" and e[4] == "done", str(e[3:]))
        for (rule, detail), site in w.bad.items():
            r.ob(rule, f"{w.name}: {detail}", False, detail, site)
        def val(name):
            es = w.opts.get(name, [])
            return [e.args[1] for e in es if len(e.args) > 1]
        isgit = lambda v: v.op == "f" and v.a[1] == "git_aware" and v.a[0] is w.cfg
        first = lambda name: [e.args[0] for e in w.opts.get(name, [])]
        o = [("base directory of the patterns", first("OverrideBuilder::new"), lambda v: v is sym("base_dir")),
             ("base directory of the walk", first("WalkBuilder::new"), lambda v: v is sym("base_dir")),
             ("hidden", val("WalkBuilder::hidden"), lambda v: v is FALSE),
             ("git_ignore", val("WalkBuilder::git_ignore"), isgit),
             ("git_exclude", val("WalkBuilder::git_exclude"), isgit),
             ("overrides", val("WalkBuilder::overrides"), lambda v: v is sym("OVERRIDE"))]
        for n, vs, p in o:
            r.ob("walk-options", f"{w.name}: {n}", bool(vs) and all(p(v) for v in vs), "set to " + ", ".join(show(v, 0, 3) for v in vs))
        for n in w.opts:
            if n.split("::")[-1] in ("max_depth", "min_depth", "max_filesize", "filter_entry", "types", "same_file_system",
                                     "add_custom_ignore_filename"):
                r.ob("walk-options", f"{w.name}: restricted by {n}", False, "only part of the directory is walked", w.opts[n][0].span)
    r.assumptions += cli.ASSUME[:2] + ["the ignore crate matches patterns as documented; walkdir yields every entry once"]
    return "other", ("Abstract interpretation of main (and of the pattern collection) that follows one arbitrary file through every list of files, "
                     "per command mode, kind of argument and extension.")
