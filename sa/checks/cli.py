"""Properties of the command line program: which files it touches, what it
writes, prints and returns.  One product analysis of `main` with a monitor
automaton per mode; the properties read different obligations off it."""
import build
import models
from engine import Interp, State
from values import *
from ghost import G, gget, gset, init, track, record
from program import Missing

GH = ["err", "anyd", "msg", "wn", "df", "ph", "wr", "pr", "src", "nf", "ni"]
FS_READONLY = {"read_to_string", "read", "metadata", "symlink_metadata", "read_dir", "canonicalize", "exists",
               "read_link"}
FS_RO_TYPES = ("std::fs::Metadata", "std::fs::DirEntry", "std::fs::FileType", "std::fs::ReadDir", "std::fs::Permissions")


def fs_mutator(path):
    """may this external function change the file system?"""
    p = path
    if p.startswith("std::fs::") or p.startswith("std::os::unix::fs") or p.startswith("fs_err"):
        if any(p.startswith(t) for t in FS_RO_TYPES):
            return False
        last = p.split("::")[-1]
        if p.startswith("std::fs::File") or p.startswith("std::fs::OpenOptions"):
            return last not in ("open", "metadata", "try_clone", "read", "read_to_string", "read_exact", "read_to_end") or "OpenOptions" in p
        return last not in FS_READONLY
    if p.startswith("tempfile::") or p.startswith("std::os::unix::") and "chown" in p:
        return True
    return False


_SHARED = {}


def prog():
    if "P" not in _SHARED:
        _SHARED["P"] = build.program("native")
    return _SHARED["P"]


def is_parse(v):
    return v.op == "call" and v.a[0].startswith("clap::Parser::")


def exit_code(I, s, r):
    """the constant exit status a value of main stands for, or None"""
    r = I.val(s, r)
    codes = set()
    for x in (I.alts(r) if r.op == "phi" else [r]):
        y = x
        while y.op == "agg" and len(y.a[3]) == 1:
            y = I.val(s, y.a[3][0])
        for z in I.alts(y):
            while z.op == "agg" and len(z.a[3]) == 1:
                z = z.a[3][0]
            codes.add(z.a[1] if z.op == "k" else None)
    return codes.pop() if len(codes) == 1 else None


class Mode:
    """One run of main under fixed mode flags."""

    def __init__(self, mode, stdin):
        self.mode, self.stdin = mode, stdin
        self.bad = {}            # (rule, key) -> (detail, site)
        self.P = prog()
        self.fmt = self.P.at_path("format_with_warnings", crate="lib")
        self.fmt2 = self.P.at_path("format", crate="lib")
        self.seen = {"reads": {}, "formats": {}, "writes": {}, "prints": {}, "eprints": {}, "muts": {}, "cmps": {}}
        self.name = f"{mode}{'-stdin' if stdin else ''}"
        self.outcomes = set()
        self.run()

    def mark(self, I, rule, key, detail, site):
        if I.recording:
            self.bad.setdefault((rule, key), (f"{detail} (mode {self.name})", site))

    def note(self, I, kind, c, ev):
        if I.recording:
            self.seen[kind].setdefault((c.body.path, ev.args), ev)

    # -- the assumption: mode flags
    def assume(self, I, st, v):
        if v.op == "f" and is_parse(v.a[0]):
            n = v.a[1]
            if n in ("write", "check", "diff"):
                return kbool(self.mode == n)
            if n == "stdin":
                return kbool(self.stdin)
        return None

    # -- end of one input's processing
    def close(self, I, c, st, where, span):
        if gget(st, "msg"):
            self.mark(I, "error-reported", f"error of {gget(st, 'src')} not reported on stderr", f"at {where}", span)
        ph = gget(st, "ph")
        if ph == "fmt":
            if gget(st, "wn") not in ("done",):
                self.mark(I, "warnings-reported", "an input's processing ends before its warnings are reported",
                          f"at {where}", span)
            df, wr, pr = gget(st, "df"), gget(st, "wr"), gget(st, "pr")
            m = self.mode
            if m == "write" and not self.stdin:
                if df == "diff" and wr == "no":
                    self.mark(I, "write-iff-different", "a file whose formatting differs is not written", f"at {where}", span)
                if df != "diff" and wr != "no":
                    self.mark(I, "write-iff-different", "a file is written although its content is unchanged"
                              if df == "same" else "a file is written without having been compared", f"at {where}", span)
                if df == "?" and wr == "no":
                    self.mark(I, "write-iff-different", "a formatted file is neither compared nor written", f"at {where}", span)
            if m == "check" and df == "?":
                self.mark(I, "check-compares", "an input ends without having been compared with its formatting",
                          f"at {where}", span)
            if m == "stdout" and pr != "full":
                self.mark(I, "stdout-output", "an input's formatted text is not printed exactly once", f"at {where} ({pr})", span)
            if m == "diff" and ((df == "diff") != (pr != "no")):
                self.mark(I, "diff-iff-different", "a diff is printed for unchanged text, or not printed for changed text",
                          f"at {where} (compared: {df}, printed: {pr})", span)
        elif ph == "read":
            self.mark(I, "read-then-format", "an input is read but not formatted", f"at {where}", span)
        for g, v in (("msg", False), ("ph", "idle"), ("wn", "none"), ("df", "?"), ("wr", "no"), ("pr", "no")):
            gset(st, g, v)

    def fail(self, st, what):
        gset(st, "err", True)
        gset(st, "msg", True)
        gset(st, "src", what)

    # -- hooks
    def h_read(self, I, c, st, fv, args, front):
        if self.stdin:
            return None
        if c.body.crate != "bin":
            return None
        self.close(I, c, st, "the next read", c.span)
        ev = record(I, c, st, fv, args)
        self.note(I, "reads", c, ev)
        val = mk("call", fv.a[1], *ev.args)
        s2 = st.copy()
        gset(st, "ph", "read")
        self.fail(s2, "reading")
        return [(ok(mk("f", val, "Ok.0", 0)), st, front), (err(mk("f", val, "Err.0", 0)), s2, front)]

    def h_stdin(self, I, c, st, fv, args, front):
        tgt = I.deep(st, args[0])
        if "std::io::stdin" not in show(tgt) and not any(x.op == "call" and x.a[0] == "std::io::stdin" for x in walk(tgt)):
            return None
        if not self.stdin:
            return []            # this run is about files
        self.close(I, c, st, "reading stdin", c.span)
        ev = record(I, c, st, fv, args)
        self.note(I, "reads", c, ev)
        content = mk("call", "stdin_text")
        s2 = st.copy()
        gset(st, "ph", "read")
        self.fail(s2, "reading")
        if len(args) > 1:
            old = I.val(st, args[1])
            if old is not kstr(""):
                content = mk("cat", old, content)
            I.store_places(st, I.deref_targets(st, args[1]), content)
            return [(ok(mk("call", "len", content)), st, front), (err(mk("call", "stdin_err")), s2, front)]
        return [(ok(content), st, front), (err(mk("call", "stdin_err")), s2, front)]

    def content(self, v):
        """is v the raw text of an input?  returns the path value / 'stdin'"""
        if v.op == "call" and v.a[0] == "stdin_text":
            return "stdin"
        if v.op == "f" and v.a[1] == "Ok.0" and v.a[0].op == "call" and v.a[0].a[0] == "std::fs::read_to_string":
            return v.a[0].a[1]
        return None

    def h_fmt(self, I, c, st, fv, args, front):
        ev = record(I, c, st, fv, args)
        self.note(I, "formats", c, ev)
        if gget(st, "ph") != "read":
            self.mark(I, "read-then-format", "formatting is called other than once per input read", "", c.span)
        if self.content(ev.args[0]) is None:
            self.mark(I, "format-raw-input", "formatting is applied to something other than the text that was read",
                      show(ev.args[0]), c.span)
        val = mk("call", "FORMAT", *ev.args)
        s2 = st.copy()
        gset(st, "ph", "fmt")
        gset(st, "wn", "pend")
        self.fail(s2, "formatting")
        gset(s2, "ph", "idle")
        return [(ok(mk("f", val, "Ok.0", 0)), st, front), (err(mk("f", val, "Err.0", 0)), s2, front)]

    def output(self, v):
        """if v is <formatted text> of input C returns C"""
        if v.op == "f" and v.a[1] == "output" and v.a[0].op == "f" and v.a[0].a[1] == "Ok.0" \
                and v.a[0].a[0].op == "call" and v.a[0].a[0].a[0] == "FORMAT":
            return v.a[0].a[0].a[1]
        return None

    def warnings(self, v):
        if v.op == "f" and v.a[1] == "warnings" and v.a[0].op == "f" and v.a[0].a[1] == "Ok.0" \
                and v.a[0].a[0].op == "call" and v.a[0].a[0].a[0] == "FORMAT":
            return v.a[0].a[0]
        return None

    def h_eq(self, I, c, st, fv, args, front):
        a, b = I.deep(st, args[0]), I.deep(st, args[1])
        for x, y in ((a, b), (b, a)):
            o = self.output(x)
            if o is not None and o is y and self.content(y) is not None:
                ev = record(I, c, st, fv, args)
                self.note(I, "cmps", c, ev)
                ne = fv.a[1].endswith("ne")
                df = gget(st, "df")
                if df in ("same", "diff"):
                    return [(kbool((df == "same") != ne), st, front)]
                s2 = st.copy()
                gset(st, "df", "same")
                gset(s2, "df", "diff")
                gset(s2, "anyd", True)
                return [(kbool(not ne), st, front), (kbool(ne), s2, front)]
        return None

    def h_write(self, I, c, st, fv, args, front):
        ev = record(I, c, st, fv, args)
        self.note(I, "writes", c, ev)
        if self.mode != "write" or self.stdin:
            self.mark(I, "no-write", "a file is written outside --write mode", show(ev.args[0]), c.span)
        else:
            src = self.output(ev.args[1])
            if src is None:
                self.mark(I, "write-exact-output", "what is written is not the formatted text of the input that was read",
                          show(ev.args[1], 0, 4), c.span)
            elif self.content(src) is not ev.args[0]:
                self.mark(I, "write-same-path", "the formatted text is written to a path other than the one it was read from",
                          f"{show(ev.args[0])} vs {show(self.content(src))}", c.span)
            if gget(st, "ph") != "fmt":
                self.mark(I, "write-after-success", "a file is written on a path where formatting did not succeed", "", c.span)
            if gget(st, "wr") != "no":
                self.mark(I, "write-once", "a file is written more than once", "", c.span)
        val = mk("call", fv.a[1], *ev.args)
        gset(st, "wr", "ok")
        s2 = st.copy()
        self.fail(s2, "writing")
        gset(s2, "wr", "fail")
        return [(ok(UNIT), st, front), (err(mk("f", val, "Err.0", 0)), s2, front)]

    def h_next(self, I, c, st, fv, args, front):
        root, shape = models.iter_root(I.val(st, args[0])), []
        while root.op == "iter" and len(shape) < 8:
            shape.append(root.a[0])
            root = models.iter_root(I.val(st, root.a[1]))
        if self.warnings(I.deep(st, root)) is not None and any(
                x in ("filter", "take", "skip", "step_by", "take_while", "skip_while", "filter_map") for x in shape):
            self.mark(I, "warnings-reported", "only some of the warnings are considered", str(shape), c.span)
        return None

    def on_elem(self, I, c, root, outs):
        """one next() on a list: does it give a warning of the input?"""
        if self.warnings(root) is None:
            return outs
        if gget(outs[0][1], "wn") == "elem":
            self.mark(I, "warnings-reported", "a warning is not printed", "", c.span)
        for v, s, f_ in outs:
            gset(s, "wn", "done" if v is None else "elem")
        return outs

    def pieces(self, v):
        out = []
        st = [v]
        while st:
            x = st.pop(0)
            if x.op == "fmtargs":
                st = list(x.a[0]) + st
            elif x.op == "cat":
                st = [x.a[0], x.a[1]] + st
            elif x.op == "call" and x.a[0] == "display":
                st = [x.a[1]] + st
            else:
                out.append(x)
        return out

    def h_eprint(self, I, c, st, fv, args, front):
        ev = record(I, c, st, fv, args)
        self.note(I, "eprints", c, ev)
        gset(st, "msg", False)
        vals = set(walk(ev.args[0]))
        ws = [x for x in vals if x.op == "elem" and self.warnings(models.iter_root(x.a[0])) is not None]
        if ws:
            w = ws[0]
            names = {x.a[1] for x in vals if x.op == "f" and x.a[0] is w}
            if {"line", "message"} <= names:
                gset(st, "wn", "shown")
            else:
                self.mark(I, "warnings-reported", "a warning is printed without its line or message", str(sorted(names)), c.span)
        return [(UNIT, st, front)]

    def h_print(self, I, c, st, fv, args, front):
        ev = record(I, c, st, fv, args)
        self.note(I, "prints", c, ev)
        ps = self.pieces(ev.args[0])
        m = self.mode
        if m == "check":
            self.mark(I, "check-silent", "--check prints to standard output", show(ev.args[0]), c.span)
        elif m == "write" and not self.stdin:
            if gget(st, "wr") != "ok":
                self.mark(I, "write-report", "--write prints to standard output without a file having been written",
                          show(ev.args[0]), c.span)
        elif m == "diff":
            if gget(st, "ph") != "fmt" or gget(st, "df") != "diff":
                self.mark(I, "diff-iff-different", "output is printed for text that was not found different", show(ev.args[0]), c.span)
            gset(st, "pr", "some")
        else:
            src = self.output(ps[0]) if len(ps) == 1 else None
            if src is None or self.content(src) is None:
                self.mark(I, "stdout-output", "standard output receives something other than exactly the formatted text",
                          show(ev.args[0], 0, 4), c.span)
            elif gget(st, "ph") != "fmt":
                self.mark(I, "stdout-output", "output is printed without a successful formatting", "", c.span)
            gset(st, "pr", "full" if gget(st, "pr") == "no" else "twice")
        return [(UNIT, st, front)]

    def h_exit(self, I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        code = I.val(st, args[0])
        self.finish(I, c, st, code.a[1] if code.op == "k" else None, c.span)
        return []

    def h_failcall(self, what):
        """library calls whose Err must end in an error exit"""
        def h(I, c, st, fv, args, front):
            if c.body.crate != "bin":
                return None
            ev = record(I, c, st, fv, args)
            val = mk("call", "local:" + fv.a[1], *ev.args)
            s2 = st.copy()
            self.fail(s2, what)
            return [(ok(mk("f", val, "Ok.0", 0)), st, front), (err(mk("f", val, "Err.0", 0)), s2, front)]
        return h

    def finish(self, I, c, st, code, span):
        self.close(I, c, st, "the end of the program", span)
        e, d = gget(st, "err"), gget(st, "anyd")
        usage = gget(st, "nf") == "yes" and gget(st, "ni") == "yes"
        want_fail = bool(e or usage or (self.mode == "check" and d))
        if I.recording:
            self.outcomes.add((bool(e), bool(d), code))
        if code is None:
            self.mark(I, "exit-status", f"exit status not determined by the outcome (error={e}, differs={d})", "", span)
        elif want_fail and code == 0:
            why = (f"an error in {gget(st, 'src')}" if e else "no input was given" if usage
                   else "a file that is not formatted (--check)")
            self.mark(I, "exit-status", f"exit status 0 after {why}", "", span)
        elif not want_fail and code != 0:
            self.mark(I, "exit-status", "non-zero exit status without any failure", "", span)

    # -- no input given
    def h_isempty(self, I, c, st, fv, args, front):
        v = I.deep(st, args[0])
        if self.stdin:
            return None
        g = None
        if v.op == "f" and v.a[1] == "files" and is_parse(v.a[0]):
            g = "nf"
        elif v.op == "f" and v.a[1] == "include":
            g = "ni"
        if g is None:
            return None
        record(I, c, st, fv, args)
        if gget(st, g) in ("yes", "no"):
            return [(kbool(gget(st, g) == "yes"), st, front)]
        s2 = st.copy()
        gset(st, g, "yes")
        gset(s2, g, "no")
        return [(TRUE, st, front), (FALSE, s2, front)]

    def run(self):
        hooks = {
            "std::fs::read_to_string": self.h_read,
            "std::io::Read::read_to_string": self.h_stdin,
            "std::io::read_to_string": self.h_stdin,
            self.fmt.path: self.h_fmt,
            "std::cmp::PartialEq::eq": self.h_eq,
            "std::cmp::PartialEq::ne": self.h_eq,
            "std::fs::write": self.h_write,
            "std::iter::Iterator::next": self.h_next,
            "std::iter::Iterator::for_each": self.h_next,
            "std::iter::Iterator::try_for_each": self.h_next,
            "std::iter::Iterator::fold": self.h_next,
            "std::io::_print": self.h_print,
            "std::io::_eprint": self.h_eprint,
            "std::process::exit": self.h_exit,
            "std::vec::Vec::<T, A>::is_empty": self.h_isempty,
            "core::slice::<impl [T]>::is_empty": self.h_isempty,
        }
        P = self.P
        # fallible library entry points the command line relies on before processing
        for path, what in (("config::FormatterConfig::validate", "validating a formatter"),
                           ("serializer::punctuation::validate_dash_settings", "validating the punctuation settings"),
                           ("config::Config::collect_files", "collecting files"),
                           ("config::LineWidth::new", "the line width")):
            if path in P.by_path:
                hooks[path] = self.h_failcall(what)
        I = self.I = Interp(P, opaque=lambda b: b.crate != "bin", assume=self.assume, hooks=hooks,
                            track=track(GH))
        I.MAXPART = 400
        I.on_elem = self.on_elem
        st = init(State(), err=False, anyd=False, msg=False, wn="none", df="?", ph="idle", wr="no", pr="no", src="none", nf="?", ni="?")
        main = P.one("main", crate="bin")
        outs = I.run(main, [], st)
        for r, s, fr in outs:
            code = exit_code(I, s, r)
            class C:
                pass
            cc = C()
            cc.span, cc.body = main.span, main
            self.finish(I, cc, s.copy(), code, main.span)
        self.outs = outs


def modes():
    if "modes" not in _SHARED:
        _SHARED["modes"] = [Mode(m, s) for m in ("stdout", "write", "check", "diff") for s in (False, True)]
    return _SHARED["modes"]


# ------------------------------------------------------------------ properties
def callees(P, crate=None):
    """(body, external callee path, span) for every function constant in the bodies"""
    for b in P.bodies.values():
        if crate and b.crate != crate:
            continue
        for bl in b.blocks:
            if bl["cl"]:
                continue
            yield from _fns(b, bl["t"], bl["sp"])
            for s in bl["s"]:
                yield from _fns(b, s[1], s[2])
        for p in b.promoted:
            for bl in p.blocks:
                yield from _fns(b, bl["t"], bl["sp"])
                for s in bl["s"]:
                    yield from _fns(b, s[1], s[2])


def _fns(b, j, span):
    if isinstance(j, dict):
        if j.get("k") == "fn":
            yield b, j["v"], span, j
        for v in j.values():
            if isinstance(v, (dict, list)):
                yield from _fns(b, v, span)
    elif isinstance(j, list):
        for v in j:
            if isinstance(v, (dict, list)):
                yield from _fns(b, v, span)


ALL = ("stdout", "write", "check", "diff", "stdout-stdin", "write-stdin", "check-stdin", "diff-stdin")
RULES = {
    "no-write": "without --write no path of the program reaches an operation that changes the file system",
    "write-exact-output": "the bytes written are exactly the text returned by the formatter for what was read",
    "write-same-path": "the path written is the path the text was read from",
    "write-after-success": "a file is only written after its formatting succeeded",
    "write-once": "each file is written at most once",
    "write-iff-different": "a file is written exactly when its formatting differs from its content",
    "exit-status": "the exit status is a failure exactly when something failed (or --check found a difference)",
    "error-reported": "every failure outcome is followed by a message on stderr before the next input",
    "no-abort": "no failure outcome ends in a panic",
    "warnings-reported": "every warning of every formatted input is printed to stderr with its line and message",
    "stdout-output": "standard output receives exactly the formatted text of each input, once",
    "check-silent": "--check prints nothing on standard output",
    "write-report": "--write only reports files it has written",
    "check-compares": "--check compares every formatted input",
    "diff-iff-different": "a diff is printed exactly when the formatted text differs",
    "diff-operands": "the printed diff is computed from the original text to the formatted text",
    "diff-signs": "deleted lines are marked -, inserted lines +, common lines with a space",
    "read-then-format": "every input is read once and then formatted once",
    "format-raw-input": "formatting is applied to the text exactly as read",
    "reached": "the operation the rule is about occurs (the rule is not vacuous)",
}


def judge(r, names, rules):
    """copy the marks of the selected rules from the mode runs into obligations"""
    for rule in rules:
        r.rule(rule, RULES[rule])
    for m in modes():
        if m.name not in names:
            continue
        r.interp(m.I)
        for rule in rules:
            marks = {k: v for k, v in m.bad.items() if k[0] == rule}
            r.ob(rule, f"main [{m.name}]", True)
            for (_, key), (detail, site) in marks.items():
                r.ob(rule, f"{key} [{m.name}]", False, detail, site)
        r.count("monitored_outcomes", len(m.outcomes))
        for k, v in m.seen.items():
            if v:
                r.count("sites_" + k, len(v))
    r.assumptions += ASSUME


ASSUME = ["rustc's MIR is the program that runs (unoptimised MIR of the current tree, native configuration)",
          "std, rayon, walkdir, clap and similar behave as modelled in sa/models.py (par_iter().for_each visits every item once)",
          "clap rejects --write/--check/--diff given together, as declared on the argument struct"]
EXPL = ("Abstract interpretation of the resolved program (MIR) from main, with every call inside the binary inlined, "
        "in product with a finite monitor automaton, once per command mode and input source; all paths, all outcomes "
        "of every fallible operation, any number of files. ")


def reached(r, what, ok, detail=""):
    r.rule("reached", RULES["reached"])
    r.ob("reached", what, ok, detail or "no such operation is reachable: the behaviour is gone")


def C01(r):
    P = prog()
    judge(r, ALL, ["no-write"])
    # positive example: the classifier knows a mutator and a reader
    assert fs_mutator("std::fs::remove_file") and fs_mutator("std::fs::OpenOptions::open")
    assert not fs_mutator("std::fs::read_to_string") and not fs_mutator("std::path::Path::is_dir")
    r.rule("fs-effects", "no function of the library calls an operation that changes the file system; in the program "
           "the only such operation reachable is writing a processed file, and only under --write")
    n = 0
    for b, path, span, _ in callees(P, "lib"):
        n += 1
        if fs_mutator(path):
            r.ob("fs-effects", f"{b.path} -> {path}", False, "the library changes the file system", span)
    r.count("library_call_sites", n)
    r.ob("fs-effects", "library call sites", n > 500, f"{n} call sites scanned")
    for m in modes():
        k = 0
        for e in m.I.all_events():
            if e.kind == "call":
                k += 1
                if fs_mutator(e.path) and not (e.path == "std::fs::write" and m.mode == "write" and not m.stdin):
                    r.ob("fs-effects", f"{e.fn.path} -> {e.path} [{m.name}]", False,
                         "reachable although this mode must not modify files", e.span)
        r.ob("fs-effects", f"events of main [{m.name}]", k > 100, f"{k} call events")
    w = [m for m in modes() if m.name == "write"][0]
    reached(r, "--write writes files", bool(w.seen["writes"]))
    return "other", EXPL + "Every call event reachable without --write, and every call site of the library, is classified by its resolved callee."


def C02(r):
    judge(r, ("write",), ["write-exact-output", "write-same-path", "write-after-success", "write-once",
                          "write-iff-different", "read-then-format", "format-raw-input"])
    w = [m for m in modes() if m.name == "write"][0]
    reached(r, "--write reads, formats, compares and writes files",
            all(w.seen[k] for k in ("reads", "formats", "cmps", "writes")))
    return "other", EXPL + "The monitor tracks, per file, read -> format -> compare -> write with the provenance of the path and the bytes."


def panics(r, names):
    r.rule("no-abort", RULES["no-abort"])
    for m in modes():
        if m.name in names:
            r.ob("no-abort", f"main [{m.name}]", True)
            for e in m.I.all_events():
                if e.kind == "panic":
                    src = show(e.args[0]) if e.args else ""
                    r.ob("no-abort", f"{e.fn.path}: {e.path} of {src}", False, f"a failure outcome aborts the program (mode {m.name})", e.span)


def C03(r):
    judge(r, ALL, ["exit-status", "error-reported"])
    panics(r, ALL)
    for m in modes():
        fails = {c for e, d, c in m.outcomes if e}
        r.ob("exit-status", f"a failure outcome exists [{m.name}]", bool(fails), "no failing outcome is distinguished")
    return "other", EXPL + "The monitor carries 'something failed', 'a difference was found', 'an unreported error is pending' to every exit."


def C04(r):
    judge(r, ALL, ["stdout-output", "check-silent", "write-report", "warnings-reported"])
    for m in modes():
        reached(r, f"warnings are printed [{m.name}]", any(
            any(x.op == "elem" and m.warnings(models.iter_root(x.a[0])) is not None for x in walk(e.args[0]))
            for e in m.seen["eprints"].values()))
    return "other", EXPL + "Every print event is classified by stream and by the provenance of what is printed."


def C05(r):
    judge(r, ALL, ["format-raw-input", "read-then-format", "check-compares", "diff-iff-different", "write-iff-different"])
    r.rule("diff-operands", RULES["diff-operands"])
    r.rule("diff-signs", RULES["diff-signs"])
    for m in modes():
        if m.mode != "diff":
            continue
        nd = 0
        signs = {}
        for e in m.I.all_events():
            if e.kind == "call" and e.path.startswith("similar::TextDiff") and e.path.split("::")[-1].startswith("from_"):
                nd += 1
                a, b = e.args[0], e.args[1]
                r.ob("diff-operands", f"{e.fn.path} [{m.name}]", m.content(a) is not None and m.output(b) is a,
                     f"from_lines({show(a, 0, 3)}, {show(b, 0, 3)})", e.span)
            if e.kind == "call" and e.path == "std::io::_print":
                for x in walk(e.args[0]):
                    if x.op == "call" and x.a[0].endswith("::value") and x.a[0].startswith("similar::Change"):
                        for y in m.pieces(e.args[0]):
                            for val, facts in (list(m.I.alts_t.get(y, {}).values()) if y.op == "phi" else [(y, e.facts)]):
                                if val.op == "k" and str(val.a[1]) in "-+ ":
                                    for k, f_ in facts.items():
                                        if k.op == "discr" and k.a[0].op == "call" and k.a[0].a[0].endswith("::tag") and f_.op == "k":
                                            signs[cval(f_)] = val.a[1]
        reached(r, f"a diff is computed [{m.name}]", nd > 0)
        ad = m.P.adts.get("similar::ChangeTag")
        want = {v[1]: {"Delete": "-", "Insert": "+", "Equal": " "}.get(v[0]) for v in ad["variants"]} if ad else {}
        for dv, s_ in want.items():
            if dv in signs:
                r.ob("diff-signs", f"tag {dv} [{m.name}]", signs[dv] == s_, f"marked {signs[dv]!r}, expected {s_!r}")
        r.count("diff_signs_resolved", len(signs))
    return "other", EXPL + "All modes are shown to act on the one comparison of the raw text with the formatter's output for it."
