"""C15 and C16: running external code formatters.

The functions that render a code block are interpreted with everything they call
inlined, under a monitor that models the child process: what it is given, whether
it still runs, whether it succeeded, and what became of its output."""
import build
import unroll
from engine import Interp, State
from values import *
from ghost import G, gget, gset, init, track, record
from checks.cli import prog
from checks.effects import Graph

SPAWNERS = {"std::process::Command::spawn", "std::process::Command::output", "std::process::Command::status"}
KEYWORD = "hongdown-no-format"
GH = ["child", "thr", "succ", "bad", "free", "fed", "warn", "chk", "polled", "pin", "pout", "perr", "ran", "utf", "emit", "word", "prg", "arg"]
CHILD, STDIN, STDOUT, STDERR = sym("CHILD"), sym("CHILD_STDIN"), sym("CHILD_STDOUT"), sym("CHILD_STDERR")
PIPE_ERR, IO_ERR, STATUS = sym("BROKEN_PIPE_ERROR"), sym("OTHER_IO_ERROR"), sym("EXIT_STATUS")


def data(pipe):
    return mk("call", "data_of", pipe)


def ioerr():
    return sym("IO_ERROR")


def asts(b):
    return any(x in b.locals[i + 1][0] for i in range(b.nargs) for x in ("arena_tree::Node<", "nodes::Ast", "nodes::NodeValue"))


def self_ty(b):
    return b.nargs and "Serializer" in b.locals[1][0]


class Roots:
    """the functions that render one code block: below them nothing sees the document tree"""

    def __init__(self, P, starters):
        g = self.g = Graph(P)
        self.P = P
        rev = {}
        for x, ys in g.out.items():
            for y in ys:
                rev.setdefault(y, set()).add(x)
        self.rev = rev
        # functions from which a formatter can be started
        seen, todo = set(), [b.id for b in P.bodies.values() if b.crate == "lib" and starters(g, b)]
        self.starters = list(todo)
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += rev.get(x, ())
        roots, self.callers = [], {}
        for i in seen:
            b = g.ids[i]
            if b.kind == "closure" or asts(b) or "Serializer" not in " ".join(b.locals[k + 1][0] for k in range(b.nargs)):
                continue
            cs = [g.ids[c] for c in rev.get(i, ()) if c in seen and asts(g.ids[c])]
            if cs:
                roots.append(b)
                self.callers[b.id] = cs
        self.roots = sorted(roots, key=lambda b: b.path)


def native_starters(g, b):
    return any(v in SPAWNERS for v, _, _ in g.ext.get(b.id, ()))


def of_block(I, v):
    """('info' | 'literal', the code block node) a value is a field of"""
    if v.op == "f" and v.a[1].split(".")[-1] in ("info", "literal"):
        return v.a[1].split(".")[-1], v.a[0]
    return None


def roles(r, R, root):
    """which parameters carry the info string and the code, from what the callers pass"""
    P = R.P
    out = {}
    for i in range(root.nargs):
        if "NodeCodeBlock" in root.locals[i + 1][0]:
            out["info"] = mk("f", sym(f"P{i}"), "info", fidx(P, "info"))
            out["literal"] = mk("f", sym(f"P{i}"), "literal", fidx(P, "literal"))
            return out
    for c in R.callers[root.id]:
        I = Interp(P, opaque=lambda x: True)
        try:
            I.run(c, [sym(f"Q{i}") for i in range(c.nargs)])
        except Exception as e:
            raise
        n = 0
        for e in I.all_events():
            if e.kind == "local" and e.info is root or e.kind == "enter" and e.info is root:
                n += 1
                got = {}
                for i, a in enumerate(e.args):
                    for x in (I.alts(a) if a.op in ("phi", "alt") or (a.op == "f" and I.has_phi_base(a)) else [a]):
                        k = of_block(I, x)
                        if k:
                            got.setdefault(k[0], set()).add((i, k[1]))
                pos = {k: {p for p, _ in v} for k, v in got.items()}
                okk = set(got) == {"info", "literal"} and all(len(v) == 1 for v in pos.values()) and \
                    {b for _, b in got["info"]} == {b for _, b in got["literal"]}
                r.ob("own-code", f"{c.name} calls {root.name}", okk,
                     f"passes {[show(a, 0, 4) for a in e.args]} instead of the info string and code of one block", e.span)
                if okk:
                    for k in pos:
                        p = next(iter(pos[k]))
                        if k in out and out[k] is not sym(f"P{p}"):
                            r.ob("own-code", f"{c.name} calls {root.name}", False, "callers disagree about the arguments", e.span)
                        out[k] = sym(f"P{p}")
        r.count("calls of code block renderers", n)
    return out


def fidx(P, name):
    a = P.adts.get("comrak::nodes::NodeCodeBlock")
    if a:
        for i, x in enumerate(a["variants"][0][2]):
            if x[0] == name:
                return i
    return None


class Run:
    """one product analysis of a renderer under an assumption about the info string:
    'plain' (first word a language, no keyword), 'marked' (keyword among the words), 'bare' (no word)"""

    def __init__(self, P, root, info, literal, case, wasm=False):
        self.P, self.root, self.info, self.literal, self.case, self.wasm = P, root, info, literal, case, wasm
        self.bad = {}
        self.seen = {"spawn": [], "get": [], "out_code": [], "out_lit": [], "callback": []}
        self.keys = {}
        a = P.adts.get("std::io::ErrorKind")
        self.bp = next((i for i, v in enumerate(a["variants"]) if v[0] == "BrokenPipe"), 11) if a else 11
        H = {
            "std::process::Command::spawn": self.h_spawn,
            "std::process::Command::output": self.h_unbounded, "std::process::Command::status": self.h_unbounded,
            "std::process::Command::stdin": self.h_pipe("pin"), "std::process::Command::stdout": self.h_pipe("pout"),
            "std::process::Command::stderr": self.h_pipe("perr"),
            "std::process::Command::new": self.h_new, "std::process::Command::args": self.h_arg, "std::process::Command::arg": self.h_arg,
            **{"std::process::Command::" + n: self.h_environment for n in ("env", "envs", "env_clear", "env_remove", "current_dir", "arg0", "uid", "gid", "pre_exec", "process_group")},
            "std::process::Child::try_wait": self.h_trywait, "std::process::Child::wait": self.h_wait,
            "std::process::Child::wait_with_output": self.h_wait, "std::process::Child::kill": self.h_kill,
            "std::process::ExitStatus::success": self.h_success, "std::process::ExitStatus::code": self.h_code,
            "std::io::Write::write_all": self.h_write, "std::io::Write::write": self.h_write1,
            "std::io::Read::read_to_end": self.h_read, "std::io::Read::read_to_string": self.h_read,
            "std::io::Error::kind": self.h_kind,
            "std::thread::spawn": self.h_thread, "std::thread::JoinHandle::<T>::join": self.h_join,
            "std::thread::sleep": self.h_sleep,
            "std::string::String::from_utf8": self.h_utf8, "core::str::from_utf8": self.h_utf8, "std::str::from_utf8": self.h_utf8,
            "std::cmp::PartialOrd::ge": self.h_cmp, "std::cmp::PartialOrd::gt": self.h_cmp,
            "std::cmp::PartialOrd::le": self.h_cmp, "std::cmp::PartialOrd::lt": self.h_cmp,
            "std::iter::Iterator::next": self.h_next, "std::iter::Iterator::any": self.h_any,
            "core::slice::<impl [T]>::split_first": self.h_splitfirst,
            "std::vec::Vec::<T, A>::push": self.h_vpush,
            "std::string::String::push_str": self.h_out, "std::string::String::push": self.h_out,
            "std::ops::AddAssign::add_assign": self.h_out, "std::fmt::Write::write_str": self.h_out,
            "std::fmt::Write::write_fmt": self.h_out, "std::string::String::insert_str": self.h_out,
            "std::collections::HashMap::<K, V, S, A>::get": self.h_get, "std::collections::HashMap::<K, V, S>::get": self.h_get,
            "std::collections::BTreeMap::<K, V, A>::get": self.h_get, "std::ops::Fn::call": self.h_callback,
            "std::ops::FnMut::call_mut": self.h_callback, "std::ops::FnOnce::call_once": self.h_callback,
        }
        self.I = I = Interp(P, hooks=H, assume=self.assume, track=track(GH))
        st = init(State(), child="none", thr=False, succ=False, bad="", free=False, fed=False, warn=False, chk="no",
                  polled=False, pin=False, pout=False, perr=False, ran=False, utf=False, emit="", word="", prg="", arg="")
        args = [sym(f"P{i}") for i in range(root.nargs)]
        I.MAXPART = 400
        self.SELF = args[0]
        self.outs = I.run(root, args, st)
        for v, s, f in self.outs:
            self.at_exit(s)

    def mark(self, rule, key, detail, site=""):
        if self.I.recording:
            self.bad.setdefault((rule, key), (detail, site))

    def m(self, rule, key, detail, c):
        self.mark(rule, key, detail, c.span)

    # ---- the info string -------------------------------------------------------
    def from_info(self, v):
        """a trimmed or whole info string"""
        v0 = v
        n = 0
        while n < 8:
            if v is self.info:
                return True
            if v.op == "call" and v.a[0].startswith("core::str::<impl str>::trim") and len(v.a) == 2:
                v = v.a[1]
            else:
                return False
            n += 1
        return False

    def words(self, E):
        """an iterator over the words of the info string, not advanced yet"""
        while E.op == "call" and E.a[0] in ("peekable", "fuse", "iter"):
            E = E.a[1]
        if E.op == "call" and E.a[0] in ("core::str::<impl str>::split_whitespace", "core::str::<impl str>::split_ascii_whitespace") and len(E.a) == 2:
            return self.from_info(E.a[1])
        return False

    ARG = sym("ARGUMENT")
    FIRST, KW, OTHER = sym("FIRST_WORD"), sym("KEYWORD"), sym("OTHER_WORD")

    def assume(self, I, st, v):
        if v.op == "call" and v.a[0] == "isempty" or v.op == "call" and v.a[0].endswith("is_empty"):
            x = v.a[1]
            if self.from_info(x):
                return kbool(self.case == "bare")
            if x in (self.FIRST, self.KW, self.OTHER):
                return FALSE
        if v.op == "bin" and v.a[0] == "Eq":
            a, b = v.a[1], v.a[2]
            for x, y in ((a, b), (b, a)):
                if y.op == "k" and y.a[0] == "str" and (x.op == "elem" and self.words_any(x.a[0])):
                    if y.a[1] == KEYWORD:
                        return kbool(self.case == "marked")
                if y is kstr(KEYWORD) and x is self.KW:
                    return TRUE
                if y.op == "k" and y.a[0] == "str" and x is self.OTHER:
                    return FALSE
                if y.op == "k" and y.a[0] == "str" and x is self.FIRST and (y.a[1] == "" or y.a[1] == KEYWORD and self.case == "plain"):
                    return FALSE
        return None

    def words_any(self, E):
        while E.op in ("call", "adv") and E.a[0] in ("peekable", "fuse", "iter", "advanced"):
            E = E.a[1]
        return self.words(E)

    def h_next(self, I, c, st, fv, args, front):
        E = I.val(st, args[0])
        if not self.words(E) and not (E.op == "call" and E.a[0] == "advanced"):
            D = I.deep(st, E)
            if D.op in ("slice", "call") and self.is_rest(D) or D.op == "call" and D.a[0] == "iter" and self.is_rest(D.a[1]):
                # a loop over the configured arguments
                s2 = st.copy()
                gset(st, "arg", "pending" if gget(st, "arg") in ("none", "rest") else "an argument left out")
                if gget(s2, "arg") == "none":
                    gset(s2, "arg", "rest")
                return [(some(self.ARG), st, front), (NONE, s2, front)]
            self.emits(I, st, self.flow(I, D))
            return None
        pls = I.deref_targets(st, args[0])
        if len(pls) != 1:
            return None
        fresh = not (E.op == "call" and E.a[0] == "advanced")
        if fresh and self.case == "bare":
            return [(NONE, st, front)]
        if fresh:
            E = mk("call", "advanced", E)
        if self.case == "marked":
            # one of the words is the keyword: the words do not end before it was there
            seen, n = not fresh and gget(st, "word")[:1] == "k", "1" if fresh else "2"
            a, b = st, st.copy()
            I.store(a, pls[0], E)
            I.store(b, pls[0], E)
            outs = [(some(self.KW), a, front), (some(self.OTHER), b, front)]
            if seen:
                outs.append((NONE, st.copy(), front))
            gset(a, "word", "k" + n)
            gset(b, "word", "k" + n if seen else n)
            return outs
        gset(st, "word", "1" if fresh else "2")
        if fresh:
            I.store(st, pls[0], E)
            return [(some(self.FIRST), st, front)]
        s2 = st.copy()
        return [(some(mk("elem", E.a[1])), st, front), (NONE, s2, front)]

    def h_any(self, I, c, st, fv, args, front):
        E = I.val(st, args[0])
        if not self.words(E):
            return None
        if self.case == "bare":
            return [(FALSE, st, front)]
        if self.case in ("marked", "plain"):
            outs = []
            for r, s2, f2 in I.apply(c, st, args[1], [mk("elem", E)], front, ("any",)):
                k = I.known(s2, I.val(s2, r))
                outs.append((k if k is not None and k.op == "k" else mk("call", "any", E, I.deep(s2, r)), s2, f2))
            return outs
        return None

    # ---- choosing the formatter ----------------------------------------------------
    def h_get(self, I, c, st, fv, args, front):
        m = I.deep(st, args[0])
        if not (m.op == "f" and m.a[1] == "code_formatters"):
            return None
        k = I.val(st, args[1])
        ev = record(I, c, st, fv, args)
        if I.recording:
            # what the lookup key can be
            al = []
            for x in (I.alts(k) if k.op in ("phi", "alt") or (k.op == "f" and I.has_phi_base(k)) else [k]):
                x = I.deep(st, x)
                al += I.alts(x) if x.op in ("phi", "alt") else [x]
            kk = I.deep(st, k)
            for x in al:
                if x.op == "k" and x.a[1] == "" and I.known(st, mk("call", "isempty", kk)) is FALSE:
                    continue
                self.keys.setdefault(x, c.span)
        f = mk("call", "FORMATTER", I.deep(st, k))
        s2 = st.copy()
        return [(some(f), st, front), (NONE, s2, front)]

    @staticmethod
    def is_formatter(v, field):
        return v.op == "f" and v.a[1] == field and v.a[0].op == "call" and v.a[0].a[0] == "FORMATTER"

    def h_splitfirst(self, I, c, st, fv, args, front):
        v = I.deep(st, args[0])
        k = I.known(st, mk("call", "isempty", v))
        pair = agg("tuple", "", 0, (mk("call", "first_of", v), mk("call", "rest_of", v)))
        if k is FALSE:
            return [(some(pair), st, front)]
        s2 = st.copy()
        return [(some(pair), st, front), (NONE, s2, front)]

    def h_new(self, I, c, st, fv, args, front):
        p = I.deep(st, args[0])
        good = p.op == "call" and p.a[0] == "first_of" and self.is_formatter(p.a[1], "command") or \
            p.op == "idx" and self.is_formatter(p.a[0], "command") and p.a[1] is kint(0)
        gset(st, "prg", "" if good else show(p, 0, 5))
        gset(st, "arg", "none")
        return None

    def h_arg(self, I, c, st, fv, args, front):
        v = I.deep(st, args[1])
        was = gget(st, "arg")
        if fv.a[1].endswith("::args"):
            now = "rest" if self.is_rest(v) and was == "none" else show(v, 0, 5)
        else:
            now = "rest" if v is self.ARG and was == "pending" else show(v, 0, 5)
        gset(st, "arg", now)
        return None

    def h_environment(self, I, c, st, fv, args, front):
        self.m("own-command", "the environment of the program", f"is changed by {fv.a[1].split('::')[-1]}", c)
        return None

    # ---- the child process -------------------------------------------------------------
    def h_pipe(self, g):
        def h(I, c, st, fv, args, front):
            v = I.deep(st, args[1])
            gset(st, g, v.op == "call" and v.a[0] == "std::process::Stdio::piped")
            return None
        return h

    def h_spawn(self, I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        cmd = I.deep(st, args[0])
        if I.recording:
            self.seen["spawn"].append(c.span)
            if gget(st, "prg"):
                self.m("own-command", "the program that is run", f"is {gget(st, 'prg')}, not the first word of the configured command", c)
            if gget(st, "arg") != "rest":
                self.m("own-command", "the arguments of the program", f"are {gget(st, 'arg')}, not the rest of the configured command", c)
            if gget(st, "ran"):
                self.m("one-run", "a code block", "can have a formatter run on it twice", c)
        s2 = st.copy()
        gset(st, "child", "running")
        gset(st, "ran", True)
        gset(st, "chk", "no")
        gset(st, "polled", False)
        child = mk("upd", CHILD, tuple(sorted([("stdin", some(STDIN) if gget(st, "pin") else NONE),
                                               ("stdout", some(STDOUT) if gget(st, "pout") else NONE),
                                               ("stderr", some(STDERR) if gget(st, "perr") else NONE)])))
        gset(s2, "ran", True)
        gset(s2, "bad", "spawn")
        return [(ok(child), st, front), (err(ioerr()), s2, front)]

    def is_rest(self, v):
        if v.op == "call" and v.a[0] == "rest_of":
            return self.is_formatter(v.a[1], "command")
        if v.op == "call" and v.a[0] == "skip" and len(v.a) == 3:
            return self.is_formatter(v.a[1], "command") and v.a[2] is kint(1)
        if v.op == "slice":
            return self.is_formatter(v.a[0], "command") and v.a[1:] == ("RangeFrom", kint(1))
        return False

    def h_unbounded(self, I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        self.m("bounded", "waiting for the process", f"{fv.a[1]} waits without regard to the timeout", c)
        return None

    def blocking(self, I, c, st, what):
        if gget(st, "child") == "running" and not gget(st, "thr"):
            self.m("bounded", what, "blocks for as long as the process likes, without regard to the timeout", c)

    def h_trywait(self, I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        ch = I.val(st, args[0])
        if gget(st, "polled") and gget(st, "chk") != "live":
            self.m("bounded", "polling the process", "goes on without having found that the timeout has not passed"
                   if gget(st, "chk") == "no" else "goes on after the timeout has passed", c)
        if gget(st, "pin") and I.deep(st, I.proj(ch, ("f", "stdin", None))) is not NONE:
            self.m("input-closed", "standard input of the process", "is still open while waiting for the process to end", c)
        gset(st, "polled", True)
        gset(st, "chk", "no")
        a, b, d = st, st.copy(), st.copy()
        if gget(a, "child") in ("running", "killed"):
            gset(a, "child", "reaped")
        if not gget(d, "bad"):
            gset(d, "bad", "wait")
        return [(ok(some(STATUS)), a, front), (ok(NONE), b, front), (err(ioerr()), d, front)]

    def h_wait(self, I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        self.blocking(I, c, st, "waiting for the process")
        if gget(st, "child") == "none":
            return None
        gset(st, "child", "reaped")
        d = st.copy()
        if not gget(d, "bad"):
            gset(d, "bad", "wait")
        if fv.a[1].endswith("wait_with_output"):
            b = self.P.adts.get("std::process::Output")
            names = [x[0] for x in b["variants"][0][2]] if b else ["status", "stdout", "stderr"]
            vals = {"status": STATUS, "stdout": data(STDOUT), "stderr": data(STDERR)}
            return [(ok(agg("adt", "std::process::Output", 0, tuple(vals[n] for n in names))), st, front), (err(ioerr()), d, front)]
        return [(ok(STATUS), st, front), (err(ioerr()), d, front)]

    def h_kill(self, I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        if gget(st, "child") == "running":
            gset(st, "child", "killed")
        if not gget(st, "bad"):
            gset(st, "bad", "killed")
        s2 = st.copy()
        return [(ok(UNIT), st, front), (err(ioerr()), s2, front)]

    def h_success(self, I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        v = I.deep(st, args[0])
        if v is not STATUS:
            return None
        if gget(st, "succ"):
            return [(TRUE, st, front)]
        if gget(st, "bad") == "status":
            return [(FALSE, st, front)]
        s2 = st.copy()
        gset(st, "succ", True)
        if not gget(s2, "bad"):
            gset(s2, "bad", "status")
        return [(TRUE, st, front), (FALSE, s2, front)]

    def h_code(self, I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        if I.deep(st, args[0]) is not STATUS:
            return None
        a, b, d = st, st.copy(), st.copy()
        outs = []
        if gget(st, "bad") != "status":
            gset(a, "succ", True)
            outs.append((some(kint(0)), a, front))
        if not gget(b, "succ"):
            for s in (b, d):
                if not gget(s, "bad"):
                    gset(s, "bad", "status")
            nz = sym("NONZERO_CODE")
            I.learn_ne(b, nz, 0)
            outs += [(some(nz), b, front), (NONE, d, front)]
        return outs

    def h_write(self, I, c, st, fv, args, front):
        p = I.deep(st, args[0])
        if p is not STDIN:
            return None
        record(I, c, st, fv, args)
        self.blocking(I, c, st, "writing to the process")
        v = I.deep(st, args[1])
        if v is not self.literal:
            self.m("own-code", "what the process is given", f"is {show(v, 0, 6)}, not the code of the block", c)
        elif gget(st, "fed"):
            self.m("own-code", "what the process is given", "is the code more than once", c)
        a, b, d = st, st.copy(), st.copy()
        gset(a, "fed", True)
        gset(b, "free", True)       # it may have succeeded without reading everything: either is right
        gset(b, "fed", True)
        if not gget(d, "bad"):
            gset(d, "bad", "write")
        return [(ok(UNIT), a, front), (err(PIPE_ERR), b, front), (err(IO_ERR), d, front)]

    def h_write1(self, I, c, st, fv, args, front):
        if I.deep(st, args[0]) is STDIN:
            self.m("own-code", "what the process is given", "may be cut short: a single write need not write everything", c)
        return None

    def h_read(self, I, c, st, fv, args, front):
        p = I.deep(st, args[0])
        if p not in (STDOUT, STDERR):
            return None
        record(I, c, st, fv, args)
        self.blocking(I, c, st, "reading from the process")
        s2 = st.copy()
        for pl in I.deref_targets(st, args[1]):
            old = I.deep(st, I.load(st, pl))
            I.store(st, pl, data(p) if old in (kstr(""),) or old.op == "empty" else mk("cat", (old, data(p))))
        if fv.a[1].endswith("read_to_string"):
            gset(st, "utf", True)
        if p is STDOUT and not gget(s2, "bad"):
            gset(s2, "bad", "read")
        if p is STDERR:
            # losing the error text is not losing the output: either is right
            gset(s2, "free", True)
        return [(ok(mk("call", "length_read")), st, front), (err(ioerr()), s2, front)]

    def h_kind(self, I, c, st, fv, args, front):
        v = I.deep(st, args[0])
        if v is PIPE_ERR:
            return [(agg("adt", "std::io::ErrorKind", self.bp, ()), st, front)]
        if v is IO_ERR:
            return [(agg("adt", "std::io::ErrorKind", self.bp + 7, ()), st, front)]
        return None

    def h_thread(self, I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        outs = []
        was = gget(st, "thr")
        gset(st, "thr", True)
        for r, s2, f2 in I.apply(c, st, args[0], [], front, ("thread",)):
            gset(s2, "thr", was)
            outs.append((agg("adt", "std::thread::JoinHandle", 0, (r,)), s2, f2))
        return outs

    def h_join(self, I, c, st, fv, args, front):
        h = I.val(st, args[0])
        if h.op != "agg" or h.a[1] != "std::thread::JoinHandle":
            return None
        record(I, c, st, fv, args)
        self.blocking(I, c, st, "waiting for a thread that talks to the process")
        # the threads only do the calls above, none of which panics
        return [(ok(h.a[3][0]), st, front)]

    def h_sleep(self, I, c, st, fv, args, front):
        if gget(st, "child") == "running" and gget(st, "chk") == "over":
            self.m("bounded", "polling the process", "goes on after the timeout has passed", c)
        return None

    def h_cmp(self, I, c, st, fv, args, front):
        a, b = I.deep(st, args[0]), I.deep(st, args[1])
        lim = [any(self.is_formatter(x, "timeout_secs") for x in walk(y)) for y in (a, b)]
        clk = [any(x.op in ("call", "gen") and x.a[0] in ("std::time::Instant::elapsed", "std::time::Instant::now", "std::time::Instant::duration_since") for x in walk(y)) for y in (a, b)]
        if lim[0] == lim[1] or not clk[1 if lim[0] else 0]:
            return None
        L = a if lim[0] else b
        sec = [x for x in walk(L) if x.op == "call" and x.a[0] == "std::time::Duration::from_secs" and self.is_formatter(x.a[1], "timeout_secs")]
        plain = L.op == "call" and (L.a[0] == "std::time::Duration::from_secs" or L.a[0] in ("std::ops::Add::add",) or L.op == "bin") or L.op == "bin"
        if not sec or not plain:
            self.m("bounded", "the timeout", f"is {show(L, 0, 5)}, not the configured number of seconds", c)
        if gget(st, "child") == "none":
            return None
        op = fv.a[1].split("::")[-1]
        big = (op in ("ge", "gt")) != lim[0]        # true means: clock beyond limit
        s2 = st.copy()
        gset(st, "chk", "over" if big else "live")
        gset(s2, "chk", "live" if big else "over")
        return [(TRUE, st, front), (FALSE, s2, front)]

    def h_utf8(self, I, c, st, fv, args, front):
        v = I.deep(st, args[0])
        if v is not data(STDOUT):
            return None
        record(I, c, st, fv, args)
        s2 = st.copy()
        gset(st, "utf", True)
        if not gget(s2, "bad"):
            gset(s2, "bad", "utf8")
        return [(ok(v), st, front), (err(ioerr()), s2, front)]

    # ---- what becomes of it --------------------------------------------------------------
    def target(self, I, st, v, name):
        return any(p and p[-1][0] == "f" and p[-1][1] == name and (b is mk("obj", self.SELF)) for b, p in I.deref_targets(st, v))

    def h_vpush(self, I, c, st, fv, args, front):
        if self.target(I, st, args[0], "warnings"):
            gset(st, "warn", True)
        return None

    RES = sym("CALLBACK_RESULT")

    def h_out(self, I, c, st, fv, args, front):
        if not self.target(I, st, args[0], "output"):
            return None
        v = I.deep(st, args[-1])
        fl = self.flow(I, v)
        if fl:
            self.emits(I, st, fl)
        if not I.recording:
            return None
        code = self.RES if self.wasm else data(STDOUT)
        has_code, has_lit = code in fl, self.literal in fl
        if has_code:
            self.seen["out_code"].append(c.span)
            if not self.wasm:
                if gget(st, "child") != "reaped":
                    self.m("success-only", "output of the process", "is used before the process has ended", c)
                if not gget(st, "succ"):
                    self.m("success-only", "output of the process", "is used without the process having reported success", c)
                if gget(st, "bad"):
                    self.m("failure-keeps", "output of the process", f"is used although the exchange failed ({gget(st, 'bad')})", c)
                if not gget(st, "utf"):
                    self.m("success-only", "output of the process", "is used without having been checked to be valid UTF-8", c)
                if not gget(st, "fed"):
                    self.m("own-code", "output of the process", "is used although the code was not written to it", c)
            else:
                if gget(st, "succ") is not True:
                    self.m("failure-keeps", "result of the callback", "is used although there was none", c)
        if has_lit:
            self.seen["out_lit"].append(c.span)
            if gget(st, "ran") and gget(st, "succ") and not gget(st, "bad") and not gget(st, "free") and gget(st, "utf" if not self.wasm else "succ"):
                self.m("output-replaces", "the original code", "is written although the formatter succeeded", c)
        bad = [x for x in fl if x.op == "call" and x.a[0] == "data_of" and x is not code]
        if bad:
            self.m("success-only", "standard error of the process", "is written into the document", c)
        if has_code or has_lit:
            how = fl.get(code) or fl.get(self.literal)
            if how:
                self.m("output-replaces", "the code written", f"has gone through {how}", c)
        return None

    # what may lie between the code and the text written: splitting it into lines, and nothing else
    SPLIT = {"core::str::<impl str>::lines", "core::str::<impl str>::split_inclusive", "core::str::<impl str>::split_terminator",
             "core::str::<impl str>::split", "peekable", "fuse", "enumerate", "iter", "advanced", "skip", "zip",
             "std::iter::Iterator::peekable", "std::iter::Iterator::enumerate", "concat", "join"}

    def flow(self, I, v):
        """(source, what it goes through besides being split into lines) for the code and the outputs that reach v"""
        seen, todo, out = set(), [(v, None)], {}
        while todo:
            x, how = todo.pop()
            if (x, how) in seen:
                continue
            seen.add((x, how))
            if x is self.RES or x is self.literal or x.op == "call" and x.a[0] == "data_of":
                out[x] = out.get(x) or how
            elif x is self.info:
                continue
            elif x.op in ("phi", "alt") or (x.op == "f" and I.has_phi_base(x)):
                todo += [(y, how) for y in I.alts(x) if y is not x]
            elif x.op == "call":
                nm = x.a[0]
                if nm in ("repeat_n", "std::iter::repeat_n", "repeat"):
                    todo.append((x.a[1], how))
                elif nm in ("max", "min", "len", "count", "isempty", "core::str::<impl str>::len"):
                    continue
                else:
                    h = how if nm in self.SPLIT else short(nm)
                    todo += [(y, h) for y in children(x)]
            elif x.op in ("bin", "un", "cmp"):
                continue
            else:
                todo += [(y, how) for y in children(x)]
        return out

    def emits(self, I, st, fl):
        """note that all of the code or all of the output is being written from here on"""
        e = gget(st, "emit")
        n = "".join(k for k, x in (("c", self.RES if self.wasm else data(STDOUT)), ("l", self.literal)) if k in e or x in fl)
        if n != e:
            gset(st, "emit", n)

    def at_exit(self, s):
        ch = gget(s, "child")
        if ch in ("running", "killed"):
            self.bad.setdefault(("reaped", "a started process"), ("is left without having been waited for"
                                if ch == "killed" else "is left running", ""))
        if gget(s, "ran") and gget(s, "bad") and not gget(s, "warn"):
            self.bad.setdefault(("failure-warned", f"failure: {gget(s, 'bad')}"), ("no warning is recorded", ""))
        worked = gget(s, "ran") and not gget(s, "bad") and not gget(s, "free")
        e = gget(s, "emit")
        if worked and "c" not in e:
            self.bad.setdefault(("output-replaces", "the formatter's output"), ("is not written although the formatter succeeded", ""))
        if not worked and not e:
            self.bad.setdefault(("failure-keeps", "the original code"), (f"is not written when {gget(s, 'bad') or 'no formatter'} "
                                                                          + ("fails" if gget(s, "bad") else "applies"), ""))

    # ---- the callback of the JavaScript build ------------------------------------------------
    def h_callback(self, I, c, st, fv, args, front):
        f = I.deep(st, args[0]) if args else UNDEF
        if not any(x.op == "f" and "callback" in str(x.a[1]) for x in walk(f)):
            return None
        record(I, c, st, fv, args)
        if I.recording:
            self.seen["callback"].append(c.span)
        t = I.val(st, args[1])
        xs = [I.deep(st, x) for x in t.a[3]] if t.op == "agg" else []
        if I.recording:
            if len(xs) != 2 or xs[1] is not self.literal:
                self.m("own-code", "what the callback is given", f"is {[show(x, 0, 4) for x in xs]}, not the language and code of the block", c)
            elif len(xs) == 2:
                k = xs[0]
                for x in (I.alts(k) if k.op in ("phi", "alt") else [k]):
                    if x.op == "k" and x.a[1] == "" and I.known(st, mk("call", "isempty", k)) is FALSE:
                        continue
                    self.keys.setdefault(x, c.span)
            if gget(st, "ran"):
                self.m("one-run", "a code block", "can have the callback run on it twice", c)
        gset(st, "ran", True)
        s2 = st.copy()
        gset(st, "succ", True)
        gset(s2, "free", True)
        return [(some(self.RES), st, front), (NONE, s2, front)]


_RUNS = {}


def runs(r, wasm=False):
    key = wasm
    if key in _RUNS:
        return _RUNS[key]
    P = build.program("wasm32") if wasm else prog()
    if wasm:
        st = lambda g, b: any("CodeFormatterCallback" in x[0] or "dyn" in x[0] and "Fn" in x[0] for x in b.locals) and \
            any(v.startswith("std::ops::Fn") for v, _, _ in g.ext.get(b.id, ())) and "serializer" in b.path
    else:
        st = native_starters
    R = Roots(P, st)
    out = []
    for root in R.roots:
        ro = roles(r, R, root)
        if set(ro) != {"info", "literal"}:
            r.ob("own-code", f"{root.name}: arguments", False, "which arguments carry the info string and the code is not evident")
            continue
        rs = {}
        for case in ("plain", "marked", "bare"):
            rs[case] = Run(P, root, ro["info"], ro["literal"], case, wasm)
        out.append((root, rs))
    _RUNS[key] = (P, R, out)
    return _RUNS[key]


RULES15 = {
 "own-code": "the code block whose info string selects the formatter is the one whose code, complete and unchanged, is handed to it",
 "own-language": "the formatter is looked up by exactly the first word of the info string, or by the default language if there is none",
 "not-marked": "no formatter is started when a word of the info string is hongdown-no-format, and one can be when none is",
 "own-command": "the program run is the first word of the configured command, its arguments are the others, in an unchanged environment",
 "one-run": "at most one formatter run per code block",
 "failure-keeps": "output of a failed exchange never reaches the document",
 "failure-warned": "every failed exchange records a warning",
 "output-replaces": "after a successful exchange the output and not the original code is written",
}
RULES16 = {
 "reached": "every place that starts a process is analysed",
 "reaped": "on every path from starting the process to the end of rendering the block the process has been waited for",
 "bounded": "nothing blocks on a running process except polling, each round of which has found the configured timeout not to have passed",
 "input-closed": "the process' standard input has been handed over for closing before the process is waited for",
 "success-only": "output is used only after the process ended, reported success, and its output was checked to be valid UTF-8",
}


def report(r, rules, wasm=False):
    P, R, rs = runs(r, wasm)
    pre = "JavaScript build: " if wasm else ""
    for root, cases in rs:
        for case, run in cases.items():
            r.interp(run.I)
            for rule in rules:
                bad = [(k, d) for (rl, k), d in run.bad.items() if rl == rule]
                for k, (d, site) in bad:
                    r.ob(rule, f"{pre}{root.name}: {k}", False, d, site)
                if not bad and rule not in ("own-language", "not-marked", "reached"):
                    r.ob(rule, f"{pre}{root.name}: info string {case}", True)
    return P, R, rs


def C15(r):
    for k, v in RULES15.items():
        r.rule(k, v)
    for wasm in (False, True):
        pre = "JavaScript build: " if wasm else ""
        P, R, rs = report(r, RULES15, wasm)
        r.ob("own-code", f"{pre}renderers of code blocks", bool(rs), "no function that renders code blocks starts a formatter")
        for root, cases in rs:
            started = {k: bool(run.seen["callback" if wasm else "spawn"]) for k, run in cases.items()}
            r.ob("not-marked", f"{pre}{root.name}: marked block", not started["marked"], "a formatter is started for a block marked hongdown-no-format")
            r.ob("not-marked", f"{pre}{root.name}: unmarked block", started["plain"], "no formatter is ever started")
            for case, want in (("plain", [Run.FIRST]), ("bare", None)):
                ks = cases[case].keys
                badk = []
                for k in ks:
                    if case == "plain" and k is Run.FIRST:
                        continue
                    if case == "bare" and k.op == "f" and k.a[1] == "default_language":
                        continue
                    badk.append(show(k, 0, 5))
                r.ob("own-language", f"{pre}{root.name}: block {'with' if case == 'plain' else 'without'} a language", not badk and bool(ks),
                     f"the formatter is chosen by {badk or 'nothing'}", next(iter(ks.values()), ""))
            r.ob("output-replaces", f"{pre}{root.name}: output is written", bool(cases["plain"].seen["out_code"]), "a formatter's output never reaches the document")
            r.ob("failure-keeps", f"{pre}{root.name}: original is written", all(c.seen["out_lit"] for c in cases.values()), "the original code never reaches the document")
    return "other", "Product of the code block renderers, everything below them inlined, with a monitor of the formatter exchange. "


def C16(r):
    for k, v in RULES16.items():
        r.rule(k, v)
    P, R, rs = report(r, RULES16)
    fns = set()
    for root, cases in rs:
        for run in cases.values():
            fns |= run.I.fns
    for i in R.starters:
        b = R.g.ids[i]
        r.ob("reached", b.path, b.path in fns, "starts a process outside the analysed renderers")
    r.ob("reached", "process creation", bool(R.starters) and any(c["plain"].seen["spawn"] for _, c in rs), "no process is ever started")
    return "other", "Typestate of the child process over every path from its start to the end of rendering the block. "
