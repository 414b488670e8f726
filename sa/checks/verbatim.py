"""C22: the text of code, HTML and front matter reaches the output unchanged; C25: plain text is escaped once.

What a renderer writes is a graph of values; the text of the node is a leaf of it.  The operations between the
two are collected and compared with what may be done to such a text."""
import os
import multiprocessing
from concurrent.futures import ProcessPoolExecutor

from checks.cli import prog
from values import mk, walk, show, children, is_const, cval, kint, sym, V, FALSE, TRUE
from checks.content import (Content, Run, Pool, STATE, FIELDS, BELOW, CHILD, explore, entries, one_node, is_ast, mut_params, value_of, say, place, kids, gset, gget, GRAND)
import checks.content as content

LINE = "LINE "              # of a place where the lines of a text are gone through: one arbitrary line


def is_line(v):
    return v.op == "sym" and v.a[0].__class__ is str and v.a[0].startswith(LINE)


BLOCK = ("CodeBlock", "HtmlBlock", "FrontMatter")
SPAN = ("Code", "HtmlInline")
TEXTS = {"CodeBlock": ("literal",), "HtmlBlock": ("literal",), "FrontMatter": ("FrontMatter.0",), "Code": ("literal",), "HtmlInline": ("HtmlInline.0",),
         "Link": ("url", "title"), "Image": ("url", "title"), "FootnoteReference": ("name",), "FootnoteDefinition": ("name",)}
# what is computed from a text without being text
NUMBERS = {"len", "count", "find", "rfind", "position", "is_empty", "starts_with", "ends_with", "contains", "eq", "ne", "max", "min", "width", "cmp", "sum",
           "all", "any", "is_some", "is_none", "is_char_boundary", "capacity"}
WHOLE = {"lines", "split", "split_inclusive", "split_terminator", "join", "concat", "as_str", "clone", "to_string", "to_owned", "into", "as_deref", "as_ref",
         "unwrap_or", "unwrap_or_default", "as_bytes", "from", "deref", "borrow", "into_string", "cloned", "copied", "collect_result"}
STRUCT = {"cat", "phi", "alt", "agg", "elem", "item", "items", "concat", "obj", "ref", "f", "prev", "gen", "coll", "upd", "collect", "list", "iter", "idx", "mut", "fmt"}


def blank(x):
    return x.__class__ is str and not x.strip(" \n\0")


class Flow(Run):
    """what is written, with every helper that is not about a node looked into"""
    FOLLOW = True

    def __init__(self, C, b, kind, field, below, names, empty=False):
        self.names, self.empty, self.cut = names, empty, {}
        super().__init__(C, b, kind, field, below)

    def opaque(self, I, c, st, t, args):
        if t.kind != "closure" and not one_node(t) and not any(is_ast(t.locals[i + 1][0]) for i in range(t.nargs)):
            if t.id in self.C.recorders:
                return True
            ms = mut_params(t)
            if not any(self.touched(I.deep(st, a)) for i, a in enumerate(args) if i not in ms):
                return super().opaque(I, c, st, t, args)
            if not ms and self.fld is None and "String" in t.locals[0][0]:
                return True
            return not ms and self.C.size(t) > 400
        return super().opaque(I, c, st, t, args)

    def touched(self, v):
        """may it have text of the node in it?"""
        seen, todo = {v}, [v]
        while todo:
            x = todo.pop()
            if self.leaf(x) or is_line(x):
                return True
            for y in self.parts(x)[0]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False

    def leaf(self, v):
        if self.below is not None and self.fld is None:
            return v.op == "gen" and v.a[0].startswith("written by ") and v.a[1].__class__ is tuple and self.mine(v.a[1]) is not None or self.cited(v, (CHILD, GRAND))
        node = self.NODE if self.below is None else CHILD
        if self.cited(v, (node,)):
            return True
        if v.op in ("f", "ref"):
            x = value_of(v)
            if x is not None and x[0] is node and x[1] and any(n in x[1][-1:] or len(x[1]) > 1 and n in x[1] for n in self.names):
                return True
        return False

    def cited(self, v, nodes):
        """the text of the node as it stands in the source"""
        return v.op == "call" and v.a[0].startswith("local:") and v.a[0][6:] in self.C.whole_paths and any(x in nodes for x in v.a[1:])

    def on_elem(self, I, c, root, outs):
        """one arbitrary line of the text is told apart from the others"""
        if not (root.op == "call" and root.a[0].split("::")[-1] in ("lines", "split", "split_inclusive", "split_terminator") and self.touched(root.a[1])):
            return super().on_elem(I, c, root, outs)
        site = "l%s" % self.C.site((c.node[0], c.node[1], "line"))
        W = sym(LINE + ("+" if root.a[0].endswith("split_inclusive") else site))
        if any(E.a[0] in content.SHAPES + ("filter", "filter_map") for E in I.shapes):
            self.cut[W] = True
        return self.meet(site, outs, W)

    def assume(self, I, st, v):
        if v.op == "call" and v.a[0].split("::")[-1] in ("is_empty", "isempty") and len(v.a) == 2 and is_line(v.a[1]):
            return TRUE if self.empty else FALSE
        if v.op == "bin" and v.a[0] in ("Eq", "Ne") and any(is_line(x) for x in v.a[1:]) and any(is_const(x) and cval(x) == "" for x in v.a[1:]):
            return FALSE if (v.a[0] == "Eq") != self.empty else TRUE
        return super().assume(I, st, v)

    # -- the graph between the text and what is written
    def next(self, v):
        """what of v is text"""
        if v.op == "call":
            n = v.a[0].split("::")[-1]
            if n in NUMBERS or v.a[0].startswith("local:") and v.a[0][6:] in self.C.whole_paths:
                return []
            if n in ("repeat", "get", "index", "replace", "replacen") or n in WHOLE and n != "join":
                return [x for x in v.a[1:2] if isinstance(x, V)]
        if v.op == "slice":
            return [v.a[0]]
        if v.op == "call" and v.a[0].startswith("local:") and not self.C.texts(v.a[0][6:]):
            return []
        if v.op in ("collect", "list", "concat") and len(v.a) == 3:
            return [x for x in v.a[2] if isinstance(x, V)]
        if v.op == "gen":
            return [x for x in v.a[1] if isinstance(x, V)] if v.a[0].startswith("written by ") and v.a[0][11:] in self.C.recorder_names and v.a[1].__class__ is tuple else []
        return self.parts(v)[0]

    def flow(self):
        """(values on the way from the text to what is written, who uses what)"""
        users, seen, todo, good = {}, set(), [], []
        for ret, s, fr in self.outs:
            todo += self.targets(s, ret)
        seen.update(todo)
        while todo:
            x = todo.pop()
            if self.leaf(x) or is_line(x):
                good.append(x)
                continue
            for y in self.next(x):
                users.setdefault(y, []).append(x)
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        on = set(good)
        while good:
            for y in users.get(good.pop(), ()):
                if y not in on:
                    on.add(y)
                    good.append(y)
        return on, users, seen

    def bare(self, v, on, memo):
        """is it the text, or a piece of it, and nothing else?"""
        if v in memo:
            return memo[v]
        memo[v] = False
        if self.leaf(v) or is_line(v):
            memo[v] = True
        elif v in on and v.op != "cat":
            memo[v] = any(self.bare(y, on, memo) for y in self.next(v))
        return memo[v]

    def last(self, v, seen=None):
        """what v ends with, white space aside"""
        seen = set() if seen is None else seen
        if v in seen:
            return set()
        seen.add(v)
        if v.op == "cat":
            if is_const(v.a[1]) and not str(cval(v.a[1])).strip():
                return self.last(v.a[0], seen)
            return self.last(v.a[1], seen)
        if v.op in ("phi", "alt"):
            return {z for y in self.parts(v)[0] for z in self.last(y, seen)}
        return {v}

    def steps_of(self, x, on, memo, kind):
        """why what x does to the text may change it (None: it does not)"""
        if self.leaf(x) or is_line(x):
            return None
        if x.op in ("collect", "list", "concat") and len(x.a) == 3:
            bad = [str(k[0] if isinstance(k, tuple) else k) for k in x.a[1]]
            bad = [k for k in bad if k in content.SHAPES + ("filter", "filter_map", "flat_map") and self.fld is not None]
            return "only some of it is taken (%s)" % ", ".join(bad) if bad else None
        if x.op == "call":
            n = x.a[0].split("::")[-1]
            if n.startswith("result of "):
                return None
            if x.a[0].startswith("local:"):
                w = self.C.changes(x.a[0][6:])
                if w & CASE:
                    return "its letter case is changed"
                return None if self.fld is None and not w else f"it goes through {n}"
            if n in ("lines", "split", "split_inclusive", "split_terminator"):
                if n != "lines" and not (len(x.a) > 2 and is_const(x.a[2]) and str(cval(x.a[2])) == "\n"):
                    return f"it is split ({n})"
                return None
            if n == "join":
                return None if len(x.a) > 2 and is_const(x.a[2]) and str(cval(x.a[2])).startswith("\n") else "its pieces are joined"
            if n in ("replace", "replacen"):
                a = [cval(y) if is_const(y) else None for y in x.a[2:4]]
                return None if a[0] == "\n" and str(a[1]).startswith("\n") or self.fld is None and blank(a[0]) and blank(a[1]) else f"it goes through {n}"
            if n in ("trim_end", "trim_end_matches", "strip_suffix", "trim", "trim_start", "trim_matches", "trim_start_matches"):
                if self.fld is None and len(x.a) == 2:
                    return None
                end = n in ("trim_end", "trim_end_matches", "strip_suffix")
                if not self.bare(x.a[1], on, memo):
                    if end and (kind != "CodeBlock" or not any(y in on for y in self.last(x.a[1]))):
                        return None
                elif kind == "FrontMatter" and n == "trim" or kind in ("FrontMatter", "HtmlBlock") and end:
                    return None
                return f"it goes through {n}"
            return None if n in WHOLE or n in ("repeat", "get") or self.fld is None and n in ("first", "last") else f"it goes through {n}"
        return None if x.op in STRUCT else f"it goes through {x.op}"

    def altered(self, kind):
        """what is done to the text on its way"""
        on, users, seen = self.flow()
        memo, out = {}, []
        for x in on:
            w = self.steps_of(x, on, memo, kind)
            if w and w not in out:
                out.append(w)
        # a call that was not looked into, with the text among its arguments
        for x in seen:
            if x.op == "gen" and x.a[0].startswith("written by ") and x.a[1].__class__ is tuple and any(a.__class__ is V and a in on for a in x.a[1]):
                if x.a[0][11:] not in self.C.recorder_names:
                    out.append("it is handed to " + x.a[0][11:])
        if kind in BLOCK and any(is_line(x) for x in on):
            w = self.run_on(on, users, memo)
            if w:
                out.append(w)
            if any(x in self.cut for x in on):
                out.append("only some of its lines are taken")
        return sorted(out), len(on)

    def ended(self, v):
        """a line that comes with its end"""
        return any(x.op == "elem" and x.a[0].op == "call" and x.a[0].a[0].endswith("split_inclusive") or x.op == "sym" and x.a[0] == LINE + "+" for x in walk(v))

    def run_on(self, on, users, memo):
        """does anything but the end of the line follow a line?"""
        todo = [x for x in on if x.op == "cat" and x.a[1] in on and self.bare(x.a[1], on, memo) and not self.ended(x.a[1])]
        seen = set(todo)
        while todo:
            x = todo.pop()
            for u in users.get(x, ()):
                if u.op == "cat" and u.a[0] is x:
                    if is_const(u.a[1]) and str(cval(u.a[1])).startswith("\n"):
                        continue
                    if not (is_const(u.a[1]) and cval(u.a[1]) == ""):
                        return "a line is followed by something else (%s)" % show(u.a[1], 0, 3)[:60]
                elif u.op not in ("cat", "phi", "alt"):
                    continue
                if u not in seen:
                    seen.add(u)
                    todo.append(u)
        return None

    def unended(self):
        """is there a way through the loop over the lines that does not end the line?"""
        def site(p):
            return [{y for y in str({e[0]: e[1] for e in p.a[0][2]}.get(k, "")).split(",") if y.startswith("l")} for k in (-1, -2)]
        heads, seen, todo = set(), set(), [t for ret, s, fr in self.outs for t in self.targets(s, ret)]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "cat":
                todo += [x.a[0]] + [y for y in x.a[1:] if y.op == "phi"]
            elif x.op in ("phi", "alt"):
                todo += self.parts(x)[0]
                if x.op == "phi":
                    curs, hand = site(x)
                    if curs and not hand & curs:
                        heads.add(x)
        for h in heads:
            curs, _ = site(h)
            seen, todo = set(), [h]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "cat":
                    if not (is_const(x.a[1]) and "\n" in str(cval(x.a[1]))):
                        todo.append(x.a[0])
                elif x.op in ("phi", "alt"):
                    if x.op == "phi" and not site(x)[0] & curs:
                        return True
                    todo += self.parts(x)[0]
        return False

    def line_lost(self):
        """is some line not written on some way out?"""
        def want(v):
            if is_line(v):
                return True
            if self.leaf(v):
                return True
            if v.op == "elem" and v.a[0].op == "call" and v.a[0].a[0].split("::")[-1] in ("lines", "split", "split_inclusive", "split_terminator"):
                return False
            if v.op == "gen":
                return False
            return None
        for ret, s, fr in self.outs:
            memo = {}
            ts = self.targets(s, ret)
            if not any(self.has(t, want, memo) for t in ts):
                return "; ".join(show(t, 0, 6) for t in ts if t.op != "f")[:200]
        return None


# a helper that does one of these may do more to a rendering than move white space and put backslashes in
CHANGES = {"to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "make_ascii_lowercase", "make_ascii_uppercase", "replace", "replacen",
           "replace_range", "truncate", "pop", "remove", "retain", "drain", "filter", "filter_map", "take", "take_while", "skip", "skip_while", "step_by", "rev",
           "dedup", "dedup_by_key", "split_off", "split_once", "nth", "swap", "reverse", "sort", "rsplit", "splitn", "split_whitespace", "map_while", "strip_prefix",
           "strip_suffix", "trim_matches", "trim_end_matches", "trim_start_matches"}


CASE = {"to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "make_ascii_lowercase", "make_ascii_uppercase"}


def changes(C, path):
    """what the helper may do to what it is given, as far as the operations it makes use of go"""
    if path not in C.plain:
        bs = [b for b in C.P.bodies.values() if b.path == path and b.kind != "closure" and b.crate == "lib"]
        # what only asks something about a text does not change it
        asks = {b.id for b in C.P.bodies.values() if b.crate == "lib" and b.kind != "closure" and b.locals[0][0] != "()" and not mut_params(b) and not C.texts(b.path)}
        C.plain[path] = {x[0].split("::")[-1] for b in bs for i in C.g.reach([b.id], asks) for x in C.g.ext.get(i, ())} & CHANGES if bs else {"unknown"}
    return C.plain[path]


def task(t):
    C = STATE["C"]
    fn, kind, f, below = t
    b = C.P.bodies[fn]
    try:
        R = Flow(C, b, kind, f, below, (f,))
        what = below if f and below else kind
        bad, n = R.altered(what)
        lost = R.line_lost() if f and what in BLOCK and n and (not below or any(is_line(x) for x in R.flow()[0])) else None
        if f and what in BLOCK and n and any(is_line(x) for x in R.flow()[0]) and not R.unended() and Flow(C, b, kind, f, below, (f,), True).unended():
            bad.append("a line that is empty is left out")
        I = R.I
        return t, {"bad": bad, "n": n, "lost": lost, "counts": (I.nsteps, len(I.succ), len(I.ctxs), I.calls_resolved, I.calls_opaque), "fns": sorted(I.fns)}
    except Exception:                           # noqa
        import traceback
        return t, {"why": traceback.format_exc()[-1500:]}


def runs(C, tasks):
    STATE["C"] = C
    out = {}
    ex = ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork"))
    fs = [ex.submit(task, t) for t in tasks]
    try:
        for f in fs:
            t, res = f.result()
            if "why" in res:
                raise RuntimeError(f"{C.P.bodies[t[0]].path} {t[1:]}: " + res["why"])
            out[t] = res
    except BaseException:
        for p in list((ex._processes or {}).values()):
            p.kill()
        raise
    ex.shutdown()
    return out


def C22(r):
    r.rule("reached", "the renderer of documents is found, and texts are followed to what is written")
    r.rule("verbatim", "code, HTML, front matter, destinations and titles reach what is written as a whole or line by line, through nothing that changes, drops or reorders any of it")
    r.rule("lines", "every line of a block is written, and is followed by the end of the line")
    r.rule("rendered", "what was rendered for a child reaches what the container writes through nothing but layout (white space, indentation, backslashes)")
    P = prog()
    C = Content(r, P)
    C.plain = {}
    paths = {b.path: b.locals[0][0] for b in P.bodies.values() if b.crate == "lib" and b.kind != "closure"}
    C.texts = lambda p: any(x in paths.get(p, "str") for x in ("str", "String", "char", "Cow"))
    C.changes = lambda p: changes(C, p)
    ents = entries(C)
    r.ob("reached", "the renderer of documents", bool(ents), "no function of the library hands a node to a renderer", "")
    pool, seen = explore(C, ents)
    pool.ex.shutdown()
    tasks = []
    for (fn, kind) in sorted(seen, key=str):
        for f in TEXTS.get(kind, ()):
            tasks.append((fn, kind, f, None))
        for k, t in kids(pool, fn, kind).items() if kind in BELOW else ():
            if t[4] == k:
                tasks.append((fn, kind, None, k))
                tasks += [(fn, kind, f, k) for f in TEXTS.get(k, ()) if k in BLOCK + SPAN]
    res = runs(C, tasks)
    found = {}
    for t in tasks:
        fn, kind, f, below = t
        b, x = P.bodies[fn], res[t]
        text = (below if f and below else kind)
        what = f"{'text' if f.endswith('.0') else f} of {text}" if f else below if asked(pool, fn, kind) else "any child"
        if below:
            what += f" in {kind}"
        key = what
        rule = "verbatim" if f else "rendered"
        for w in x["bad"]:
            r.ob("lines" if w.startswith("a line") else rule, f"{key}: {w}" , False, f"{b.path}: {w}", b.span)
        if not x["bad"] and x["n"]:
            r.ob(rule, key, True, "", b.span)
        if f and text in BLOCK and x["n"]:
            r.ob("lines", key, x["lost"] is None, f"{b.path}: on a way out only this is written: {x['lost']}", b.span)
        if f:
            found[text] = found.get(text, 0) + x["n"]
        for n, y in zip(("analysis_steps", "supergraph_nodes", "call_contexts", "calls_inlined", "calls_modelled"), x["counts"]):
            r.count(n, y)
        fs = r.counts.setdefault("functions", [])
        fs += [y for y in x["fns"] if y not in fs]
        r.count("values_between_text_and_output", x["n"])
    for k in TEXTS:
        r.ob("reached", f"text of {k}", bool(found.get(k)), f"no text of {k} is found on the way to what is written", "")
    r.count("renderer_runs", len(tasks))
    return "other", EXPL


def asked(pool, fn, kind):
    x = pool.done.get(("child", fn, kind, None, BELOW[kind][0]))
    return bool(x and x["asked"])


EXPL = ("Every renderer is followed by abstract interpretation over MIR, helpers included, with the text of a node, one arbitrary line of it, and the rendering of one "
        "arbitrary child told apart. The graph of values between these and what is written is then gone through operation by operation.")
