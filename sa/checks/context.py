"""C24: rendering context is restored after nested content."""
from engine import Interp, State
from values import *
from checks.cli import prog
from checks.effects import Graph, places
from checks.formatters import asts, self_ty
from program import Missing

# what nested content may see changed; anything else a renderer writes is a record (output, warnings, definitions, …)
CONTEXT = ("list_type", "list_tight", "list_item_index", "list_depth", "ordered_list_max_items", "list_item_indent", "in_block_quote",
           "blockquote_prefix", "blockquote_outer_indent", "blockquote_entry_list_depth", "in_description_details")
FLAGS = ("description_details_first_list",)      # off except while the content it is about is rendered
COUNT = ("list_item_index",)                     # an item counts itself; the list it is in starts the count and restores it
RECORDS = ("output", "options", "source_lines", "pending_references", "emitted_references", "footnotes", "skip_mode", "warnings",
           "source_ends_with_newline", "directive_proper_nouns", "directive_common_nouns", "code_formatter_callback")


def ser_adt(P):
    k = [k for k in P.adts if k.endswith("::Serializer")]
    return k[0] if k else None


def writes(b, adt):
    """fields of the serializer whose place a body assigns or borrows mutably"""
    out = set()
    for bl in b.blocks:
        if bl["cl"]:
            continue
        for s in bl["s"]:
            for e in s[0][1:]:
                if e[0] == "f" and e[3] == adt:
                    out.add(e[2])
            rv = s[1]
            if rv[0] == "ref" and rv[1]:
                ps = []
                places(rv, ps)
                for p in ps:
                    for e in p[1:]:
                        if e[0] == "f" and e[3] == adt:
                            out.add(e[2])
        t = bl["t"]
        if t[0] == "call":
            for e in t[3][1:]:
                if e[0] == "f" and e[3] == adt:
                    out.add(e[2])
    return out


class Ctx:
    def __init__(self, r, P):
        self.P, self.r = P, r
        self.adt = ser_adt(P)
        a = P.adts.get(self.adt)
        self.fields = {x[0]: i for i, x in enumerate(a["variants"][0][2])} if a else {}
        self.ctx = [f for f in self.fields if f not in RECORDS]
        g = self.g = Graph(P)
        short_adt = self.adt
        self.w = {}
        for b in P.bodies.values():
            if b.crate == "lib":
                self.w[b.id] = {f for f in writes(b, self.name_in(b)) if f in self.ctx}
        self.renderers = sorted((b for b in P.bodies.values() if b.crate == "lib" and b.kind != "closure" and asts(b) and
                                 "Serializer" in " ".join(b.locals[k + 1][0] for k in range(b.nargs))), key=lambda b: b.path)
        self.saw = set()
        self.rid = {b.id for b in self.renderers}
        # helpers that write the context themselves, without going through a renderer
        self.helpers = {i for i in self.w if i not in self.rid and any(self.w[j] for j in g.reach([i], self.rid))}

    def name_in(self, b):
        return self.adt

    def opaque(self, b):
        return b.kind != "closure" and b.id not in self.helpers

    def mutself(self, b):
        return [k for k in range(b.nargs) if "Serializer" in b.locals[k + 1][0] and b.locals[k + 1][0].startswith("&") and "mut " in b.locals[k + 1][0][:20]]

    def recurse(self, I, c, st, target, args, front, rec):
        ks = self.mutself(target)
        if not ks:
            return None
        keep, olds = [], []
        for k in ks:
            for pl in I.deref_targets(st, args[k]):
                if "output" in self.fields:
                    olds.append((pl, I.load(st, self.at(pl, "output"))))
                for f in self.ctx:
                    keep.append((pl, f, I.load(st, self.at(pl, f))))
                if I.recording and target.id in self.rid and pl == (mk("obj", self.SELF), ()):
                    self.calls.append((target, c.span, {f: I.deep(st, v) for q, f, v in keep if q == pl}))
        old, I.recurse = I.recurse, None
        try:
            outs = I.opaque_local(c, st, target, args, front, rec)
        finally:
            I.recurse = old
        for v, s, f in outs:
            for pl, n, val in keep:
                I.store(s, self.at(pl, n), val)
            for pl, old in olds:
                new = mk("gen", "written by " + target.name, UNIT, c.node[0:2])
                I.regenerate(s, new)
                I.store(s, self.at(pl, "output"), mk("cat", old, new))
        return outs

    def at(self, pl, f):
        b, p = pl
        return (b, tuple(p) + (("f", f, self.fields[f]),))

    def run(self, b):
        I = Interp(self.P, opaque=self.opaque, recurse=self.recurse)
        args = [sym(f"P{i}") for i in range(b.nargs)]
        ks = self.mutself(b)
        self.SELF, self.calls = args[ks[0]] if ks else None, []
        outs = I.run(b, args)
        self.r.interp(I)
        return I, args, outs


def nested(r, C, b, I):
    """what the content below sees"""
    for target, span, fs in C.calls:
        ent = {f: mk("f", C.SELF, f, C.fields[f]) for f in fs}
        key = f"{b.name} renders {target.name}"
        alts = {f: I.alts(v) for f, v in fs.items()}
        if "blockquote_prefix" in fs:
            e = ent["blockquote_prefix"]
            ch = [x for x in alts["blockquote_prefix"] if x is not e]
            if ch:
                r.count("calls that render quoted content")
                okk = len(ch) == len(alts["blockquote_prefix"]) and all(x.op == "cat" and x.a == (e, kstr("> ")) for x in ch)
                r.ob("nested", f"{key}: prefix of quoted content", okk, f"is {[show(x, 0, 5) for x in alts['blockquote_prefix']]}, not the outer one and `> `", span)
                r.ob("nested", f"{key}: quoted content is in a quote", alts.get("in_block_quote", [TRUE]) == [TRUE], f"in_block_quote is {show(fs.get('in_block_quote'))}", span)
        if "list_depth" in fs:
            e = ent["list_depth"]
            ch = [x for x in alts["list_depth"] if x is not e]
            if ch:
                deeper = mk("bin", "Add", e, kint(1))
                r.ob("nested", f"{key}: depth", len(ch) == len(alts["list_depth"]) and all(x in (deeper, kint(0)) for x in ch),
                     f"is {[show(x, 0, 5) for x in alts['list_depth']]}, neither one deeper nor none", span)
                if deeper in ch:
                    r.count("calls that render list content")
                    lt = [sym(f"P{i}") for i in range(b.nargs) if "ListType" in b.locals[i + 1][0]]
                    if "list_type" in fs and lt:
                        r.ob("nested", f"{key}: kind of list", alts["list_type"] == [agg("adt", OPTION, 1, (lt[0],))] or alts["list_type"] == [some(lt[0])],
                             f"is {show(fs['list_type'], 0, 4)}", span)
                    tt = [sym(f"P{i}") for i in range(b.nargs) if b.locals[i + 1][0] == "bool"]
                    if "list_tight" in fs and len(tt) == 1:
                        r.ob("nested", f"{key}: tightness", alts["list_tight"] == tt, f"is {show(fs['list_tight'], 0, 4)}", span)
                    if "list_item_index" in fs:
                        r.ob("nested", f"{key}: items are counted from the start", alts["list_item_index"] == [kint(0)],
                             f"starts at {show(fs['list_item_index'], 0, 4)}", span)
                    C.saw.add("list")
                if kint(0) in ch and "blockquote_prefix" in fs:
                    r.ob("nested", f"{key}: no list left only in a quote", ent["blockquote_prefix"] not in alts["blockquote_prefix"],
                         "list depth is reset outside a block quote", span)
        if "blockquote_prefix" in fs and ent["blockquote_prefix"] not in alts["blockquote_prefix"]:
            C.saw.add("quote")


def rooted(I, v, entry, need):
    """None if the text v is the entry text with something appended"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in seen or x is entry or x.op == "f" and entry.op == "f" and x.a[:2] == entry.a[:2]:
            continue
        seen.add(x)
        if x.op == "cat":
            todo.append(x.a[0])
        elif x.op == "mut" and x.a[0].startswith("local:"):
            need.add((x.a[0][6:], x.a[2]))      # a function handed the text itself
            todo.append(x.a[1])
        elif x.op in ("phi", "alt") or x.op == "f" and I.has_phi_base(x):
            ys = [y for y in I.alts(x) if y is not x]
            if not ys:
                return show(x, 0, 4)
            todo += ys
        else:
            return show(x, 0, 4)
    return None


def C24(r):
    r.rule("restored", "on every way out of a function that renders nodes, each piece of context has the value it had on the way in, "
           "whatever the nodes it renders, given that the functions it calls restore it too")
    r.rule("flag-off", "a flag set for the content that follows is off again, or as before, on every way out")
    r.rule("nested", "while nested content is rendered the context describes it: quoted content has the outer prefix and one more `> `, list items "
           "are one deeper, of their list's kind and tightness, and counted from the start")
    r.rule("kept", "the text written so far is only ever appended to, or back when the function is done")
    r.rule("reached", "the functions that change the context are all analysed")
    P = prog()
    C = Ctx(r, P)
    r.ob("reached", "context of the renderer", bool(C.fields) and len(C.renderers) > 5, "the renderer's state is not found")
    changing = set()
    for b in C.renderers:
        I, args, outs = C.run(b)
        r.count("functions that render nodes")
        ks = C.mutself(b)
        nested(r, C, b, I)
        mine = set()
        for i in C.g.reach([b.id], C.rid - {b.id}):
            mine |= C.w.get(i, set())
        for f in C.ctx:
            if f not in mine:
                continue
            changing.add(f)
            bad = None
            for v, s, fr in outs:
                for k in ks:
                    entry = mk("f", args[k], f, C.fields[f])
                    x = I.deep(s, I.load(s, C.at((mk("obj", args[k]), ()), f)))
                    for y in I.alts(x):
                        if y is entry:
                            continue
                        if f in COUNT and y.op == "bin" and y.a[0] == "Add" and y.a[1] is entry:
                            continue
                        if f in FLAGS and y is FALSE:
                            continue
                        bad = show(y, 0, 5)
            r.ob("flag-off" if f in FLAGS else "restored", f"{b.name}: {f}", bad is None, f"is {bad} in the end", b.span if hasattr(b, "span") else "")
            r.count("context fields followed")
    n = 0
    if "output" in C.fields:
        fs = [b for b in sorted(P.bodies.values(), key=lambda x: x.path) if b.crate == "lib" and b.kind != "closure" and "serialize" in b.path]
        by_path = {b.path: b for b in fs}
        todo = [(b, None) for b in fs if C.mutself(b)]
        done = set()
        while todo:
            b, param = todo.pop()
            if (b.id, param) in done:
                continue
            done.add((b.id, param))
            I, args, outs = C.run(b)
            n += 1
            bad, need = None, set()
            for v, s, fr in outs:
                for k in C.mutself(b) if param is None else [param]:
                    if param is None:
                        entry, pl = mk("f", args[k], "output", C.fields["output"]), C.at((mk("obj", args[k]), ()), "output")
                    else:
                        entry, pl = args[k], (mk("obj", args[k]), ())
                    bad = bad or rooted(I, I.deep(s, I.load(s, pl)), entry, need)
            r.ob("kept", b.name + (f", parameter {param + 1}" if param is not None else ""), bad is None, f"the text ends up as {bad}", b.span if hasattr(b, "span") else "")
            todo += [(by_path[p], k) for p, k in need if p in by_path]
        r.ob("reached", "functions that write text", n > 10, f"only {n} found")
    for k, f in (("list", "list_depth"), ("quote", "blockquote_prefix")):
        r.ob("reached", f"{k} content", k in C.saw or f not in C.fields, f"no function renders {k} content")
    r.ob("reached", "context that is changed", bool(changing), "nothing changes the context")
    return "other", "Modular value analysis of every node renderer with callees taken to restore what they change. "
