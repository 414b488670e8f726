"""C21: every part of the document reaches the output.

Per (rendering function, kind of node): the function is followed with its node of that kind; calls that
render another node are summarised by an atom naming that node; one arbitrary child (the witness) is kept
apart from its siblings.  On every way out the written text must have been put together from the content of
the node and from the rendering of the witness."""
import multiprocessing
import os
import re
import time
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait

from engine import Interp, State
from ghost import G, gget, gset, init, track
from values import *
from checks.cli import prog
from checks.effects import Graph
from checks.context import ser_adt, writes, RECORDS
import models

BLOCKS = ("BlockQuote", "List", "DescriptionList", "CodeBlock", "HtmlBlock", "Paragraph", "Heading", "ThematicBreak", "Table", "Alert")
INLINES = ("Text", "SoftBreak", "LineBreak", "Code", "HtmlInline", "Emph", "Strong", "Link", "Image", "FootnoteReference")
# what the parser, with the extensions that are turned on, puts below each kind of node
BELOW = {"Document": BLOCKS + ("FrontMatter", "FootnoteDefinition"), "BlockQuote": BLOCKS, "Alert": BLOCKS, "Item": BLOCKS, "TaskItem": BLOCKS,
         "FootnoteDefinition": BLOCKS, "DescriptionDetails": BLOCKS, "List": ("Item", "TaskItem"), "DescriptionList": ("DescriptionItem",),
         "DescriptionItem": ("DescriptionTerm", "DescriptionDetails"), "DescriptionTerm": ("Paragraph",), "Table": ("TableRow",),
         "TableRow": ("TableCell",), "TableCell": tuple(x for x in INLINES if x not in ("SoftBreak", "LineBreak")),
         "Paragraph": INLINES, "Heading": tuple(x for x in INLINES if x not in ()), "Emph": INLINES, "Strong": INLINES, "Link": INLINES, "Image": INLINES}
FIELDS = {"FrontMatter": ("FrontMatter.0",), "Text": ("Text.0",), "Code": ("literal",), "HtmlInline": ("HtmlInline.0",), "HtmlBlock": ("literal",),
          "CodeBlock": ("literal", "info"), "Link": ("url", "title"), "Image": ("url", "title"), "FootnoteReference": ("name",),
          "FootnoteDefinition": ("name",), "Alert": ("title",)}
# the same, for one value at a time: (what, field, its value, the texts that may stand for it)
VALUES = {"Heading": [(f"level {k}", "level", k, "#{%d}\\s*" % k + {1: "|=+\\s*", 2: "|-+\\s*"}.get(k, "")) for k in range(1, 7)],
          "Alert": [("kind " + n, "alert_type", i, ".*" + n + ".*") for i, n in enumerate(("note", "tip", "important", "warning", "caution"))],
          "TaskItem": [("a tick", "symbol", 1, "\\[?x\\]?\\s*"), ("no tick", "symbol", 0, "\\[ \\]\\s*| ")]}
MARKS = {"SoftBreak": "a space or a line break", "LineBreak": "a line break or a space", "ThematicBreak": "a rule", "Emph": "a delimiter", "Strong": "a delimiter"}
NUMBERS = ("level",)             # fields that are numbers
CHILD, GRAND = sym("CHILD"), sym("GRAND")
SHAPES = ("rev", "take", "skip", "step_by", "take_while", "skip_while", "map_while", "last", "nth")


def is_ast(ty):
    return "arena_tree::Node<" in ty


def one_node(b):
    """parameters that are a node"""
    return [i for i in range(b.nargs) if is_ast(b.locals[i + 1][0]) and "[" not in b.locals[i + 1][0] and "Vec<" not in b.locals[i + 1][0]]


def mut_params(b):
    return [i for i in range(b.nargs) if b.locals[i + 1][0].startswith("&") and "mut " in b.locals[i + 1][0][:20]]


def plain(ty):
    """a type that carries no text"""
    return not any(x in ty for x in ("str", "String", "Node", "&", "Vec"))


def value_of(v):
    """the node whose value v is, and the fields on the way, or None"""
    path = []
    while v.op in ("f", "ref") or v.op == "obj" and v.a[0].op in ("f", "ref"):
        if v.op == "obj":
            v = v.a[0]
        elif v.op == "ref":
            n = [p[1] for p in v.a[1] if p[0] == "f"]
            path = n + path
            v = v.a[0]
        else:
            path.insert(0, v.a[1])
            v = v.a[0]
    if v.op == "obj":
        v = v.a[0]
    if len(path) >= 2 and path[0] == "data" and path[1] == "value":
        return v, path[2:]
    return None


def c_st(outs):
    return outs[0][1]


class Follow(Interp):
    """a number in the node that the run takes to have a value has it; the child at the position of the witness is the witness"""
    R = None

    def proj(self, v, p):
        r = super().proj(v, p)
        R = self.R
        if R is not None:
            if r.op == "f" and R.value is not None and R.fld in NUMBERS and r.a[1] == R.fld:
                x = value_of(r)
                if x is not None and x[0] is R.NODE and len(x[1]) > 1:
                    return kint(R.value)
            if r.op == "idx":
                return R.at(self, r.a[0], r.a[1]) or r
        return r


class Run:
    def __init__(self, C, b, kind, field=None, below=None, value=None, texts=None, case=None):
        """field: what is to be written (None: the children); value: what that field is taken to be;
        texts: constants that stand for it (no field: any constant does);
        case: of values, whether the position of the witness is lower"""
        self.case, self.cuts, self.asks = case or {}, set(), set()
        self.C, self.b, self.kind, self.below, self.fld, self.value, self.texts = C, b, kind, below, field, value, texts
        P = C.P
        self.args = [sym(f"P{i}") for i in range(b.nargs)]
        k = one_node(b)[0]
        self.NODE = self.args[k]
        self.asked = False
        self.spans = {}
        self.badsite = {}
        self.bad = []
        self.had = self.met = False
        self.counted = set()
        self.cm = {}
        S = "core::slice::<impl [T]>::"
        N = "comrak::arena_tree::Node::<'a, T>::"
        I = self.I = Follow(P, assume=self.assume, recurse=self.recurse, track=track(["curs", "hand", "rec"]),
                            hooks={"std::iter::Iterator::any": self.h_any, "std::iter::Iterator::all": self.h_any, "std::ops::Index::index": self.h_index,
                                   S + "get": self.h_get, S + "first": self.h_get, S + "split_first": self.h_split, S + "split_last": self.h_split,
                                   N + "first_child": self.h_chain, N + "next_sibling": self.h_chain})
        I.R = self
        I.on_switch = self.on_switch
        I.keep_ghosts = tuple(G(x) for x in ("curs", "hand"))
        I.opaque_call = self.opaque
        I.on_elem = self.on_elem
        I.MAXPART = 120
        st = State()
        init(st, curs="", hand="", rec="no")
        self.want = self.field(self.NODE, field) if field else self.child() if texts is None else self.text
        self.outs = I.run(b, self.args, st)

    # -- which calls are followed
    def opaque(self, I, c, st, t, args):
        if t.kind == "closure":
            return False
        ns = one_node(t)
        if ns and ns[0] < len(args):
            if I.deep(st, args[ns[0]]) is not self.NODE:
                return True
            if t.id in self.C.source:
                return True
        if t.id in self.C.recorders:
            return True
        ms = mut_params(t)
        if ms:
            if not ns and self.C.size(t) > (20 if self.texts is None else 150) and not any(self.about(I.deep(st, a)) for i, a in enumerate(args) if i not in ms and not plain(t.locals[i + 1][0])):
                return True
            return t.id not in self.C.writers
        return not (ns or any(is_ast(t.locals[i + 1][0]) for i in range(t.nargs))) or not any(x in t.locals[0][0] for x in ("String", "bool", "char", "str"))

    def about(self, v):
        return any(x is self.NODE or x is CHILD or x.op in ("phi", "alt", "cat") and self.C.children_of(self.I, x, self.NODE) for x in walk(v))

    def recurse(self, I, c, st, target, args, front, rec):
        ns = one_node(target)
        dargs = tuple(UNIT if i in mut_params(target) else I.deep(st, x) for i, x in enumerate(args))
        if ns:
            node = dargs[ns[0]]
            if I.recording and target.id not in self.C.source and node is not self.NODE:
                if node is CHILD or node is GRAND:
                    for x in self.ghost(st, "hand"):
                        if x in self.badsite:
                            self.bad.append(("its children are gone through with " + self.badsite[x][0], self.badsite[x][1]))
                    self.spans.setdefault((target.name, node), (target.id, c.span))
        muts = mut_params(target)
        if not muts:
            return None
        if target.id not in self.C.writers and target.id not in self.C.recorders:
            return [(UNIT if target.locals[0][0] == "()" else mk("call", "local:" + target.path, *dargs), st, front)]
        olds = []
        # a function that is handed a buffer, or hands one back, renders to that; what else it does to the serializer is beside the point
        text = any("String" in target.locals[k + 1][0] for k in muts) or "String" in target.locals[0][0]
        for k in muts:
            if k >= len(args):
                continue
            for pl in I.deref_targets(st, args[k]):
                if "Serializer" in target.locals[k + 1][0]:
                    for f in self.C.sinks:
                        q = self.C.at(pl, f)
                        olds.append((q, I.load(st, q), text))
                else:
                    olds.append((pl, I.load(st, pl), False))
        new = mk("gen", "written by " + target.name, dargs, c.node[0:2])
        if target.id in self.C.recorders:
            memo = {}
            if any(self.has(a, self.want, memo) for a in dargs[1:]):
                gset(st, "rec", "yes")
        I.regenerate(st, new)
        for q, old, beside in olds:
            I.store(st, q, mk("cat", I.deep(st, old), mk("gen", "beside " + target.name, c.node[0:2]) if beside else new))
        if target.locals[0][0] == "()":
            return [(UNIT, st, front)]
        return [(mk("call", "result of " + target.name, new), st, front)]

    # -- what is taken for granted
    def assume(self, I, st, v):
        if v.op == "discr":
            x = value_of(v.a[0])
            if x is not None and not x[1]:
                if x[0] is self.NODE:
                    return kint(self.C.kinds.index(self.kind))
                if x[0] is CHILD:
                    self.asked = True
                    if self.below is not None:
                        return kint(self.C.kinds.index(self.below))
            if x is not None and x[0] is self.NODE and x[1] and x[1][-1] == self.fld:
                if self.value is not None:
                    return kint(self.value)
                return kint(1)
            if self.rest(v.a[0]):
                return kint(1)
            if v.a[0].op == "call" and v.a[0].a[0].split("::")[-1] in ("as_deref", "as_ref", "clone", "cloned", "as_deref_mut") and len(v.a[0].a) == 2:
                return self.assume(I, st, mk("discr", v.a[0].a[1]))
        if self.value is not None and v.op in ("f", "ref"):
            x = value_of(v)
            if x is not None and x[0] is self.NODE and x[1] and x[1][-1] == self.fld:
                return kint(self.value)
        if v.op == "call" and v.a[0].split("::")[-1] in ("is_empty", "isempty") and len(v.a) == 2:
            if self.full(v.a[1]):
                return FALSE
        if v.op == "bin" and len(v.a) == 3:
            x = self.ordered(v) or self.later(st, v)
            return x if x is not None else self.repeats(v)
        return None

    def full(self, v):
        """text or a list that is taken to be non-empty: it has what must be written"""
        if v in self.cm.setdefault("full", {}):
            return self.cm["full"][v]
        r = False
        for x in walk(v):
            y = value_of(x) if x.op in ("f", "ref") else None
            if y and y[1] and (y[0] is CHILD or y[0] is self.NODE and y[1][-1] == self.fld):
                r = True
            if self.C.is_children(x, self.NODE):
                r = True
            if x is CHILD:
                r = True
        self.cm["full"][v] = r
        return r

    def repeats(self, v):
        """the destination of a link compared with the rendering of its children, all of which are text: if they are equal, either is as good"""
        if self.below != "Text" or self.fld is not None or v.op != "bin" or v.a[0] != "Eq":
            return None
        def url(x):
            return any(y.op in ("f", "ref") and (value_of(y) or (None, ()))[0] is self.NODE and value_of(y)[1] and value_of(y)[1][-1] == "url" for y in walk(x))
        a, b = v.a[1], v.a[2]
        for x, y in ((a, b), (b, a)):
            if url(x) and self.has(y, self.want, {}):
                return FALSE
        return None

    # -- the witness among the children
    def on_elem(self, I, c, root, outs):
        where, ranged = root, False
        if root.op == "range" or root.op == "agg" and root.a[1] == "std::ops::Range":
            lo, hi = root.a if root.op == "range" else root.a[3]
            if not (hi.op == "call" and hi.a[0] == "len"):
                return outs
            where, ranged = hi.a[1], True
        W = CHILD
        if not self.C.children_of(I, where, self.NODE):
            if not self.C.children_of(I, where, CHILD):
                return outs
            W = GRAND
        if I.recording and W is CHILD:
            self.had = True
        cut = [self.C.reordered(I, where)] if self.C.reordered(I, where) else []
        there = True                # is the witness among what is gone through?

        def part(how, n):
            nonlocal there
            if n is kint(0) and how == "skip":
                return
            if W is not CHILD:
                cut.append(how)
                return
            self.cuts.add(n)
            lt = self.case.get(n)
            if lt is not None and lt == (how == "skip"):
                there = False
        if ranged:
            part("skip", I.deep(c_st(outs), lo))
        x = where
        while x.op == "slice":
            k = x.a[1]
            if k in ("RangeFrom", "Range"):
                part("skip", x.a[2])
            if k in ("RangeTo", "Range"):
                part("take", x.a[-1])
            if k in ("RangeInclusive", "RangeToInclusive"):
                cut.append("a range")
            x = x.a[0]
        for k, E in enumerate(I.shapes):
            if E.a[0] in ("skip", "take") and len(E.a) > 2 and all(y.a[0] not in SHAPES + ("filter", "filter_map") for y in I.shapes[k + 1:]):
                part(E.a[0], I.deep(c_st(outs), E.a[2]))
            elif E.a[0] in SHAPES:
                cut.append(E.a[0])
        while x.op in ("mut", "obj", "ref"):
            x = x.a[1 if x.op == "mut" else 0]
        if x.op in ("phi", "alt", "cat") and not self.has(x, lambda v: True if v is W else None, {}):
            there = False
        if not there:
            return outs
        site = str(self.C.site((c.node[0], c.node[1])))
        if cut and I.recording:
            self.badsite[site] = (", ".join(cut), c.span)
        return self.meet(site, outs, mk("index", W) if ranged else W)

    def meet(self, site, outs, W):
        res = []
        for v, s, f in outs:
            curs, hand = self.ghost(s, "curs"), self.ghost(s, "hand")
            if site in curs:
                gset(s, "hand", ",".join(sorted(hand - {site})))
                if v is None:
                    gset(s, "curs", ",".join(sorted(curs - {site})))
                res.append((v, s, f))
            elif v is not None:
                s2 = s.copy()
                res.append((v, s, f))
                gset(s2, "curs", ",".join(sorted(curs | {site})))
                gset(s2, "hand", ",".join(sorted(hand | {site})))
                res.append((W, s2, f))
        return res

    def ghost(self, st, name):
        return set((gget(st, name) or "").split(",")) - {""}

    def at(self, I, v, i):
        """the child at a position, if it is that of the witness or of another child"""
        if self.C.children_of(I, v, self.NODE) and v.op not in ("slice", "mut"):
            if i.op == "index" and len(i.a) == 1:
                return i.a[0]
            if is_const(i) and self.bounds() == (cval(i), cval(i)):
                return CHILD
        return None

    def h_index(self, I, c, st, fv, args, front):
        x = self.at(I, I.deep(st, args[0]), I.deep(st, args[1]))
        return [(x, st, front)] if x is not None else None

    def h_get(self, I, c, st, fv, args, front):
        x = self.at(I, I.deep(st, args[0]), I.deep(st, args[1]) if len(args) > 1 else kint(0))
        return [(models.some(x), st, front)] if x is not None else None

    def h_split(self, I, c, st, fv, args, front):
        """the first (or last) child and the others"""
        v = I.deep(st, args[0])
        if not self.C.children_of(I, v, self.NODE):
            return None
        if fv.a[1].endswith("first"):
            n = kint(0)
            rest = mk("slice", v, "RangeFrom", kint(1))
        else:
            n = mk("bin", "Sub", mk("call", "len", v), kint(1))
            rest = mk("slice", v, "RangeTo", n)
        x = self.at(I, v, n)
        if x is None and not is_const(n) and self.case.get(n) is False:
            x = CHILD
        return [(models.some(agg("tuple", "", 0, (x if x is not None else mk("idx", v, n), rest))), st, front)]

    # -- loops that count, or go from sibling to sibling
    def counter(self, v, final=False):
        """a number that starts at 0 (or where the witness cannot be before) and is only ever increased by one (the loop may not have settled yet)"""
        def leaves(x, head):
            seen, todo, out = {x}, [x], set()
            while todo:
                y = todo.pop()
                if y.op == "phi" and (y is not head or y is x):
                    for z, _ in self.I.alts_t.get(y, {}).values():
                        if z is head:
                            out.add(z)
                        elif z not in seen:
                            seen.add(z)
                            todo.append(z)
                else:
                    out.add(y)
            return out
        if v.op != "phi":
            return False
        start = False
        for x in leaves(v, v):
            if is_const(x):
                start = True
                if final and cval(x) not in range(self.bounds()[0] + 1):
                    return False
            elif x is not v and not (x.op == "bin" and x.a[0] == "Add" and x.a[2] is kint(1) and (x.a[1] is v or x.a[1].op == "phi" and leaves(x.a[1], v) == {v})):
                return False
        return start

    def on_switch(self, I, body, t, st, v, outs):
        """`while i < children.len()`: one more child"""
        if v.op != "bin" or v.a[0] not in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq"):
            return outs
        op, a, b = v.a
        if op in ("Gt", "Le"):
            op, a, b = {"Gt": "Lt", "Le": "Ge"}[op], b, a
        if op in ("Ne", "Eq") and a.op != "phi":
            a, b = b, a
        if not (b.op == "call" and b.a[0] == "len" and self.C.children_of(I, b.a[1], self.NODE)):
            return outs
        lo, hi = self.bounds()
        n = None
        if is_const(a):
            # the first times round
            if not self.C.counts(body, t[1]):
                return outs
            n = cval(a)
            self.asks |= {kint(n), kint(n + 1)} - {kint(0)}
        elif "n%s" % self.C.site(("count", b.a[1])) in self.ghost(st, "curs"):
            pass
        elif not self.counter(a):
            return outs
        else:
            self.counted.add(a)
        if I.recording:
            self.had = True
        res = []
        site = "n%s" % self.C.site(("count", b.a[1]))
        for blk, s, e in outs:
            t = I.known(s, v)
            more = None if t is None else (t is TRUE) == (op in ("Lt", "Ne"))
            curs, hand = self.ghost(s, "curs"), self.ghost(s, "hand")
            if more is False:
                if site in curs or n is not None:
                    gset(s, "curs", ",".join(sorted(curs - {site})))
                    gset(s, "hand", ",".join(sorted(hand - {site})))
                    if site in curs:
                        res.append((blk, s, e))
                continue
            if more and n is not None:
                if site not in curs and (lo, hi) == (n, n):
                    gset(s, "curs", ",".join(sorted(curs | {site})))
                    gset(s, "hand", ",".join(sorted(hand | {site})))
                else:
                    gset(s, "hand", ",".join(sorted(hand - {site})))
            elif more:
                if site not in curs:
                    s2 = s.copy()
                    memo = {}
                    W = mk("index", CHILD)
                    for k, x in list(s2.store.items()):
                        s2.store[k] = subst(x, {a: W}, memo)
                    s2.facts = {k: x for k, x in s2.facts.items() if not any(y is a for y in walk(k))}
                    gset(s2, "curs", ",".join(sorted(curs | {site})))
                    gset(s2, "hand", ",".join(sorted(hand | {site})))
                    res.append((blk, s2, e))
                gset(s, "hand", ",".join(sorted(hand - {site})))
            res.append((blk, s, e))
        return res

    def h_chain(self, I, c, st, fv, args, front):
        """`next = node.first_child()`, `next = child.next_sibling()`"""
        if not self.C.chained(c.body, c.node[1:]):
            return None
        first = fv.a[1].endswith("first_child")
        x = I.deep(st, args[0])
        al = [y for y in I.alts(x)] if x.op in ("phi", "alt") or x.op == "f" and I.has_phi_base(x) else [x]
        kids_ = mk("call", "comrak::arena_tree::Node::<'a, T>::children", self.NODE)
        sib = mk("elem", kids_)
        if first and x is not self.NODE or not first and not any(y is CHILD or y.op == "elem" and self.C.is_children(y.a[0], self.NODE)
                                                                 or y.op == "prev" and y.a[0] is sib for y in al):
            return None
        I.regenerate(st, sib)
        if I.recording:
            self.had = True
        site = "s%s" % self.C.site(("chain", c.body.id))
        outs = self.meet(site, [(sib, st, front), (None, st.copy(), front)], CHILD)
        return [(models.NONE if v is None else models.some(v), s, f) for v, s, f in outs]

    def lower(self, v):
        """a comparison of the position of the witness: (value, is it `lower than it`)"""
        op, a, b = v.a
        if op in ("Gt", "Le"):
            op, a, b = {"Gt": "Lt", "Le": "Ge"}[op], b, a
        W = mk("index", CHILD)
        if a is W and b is not W and op in ("Lt", "Ge"):
            return b, op == "Lt"
        return None

    def later(self, st, v):
        """the position of a sibling that comes after the witness, which does not come before n"""
        op, a, b = v.a
        if op in ("Gt", "Le"):
            op, a, b = {"Gt": "Lt", "Le": "Ge"}[op], b, a
        if a.op == "elem" and a.a[0].op == "range" and a.a[0].a[1].op == "call" and a.a[0].a[1].a[0] == "len":
            a = mk("index", mk("elem", a.a[0].a[1].a[1]))
        if op in ("Lt", "Ge") and self.case.get(b) is False and a.op == "index" and len(a.a) == 1 and a.a[0].op == "elem" \
                and self.C.children_of(self.I, a.a[0].a[0], self.NODE) and len(self.ghost(st, "curs")) == 1 and not self.ghost(st, "hand"):
            return FALSE if op == "Lt" else TRUE
        return None

    def bounds(self):
        """what is known of the position of the witness, where it is compared with constants"""
        lo, hi = 0, None
        for n, lt in self.case.items():
            if is_const(n):
                if lt:
                    hi = cval(n) - 1 if hi is None else min(hi, cval(n) - 1)
                else:
                    lo = max(lo, cval(n))
        return lo, hi

    def ordered(self, v):
        if v.a[0] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return None
        W = mk("index", CHILD)
        if v.a[1] is not W and v.a[2] is not W:
            return None
        lo, hi = self.bounds()
        x = self.lower(v)
        if x is not None:
            n, yes = x
            if is_const(n):
                if hi is not None and hi < cval(n):
                    return TRUE if yes else FALSE
                if lo >= cval(n):
                    return FALSE if yes else TRUE
            elif n in self.case:
                return TRUE if self.case[n] == yes else FALSE
            else:
                self.asks.add(n)
            return None
        a, b = v.a[1:] if v.a[1] is W else (v.a[2], v.a[1])
        if is_const(b):
            n = cval(b)
            if v.a[0] in ("Eq", "Ne"):
                if lo == n == hi:
                    return TRUE if v.a[0] == "Eq" else FALSE
                if n < lo or hi is not None and n > hi:
                    return FALSE if v.a[0] == "Eq" else TRUE
            else:                   # Gt: the position is higher than n
                gt = TRUE if lo > n else FALSE if hi is not None and hi <= n else None
                return gt if gt is None or v.a[0] in ("Gt", "Lt") else (FALSE if gt is TRUE else TRUE)
        return None

    def h_any(self, I, c, st, fv, args, front):
        """a question about the children that the witness settles"""
        E = I.val(st, args[0])
        if self.below is None or not self.C.children_of(I, I.deep(st, E), self.NODE) or E.op == "iter" and E.a[0] in SHAPES + ("filter", "map", "enumerate"):
            return None
        want = TRUE if fv.a[1].endswith("::any") else FALSE
        rec, I.recording = I.recording, 0
        rs = [I.val(s, r) for r, s, f in I.apply(c, st.copy(), args[1], [CHILD], front, ("witness",))]
        I.recording = rec
        if rs and all(r is want for r in rs):
            return [(want, st, front)]
        return None

    # -- what has been written
    def parts(self, v):
        """(values v may be made of, are all of them needed)"""
        I = self.I
        if v.op == "phi":
            return [x for x, _ in I.alts_t.get(v, {}).values() if x is not v and x.op != "never"], True
        if v.op == "alt":
            return list(v.a[0]), True
        if v.op == "f" and I.has_phi_base(v):
            return [x for x in I.alts(v) if x is not v and x.op != "never"], True
        if v.op in ("bin", "un", "discr", "cmp"):
            return [], False
        return list(children(v)), False

    def has(self, v, want, memo):
        """was v put together from something that satisfies `want`, whichever way it came to be?

        What goes round a loop has it if all that comes into the loop has it, or if the loop goes through
        the pieces of something that has it (which is taken not to be empty)."""
        g = {}
        index, low, on, stack, n = {}, {}, set(), [], 0

        def open_(x):
            nonlocal n
            if x in memo:
                return False
            w = want(x)
            if w is not None:
                memo[x] = w
                return False
            g[x] = self.parts(x)
            index[x] = low[x] = n
            n += 1
            stack.append(x)
            on.add(x)
            work.append((x, iter(g[x][0])))
            return True

        work = []
        open_(v)
        while work:
            x, it = work[-1]
            for y in it:
                if y in memo:
                    continue
                if y not in index:
                    if open_(y):
                        break
                elif y in on:
                    low[x] = min(low[x], index[y])
            else:
                work.pop()
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[x])
                if low[x] == index[x]:
                    scc = []
                    while True:
                        y = stack.pop()
                        on.discard(y)
                        scc.append(y)
                        if y is x:
                            break
                    self.settle(scc, g, memo)
        return memo[v]

    def settle(self, scc, g, memo):
        ins = set(scc)
        if len(scc) == 1 and scc[0] not in g[scc[0]][0]:
            ps, al = g[scc[0]]
            memo[scc[0]] = bool(ps) and all(memo[y] for y in ps) if al else any(memo[y] for y in ps)
            return
        for x in scc:
            memo[x] = True
        again = True
        while again:
            again = False
            for x in scc:
                if memo[x]:
                    ps, al = g[x]
                    if not (all(memo[y] for y in ps) if al else any(memo[y] for y in ps)):
                        memo[x] = False
                        again = True
        if not all(memo[x] for x in scc):
            outside = [y for x in scc if not g[x][1] for y in g[x][0] if y not in ins]
            if any(memo[y] and self.piece(y) for y in outside):
                for x in scc:
                    memo[x] = True

    def piece(self, y):
        """is it a piece of something that is gone through?"""
        seen, todo, memo = {y}, [y], {}
        while todo:
            x = todo.pop()
            if x.op == "elem" and self.has(x, self.want, memo):
                return True
            for z in self.parts(x)[0]:
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        return False

    def targets(self, s, ret):
        I = self.I
        out = [I.deep(s, ret)]
        for k in mut_params(self.b):
            pl = (mk("obj", self.args[k]), ())
            if "Serializer" in self.b.locals[k + 1][0]:
                out += [I.deep(s, I.load(s, self.C.at(pl, f))) for f in self.C.sinks]
            else:
                out.append(I.deep(s, I.load(s, pl)))
        return out

    def written(self):
        """is it written, on every way out?  (None: it is; else what is written instead)"""
        want = self.want
        if self.below is not None and not all(self.counter(a, True) for a in self.counted):
            return "a loop over the children that does not count from 0"
        for ret, s, fr in self.outs:
            if gget(s, "rec") == "yes":
                continue
            memo = {}
            self.met = bool(gget(s, "curs"))
            ts = self.targets(s, ret)
            if not any(self.has(t, want, memo) for t in ts):
                return "; ".join(show(t, 0, 6) for t in ts if t.op != "f")[:300]
        return None

    def mine(self, args):
        """the witness, or the witness among its children, if it is an argument"""
        return CHILD if CHILD in args else GRAND if GRAND in args else None

    def below_calls(self):
        """the functions whose rendering of the child is part of what is written"""
        I, seen, out = self.I, set(), {}
        for ret, s, fr in self.outs:
            todo = self.targets(s, ret)
            while todo:
                v = todo.pop()
                if v in seen:
                    continue
                seen.add(v)
                if v.op == "gen" and v.a[0].startswith("written by ") and v.a[1].__class__ is tuple and self.mine(v.a[1]):
                    n = v.a[0][11:], self.mine(v.a[1])
                    if n in self.spans:
                        out[self.spans[n][0], n[1] is GRAND] = self.spans[n][1]
                    continue
                todo += self.parts(v)[0]
        return out

    # -- wanted things
    def rest(self, v):
        """the source from the end of a child on: all that comes after it"""
        return v.op == "call" and v.a[0].startswith("local:") and v.a[0][6:] in self.C.source_paths and any(
            x.op in ("f", "ref") and self.ends(x) for y in v.a[2:] for x in walk(y))

    def ends(self, x):
        path = []
        while x.op in ("f", "ref") or x.op == "obj" and x.a[0].op in ("f", "ref"):
            if x.op == "obj":
                x = x.a[0]
            elif x.op == "ref":
                path = [p[1] for p in x.a[1] if p[0] == "f"] + path
                x = x.a[0]
            else:
                path.insert(0, x.a[1])
                x = x.a[0]
        if x.op == "obj":
            x = x.a[0]
        return "sourcepos" in path and "end" in path and x is not CHILD and any(self.C.children_of(self.I, y, self.NODE) for y in walk(x))

    def field(self, node, name):
        def want(v):
            if v.op in ("f", "ref"):
                x = value_of(v)
                if x is not None and x[0] is node:
                    if not x[1]:
                        return False
                    if name in x[1][-1:] or len(x[1]) > 1 and name in x[1]:
                        return self.value is None
            if self.value is not None and v.op == "call" and v.a[0].split("::")[-1] == "repeat" and len(v.a) == 3 and is_const(v.a[1]):
                n = self.number(v.a[2])
                return all(re.fullmatch(self.texts, str(cval(v.a[1])).lower() * k) for k in ((17, 50) if n is None else (n,)))
            if self.texts and self.text(v):
                return True
            if v.op == "call" and v.a[0].startswith("local:") and v.a[0][6:] in self.C.whole_paths and v.a[-1] in (node, self.NODE):
                return True
            return None
        return want

    def number(self, v):
        """the number that v is when the field has its value"""
        if is_const(v) and isinstance(cval(v), int):
            return cval(v)
        if v.op in ("cast", "ref", "obj") and v.a:
            return self.number(v.a[0] if v.op != "cast" else [x for x in v.a if isinstance(x, V)][0])
        if v.op == "f":
            x = value_of(v)
            return self.value if x is not None and x[0] is self.NODE and x[1] and x[1][-1] == self.fld else None
        if v.op in ("bin", "call") and len(v.a) == 3:
            a, b = self.number(v.a[1]), self.number(v.a[2])
            f = {"Add": lambda: a + b, "Sub": lambda: a - b, "min": lambda: min(a, b), "max": lambda: max(a, b)}.get(v.a[0].split("::")[-1])
            return f() if f and a is not None and b is not None else None
        if v.op == "call" and len(v.a) == 4 and v.a[0].split("::")[-1] == "clamp":
            a = [self.number(x) for x in v.a[1:]]
            return min(max(a[0], a[1]), a[2]) if None not in a else None
        return None

    def text(self, v):
        """a constant that may stand for what is to be written"""
        if v.op == "k" and v.a[0] in ("str", "char"):
            return bool(v.a[1]) if not self.texts else re.fullmatch(self.texts, str(v.a[1]).lower()) is not None
        return None

    def child(self):
        fields = FIELDS.get(self.below or "", ())
        main = fields[0] if fields and self.below not in ("Link", "Image", "FootnoteDefinition", "Heading") else None

        def want(v):
            if v.op == "gen" and v.a[0].startswith("written by ") and v.a[1].__class__ is tuple and self.mine(v.a[1]):
                return True
            if v.op == "call" and v.a[0].startswith("local:") and self.mine(v.a[1:]):
                return True
            if v.op == "call" and v.a[0].startswith("local:") and v.a[0][6:] in self.C.source_paths and self.NODE in v.a[1:]:
                return True
            if not self.met and self.rest(v):
                return True
            if main and v.op in ("f", "ref"):
                x = value_of(v)
                if x is not None and x[0] is CHILD and x[1] and x[1][-1] == main:
                    return True
            return None
        return want


def places(e, out):
    """the locals that an operand or a right-hand side reads"""
    if isinstance(e, list):
        if len(e) == 2 and e[0] in ("c", "m") and isinstance(e[1], list) and e[1] and isinstance(e[1][0], int):
            out.add(e[1][0])
        for x in e:
            places(x, out)
    return out


def reach(x, defs):
    seen, todo = set(), [x]
    while todo:
        for y in defs.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


class Content:
    def __init__(self, r, P):
        self.r, self.P = r, P
        self.adt = ser_adt(P)
        a = P.adts.get(self.adt)
        self.fields = {x[0]: i for i, x in enumerate(a["variants"][0][2])} if a else {}
        self.sinks = [f for f in ("output", "pending_references", "footnotes") if f in self.fields]
        nv = [k for k in P.adts if k.endswith("nodes::NodeValue")]
        self.kinds = [x[0] for x in P.adts[nv[0]]["variants"]] if nv else []
        g = self.g = Graph(P)
        lib = [b for b in P.bodies.values() if b.crate == "lib" and b.kind != "closure"]
        # functions that take text out of the source, rather than out of the tree
        base = [b for b in lib if "source_lines" in self.touches(b) and "String" in b.locals[0][0] and not mut_params(b)]
        ids = {b.id for b in base}
        self.source = set(ids)
        for b in lib:
            if one_node(b) and not mut_params(b) and "String" in b.locals[0][0] and set(g.out.get(b.id, ())) & ids:
                self.source.add(b.id)
        self.source_paths = {b.path for b in lib if b.id in self.source}
        self.whole_paths = {b.path for b in base}
        # functions that put something aside to be written later
        self.recorders = set()
        for b in lib:
            if one_node(b) or not mut_params(b):
                continue
            t = self.touches(b)
            if t & {"pending_references", "pending"} and not any(is_ast(b.locals[i + 1][0]) for i in range(b.nargs)) and not b.derived:
                if not any("output" in self.touches(g.ids[i]) for i in g.reach([b.id]) if i in g.ids):
                    self.recorders.add(b.id)
        self.recorder_names = {g.ids[i].name for i in self.recorders}
        self.sites, self.chains, self.steps = {}, {}, {}
        # functions that can add to some text
        direct = {b.id for b in P.bodies.values() if b.crate == "lib" and (
            {"output", "pending", "pending_references"} & self.touches(b) or any("String" in b.locals[i + 1][0] for i in mut_params(b)))}
        rev, todo = {}, list(direct)
        for x, ys in g.out.items():
            for y in ys:
                rev.setdefault(y, set()).add(x)
        self.writers = set()
        while todo:
            x = todo.pop()
            if x not in self.writers:
                self.writers.add(x)
                todo += rev.get(x, ())
        self.sizes = {}

    def size(self, b):
        if b.id not in self.sizes:
            self.sizes[b.id] = sum(len(self.g.ids[i].blocks) for i in self.g.reach([b.id]) if i in self.g.ids)
        return self.sizes[b.id]

    def touches(self, b):
        out = set()
        import json
        for bl in b.blocks:
            if not bl["cl"]:
                for e in json.loads(json.dumps([bl["s"], bl["t"]])), :
                    self._t(e, out)
        return out

    def _t(self, e, out):
        if isinstance(e, list):
            if len(e) == 4 and e[0] == "f" and isinstance(e[2], str):
                out.add(e[2])
            for x in e:
                self._t(x, out)
        elif isinstance(e, dict):
            for x in e.values():
                self._t(x, out)

    def at(self, pl, f):
        b, p = pl
        return (b, tuple(p) + (("f", f, self.fields[f]),))

    def site(self, k):
        return self.sites.setdefault(k, len(self.sites))

    def children_of(self, I, root, node):
        """is it the list of the children of that node, or a part of it?"""
        x = root
        while x.op in ("slice", "mut", "obj", "ref") and x.a:
            x = x.a[1 if x.op == "mut" else 0]
        if self.is_children(x, node):
            return True
        return x.op in ("phi", "alt", "cat") and self.copied(I, x, node)

    def copied(self, I, x, node):
        """a list put together from nothing but these children, one by one, in the order in which they are gone through"""
        if not any(y.op in ("item", "phi", "alt") for y in (x, *children(x))):
            return False
        seen, todo, some = {x}, [x], False
        while todo:
            y = todo.pop()
            if y.op == "phi":
                nxt = [v for v, _ in I.alts_t.get(y, {}).values()]
            elif y.op == "alt":
                nxt = list(y.a[0])
            elif y.op == "cat" and y.a[1].op == "item":
                z = y.a[1].a[0]
                if not (z is CHILD or z.op == "elem" and self.is_children(z.a[0], node) or z.op == "prev" and z.a[0].op == "elem" and self.is_children(z.a[0].a[0], node)):
                    return False
                some, nxt = True, [y.a[0]]
            elif y.op == "empty" or y.op == "never" or y.op == "agg" and not y.a[3]:
                continue
            else:
                return False
            for z in nxt:
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        return some

    def chained(self, b, nk):
        """is this call of first_child or next_sibling one of those that go from child to child in a loop?"""
        if b.id not in self.chains:
            defs, firsts, nexts = {}, {}, {}
            locals_in = places
            for i, bl in enumerate(b.blocks):
                for s in bl["s"]:
                    if isinstance(s[0], list) and s[0] and isinstance(s[0][0], int):
                        d = defs.setdefault(s[0][0], set())
                        d |= locals_in(s[1], set())
                        if isinstance(s[1], list) and s[1][0] == "ref":
                            d.add(s[1][2][0])
                t = bl["t"]
                if t[0] == "call" and isinstance(t[1], list) and t[1][0] == "k":
                    f = t[1][1].get("v", "")
                    if "Node" in f and f.endswith(("::first_child", "::next_sibling")):
                        (firsts if f.endswith("first_child") else nexts)[i] = (t[3][0], locals_in(t[2], set()))
                    elif t[3] and isinstance(t[3][0], int) and f.split("::")[-1] in ("deref", "clone", "branch", "into"):
                        defs.setdefault(t[3][0], set()).update(locals_in(t[2], set()))
            out = set()
            for i, (d, args) in nexts.items():
                seen, todo = set(args), list(args)
                while todo:
                    for y in defs.get(todo.pop(), ()):
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
                    # a loop: its own result comes back to it
                if d in seen:
                    out.add(i)
                    out |= {j for j, (d2, _) in firsts.items() if d2 in seen}
            self.chains[b.id] = out
        return nk[0] in self.chains[b.id]

    def counts(self, b, cond):
        """is the condition about something that changes round a loop?"""
        if b.id not in self.steps:
            defs = {}
            for bl in b.blocks:
                for s in bl["s"]:
                    if isinstance(s[0], list) and s[0] and isinstance(s[0][0], int):
                        defs.setdefault(s[0][0], set()).update(places(s[1], set()))
            self.steps[b.id] = {x: reach(x, defs) for x in defs}
        R = self.steps[b.id]
        return any(y in R.get(y, ()) for x in places(cond, set()) for y in {x} | R.get(x, set()))

    def is_children(self, x, node):
        return x.op == "call" and x.a[-1] is node and x.a[0].split("::")[-1] in ("children", "reverse_children") and "Node" in x.a[0]

    def reordered(self, I, root):
        for x in walk(root):
            if x.op == "mut":
                n = x.a[0].split("::")[-1]
                if n in ("reverse", "retain", "truncate", "pop", "remove", "swap_remove", "drain", "dedup", "clear", "sort", "sort_by", "sort_by_key",
                         "rotate_left", "rotate_right", "swap", "split_off"):
                    return f"changed by {n}"
        return None


# ---------------------------------------------------------------- the driver
STATE = {}


def task(t):
    """one run, in a process of its own: (what, function, kind, field, below) -> plain results"""
    what, bid, kind, fld, below = t
    C = STATE["C"]
    b = C.P.bodies[bid]
    t0 = time.time()
    try:
        if what == "value":
            _, f, val, texts = [x for x in VALUES[kind] if x[0] == fld][0]
            R = Run(C, b, kind, f, None, val, texts)
        elif what == "mark":
            R = Run(C, b, kind, None, None, None, "")
        else:
            R = Run(C, b, kind, fld, below)
        res = {"ok": True, "had": R.had, "asked": R.asked, "missing": R.written() if what != "child" or R.had else None, "bad": R.bad,
               "below": R.below_calls(), "exits": len(R.outs), "cases": 1}
        if what == "child" and R.had and (R.cuts or res["missing"] and R.asks):
            cases(C, b, kind, below, R, res)
    except Exception as e:                      # noqa
        import traceback
        return t, {"ok": False, "why": traceback.format_exc()[-1500:]}
    I = R.I
    res["counts"] = (I.nsteps, len(I.succ), len(I.ctxs), I.calls_resolved, I.calls_opaque)
    res["fns"] = sorted(I.fns)
    res["secs"] = round(time.time() - t0, 1)
    return t, res


def cases(C, b, kind, below, R, res):
    """again, for every order of the position of the witness and the positions it is compared with"""
    atoms = sorted(R.cuts | (R.asks if res["missing"] else set()), key=show)[:4]
    res["missing"], res["below"] = None, dict(res["below"])
    for bits in range(2 ** len(atoms)):
        case = {n: bool(bits >> k & 1) for k, n in enumerate(atoms)}
        if any(is_const(m) and is_const(n) and cval(m) <= cval(n) and case[m] and not case[n] for m in case for n in case):
            continue
        Q = Run(C, b, kind, None, below, case=case)
        res["cases"] += 1
        m = Q.written()
        if m is not None and res["missing"] is None:
            res["missing"] = m
        res["bad"] += [x for x in Q.bad if x not in res["bad"]]
        res["below"].update(Q.below_calls())


class Pool:
    def __init__(self, C):
        STATE["C"] = C
        self.ex = ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork"))
        self.done, self.flying = {}, {}

    def want(self, t):
        if t not in self.done and t not in self.flying:
            self.flying[t] = self.ex.submit(task, t)

    def stop(self):
        for p in list((self.ex._processes or {}).values()):
            p.kill()
        self.ex.shutdown(wait=False, cancel_futures=True)

    def wait(self):
        """what has become known since the last call"""
        fs = list(self.flying.values())
        if not fs:
            return []
        wait(fs, return_when=FIRST_COMPLETED)
        new = []
        for t, f in list(self.flying.items()):
            if f.done():
                del self.flying[t]
                _, res = f.result()
                if not res["ok"]:
                    self.stop()
                    raise RuntimeError(res["why"])
                self.done[t] = res
                new.append(t)
        return new




def place(ctx, kind):
    """where the children of a node of that kind in that place are: the nearest block, and the nearest link or image in it"""
    near, mark = ctx
    if kind not in INLINES:
        return kind, None
    return near, kind if kind in ("Link", "Image") else mark


def say(ctx):
    return " in ".join(x for x in (ctx[1], ctx[0]) if x)


def entries(C):
    """the renderers that the rest of the library calls"""
    out = set()
    for b in C.P.bodies.values():
        if b.crate != "lib" or b.derived or any(C.adt in b.locals[i + 1][0] for i in range(b.nargs)):
            continue
        if b.kind == "closure" or not any(is_ast(b.locals[i + 1][0]) for i in range(b.nargs)):
            continue
        for y in C.g.out.get(b.id, ()):
            t = C.g.ids.get(y)
            if t is not None and t.crate == "lib" and one_node(t) and any(C.adt in t.locals[i + 1][0] for i in mut_params(t)):
                out.add(t.id)
    return out


def explore(C, ents):
    """every renderer with every kind of node that gets there, from the renderers of documents on"""
    pool = Pool(C)
    seen, todo = {}, []          # (function, kind) -> places

    def reach(fn, kind, ctx):
        k = seen.setdefault((fn, kind), set())
        if ctx not in k:
            k.add(ctx)
            todo.append((fn, kind, ctx))

    for e in ents:
        reach(e, "Document", ("Document", None))
    parts = {}                   # (function, kind) -> tasks whose results matter
    while True:
        while todo:
            fn, kind, ctx = todo.pop()
            for t in own(fn, kind):
                pool.want(t)
            if kind in BELOW:
                # the slow ones first: most of the renderers ask what the child is
                pool.want(("child", fn, kind, None, BELOW[kind][0]))
                t = ("child", fn, kind, None, BELOW[kind][0])
                if t in pool.done:
                    spread(C, pool, reach, t, ctx)
        new = pool.wait()
        if not new and not todo and not pool.flying:
            break
        for t in new:
            what, fn, kind, f, below = t
            if what == "child":
                for ctx in list(seen[(fn, kind)]):
                    spread(C, pool, reach, t, ctx)
        if todo:
            continue
    return pool, seen


def C21(r):
    P = prog()
    r.rule("reached", "the renderer of documents is found, and the witness child is met in it")
    r.rule("own-text", "whatever is rendered, the text of the node itself (literal, code, destination, title, name, info string, level) is part of what is written on every way out, or is recorded to be written later")
    r.rule("children", "the rendering of every child is part of what is written on every way out")
    r.rule("order", "children are rendered in their order, none is skipped")
    r.rule("mark", "what stands for a node without text of its own is written on every way out")
    C = Content(r, P)
    ents = entries(C)
    r.ob("reached", "the renderer of documents", bool(ents), "no function of the library hands a node to a renderer", "")
    pool, seen = explore(C, ents)
    report(r, C, pool, seen)
    return "other", EXPL


def own(fn, kind):
    """the runs about the text of the node itself"""
    return ([("field", fn, kind, f, None) for f in FIELDS.get(kind, ())] + [("value", fn, kind, x[0], None) for x in VALUES.get(kind, ())]
            + ([("mark", fn, kind, None, None)] if kind in MARKS else []))


def kids(pool, fn, kind):
    """the runs that stand for the child kinds: below kind -> task"""
    first = ("child", fn, kind, None, BELOW[kind][0])
    res = pool.done.get(first)
    if res is None:
        return {}
    return {k: ("child", fn, kind, None, k if res["asked"] else BELOW[kind][0]) for k in BELOW[kind]}


def spread(C, pool, reach, t, ctx):
    what, fn, kind, f, below = t
    for k, tt in kids(pool, fn, kind).items():
        pool.want(tt)
        if tt in pool.done:
            for g, deeper in pool.done[tt]["below"]:
                if not deeper:
                    reach(g, k, place(ctx, kind))
                for kk in BELOW.get(k, ()) if deeper else ():
                    reach(g, kk, place(place(ctx, kind), k))


def report(r, C, pool, seen):
    P = C.P
    for (fn, kind), ctxs in sorted(seen.items(), key=str):
        b = P.bodies[fn]
        for ctx in sorted(ctxs, key=str):
            where = say(ctx) if kind != "Document" and ctx[0] != kind else ""
            here = f"{kind} in {where}" if where else kind
            for t in own(fn, kind):
                f = t[3] or MARKS[kind]
                res = pool.done[t]
                r.ob("mark" if t[0] == "mark" else "own-text", f"{f.split('.')[0] if f.endswith('.0') else f} of {here}", res["missing"] is None,
                     f"{b.path}: on a way out only this is written: {res['missing']}", b.span)
            for k, t in kids(pool, fn, kind).items() if kind in BELOW else ():
                res = pool.done[t]
                if not res["had"]:
                    r.ob("children", f"{k} below {here}", False, f"{b.path}: the children of the node are never visited", b.span)
                    continue
                r.ob("children", f"{k} below {here}", res["missing"] is None,
                     f"{b.path}: on a way out only this is written: {res['missing']}", b.span)
                for msg, sp in res["bad"]:
                    r.ob("order", f"{k} below {here}", False, f"{b.path}: {msg}", sp)
                if not res["bad"]:
                    r.ob("order", f"{k} below {here}", True, "", b.span)
    for t, res in pool.done.items():
        a = res["counts"]
        for n, x in zip(("analysis_steps", "supergraph_nodes", "call_contexts", "calls_inlined", "calls_modelled"), a):
            r.count(n, x)
        fs = r.counts.setdefault("functions", [])
        fs += [x for x in res["fns"] if x not in fs]
    r.count("renderer_runs", len(pool.done))
    r.count("renderers", len({fn for fn, _ in seen}))
    r.count("renderer_kind_pairs", len(seen))
    pool.ex.shutdown()
    if os.environ.get("SA_SLOW"):
        for x in sorted(((res["secs"],) + t for t, res in pool.done.items()), key=lambda x: -x[0])[:30]:
            print(x)


EXPL = ("Every function that renders a node is followed by abstract interpretation over MIR with a node of each kind that can get there, once per kind of its children, "
        "with one arbitrary child told apart from the others; calls that render another node are summarised and analysed on their own, from the renderer of "
        "documents downwards. On every way out of each, what is written is searched for the text of the node and for the rendering of that child.")
