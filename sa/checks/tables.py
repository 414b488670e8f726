"""C26: the delimiter row of a table says how its columns are aligned.

The renderer of tables is interpreted once per alignment, every column being taken to have it; each thing appended to a text is
recorded, and what is put between two `|` and has a line of dashes in it is a delimiter."""
import re

import models
from program import Missing
from values import *
from checks.cli import prog
from checks.content import Content, Run, is_ast, mut_params, one_node

WANT = {"None": "-", "Left": ":-", "Right": "-:", "Center": ":-:"}


def is_alignment(t):
    return t.split("::")[-1] == "TableAlignment"


class Aligned(Run):
    def __init__(self, C, b, variant):
        self.variant, self.forced, self.made = variant, 0, set()
        old = models.cat

        def cat(x, y):
            v = old(x, y)
            self.made.add((x, y))
            return v
        models.cat = cat
        try:
            super().__init__(C, b, "Table")
        finally:
            models.cat = old

    def opaque(self, I, c, st, t, args):
        if not one_node(t) and any("TableAlignment" in t.locals[i + 1][0] for i in range(t.nargs)):
            return False
        return super().opaque(I, c, st, t, args)

    def assume(self, I, st, v):
        if v.op == "discr" and len(v.a) > 1 and isinstance(v.a[1], str) and is_alignment(v.a[1]):
            self.forced += 1
            return kint(self.variant)
        if v.op == "bin" and v.a[0] in ("Eq", "Ne"):
            for x in v.a[1:]:
                if x.op == "agg" and isinstance(x.a[1], str) and is_alignment(x.a[0]):
                    self.forced += 1
                    return kbool((x.a[2] == self.variant) == (v.a[0] == "Eq"))
        return super().assume(I, st, v)

    def before(self, v, been=()):
        """what may stand in a text behind its last `|`, as {(text, has a | been met)}; ? is anything"""
        if len(been) > 12:
            return {("?", False)}
        if v.op == "k" and v.a[0] in ("str", "char"):
            t = re.sub(r"\s", "", str(v.a[1]))
            return {(t.split("|")[-1], "|" in t)}
        if v.op in ("cat", "concat", "agg"):
            if v.op == "agg" and v.a[0] not in ("array", "tuple"):
                return {("?", False)}
            res = {("", False)}
            for x in reversed([x for x in (v.a[3] if v.op == "agg" else v.a) if x.__class__ is V]):
                if all(f for _, f in res):
                    break
                ys = self.before(x, been)
                res = {(t, f) if f else (re.sub("-+", "-", re.sub(r"\?+", "?", u + t)), g) for t, f in res for u, g in (ys if not f else [("", True)])}
                if len(res) > 200:
                    return {("?", False)}
            return res
        if v.op == "call":
            n = v.a[0].split("::")[-1]
            xs = [x for x in v.a[1:] if x.__class__ is V]
            if n in ("repeat", "repeat_n") and any(is_const(x) and str(x.a[1]) == "-" for x in xs):
                return {("-", False)}
            if n in ("to_string", "to_owned", "as_str", "into", "from", "clone", "collect", "deref", "as_ref", "borrow") and len(xs) == 1:
                return self.before(xs[0], been)
        if v.op in ("item", "items", "ref_to", "collect") and v.a and v.a[0].__class__ is V:
            return self.before(v.a[0], been)
        if v.op in ("phi", "alt"):
            xs = v.a if v.op == "alt" else [x for x, _ in self.I.alts_t.get(v, {}).values()]
            if not xs:
                return {("?", False)}
            if been.count(v) > 1:
                return set()
            return set().union(*[self.before(x, been + (v,)) for x in xs if x.__class__ is V])
        return {("?", False)}

    def delimiters(self):
        """the delimiters that are written: what stands between two `|`, white space left out"""
        res = set()
        for x, y in self.made:
            if not any(k.op == "k" and "|" in str(k.a[1]) for k in walk(y) if k.op == "k" and k.a[0] in ("str", "char")):
                continue
            if y.op != "k":
                continue
            end = re.sub(r"\s", "", str(y.a[1])).split("|")[0]
            for t, f in self.before(x):
                t = re.sub("-+", "-", t + end)
                if "-" in t and "?" not in t:
                    res.add(t)
        return res


def C26(r):
    r.rule("marker", "with every column taken to have one alignment, whatever the renderer of tables puts between two `|` as a line of "
                     "dashes has a colon exactly where that alignment asks for one")
    P = prog()
    C = Content(r, P)
    fs = [b for b in P.bodies.values() if b.crate == "lib" and b.kind != "closure" and not b.derived and one_node(b)
          and any("TableAlignment" in x[0] for x in b.locals) and any(C.adt in b.locals[i + 1][0] for i in mut_params(b))]
    if not fs:
        raise Missing("no renderer of nodes knows about the alignment of columns")
    adt = next((a for n, a in P.adts.items() if is_alignment(n)), None)
    names = [v[0] if isinstance(v, (list, tuple)) else v["name"] for v in (adt["variants"] if isinstance(adt, dict) else adt.variants)]
    for b in fs:
        for i, n in enumerate(names):
            if n not in WANT:
                continue
            A = Aligned(C, b, i)
            r.interp(A.I)
            got = A.delimiters()
            if not A.forced or not got:
                r.notes.append(f"not decided: {b.name}, columns with alignment {n}")
                continue
            for t in sorted(got):
                r.ob("marker", f"columns with alignment {n}", t == WANT[n],
                     "" if t == WANT[n] else f"{b.name} writes {t!r} instead of {WANT[n]!r} (dashes stand for any number of them)", b.span)
    r.assumptions.append("comrak's TableAlignment is what its parser made of the delimiter row")
    return "other", "MIR abstract interpretation of the renderer of tables, once per alignment; the terms of everything appended."
