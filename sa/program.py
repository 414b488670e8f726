"""Loads the MIR dumps and prepares per-body CFG facts (normalised blocks,
reverse post-order, liveness, switch-relevant locals)."""
import json
import re


class Body:
    __slots__ = ("id", "path", "name", "kind", "parent", "pub", "span", "self_ty",
                 "impl_trait", "derived", "nargs", "locals", "blocks", "promoted",
                 "crate", "upv", "_prep", "succ", "rpo", "live", "swl", "pi", "order",
                 "prom_of")

    def __repr__(self):
        return f"<{self.path}>"

    def prep(self):
        if self._prep:
            return
        self._prep = True
        bl = self.blocks
        # drops are no-ops for every property analysed here
        for b in bl:
            if b["t"][0] == "drop":
                b["t"] = ["goto", b["t"][2]]
        # collapse empty goto chains and switches whose targets all agree
        def final(i, seen=None):
            n = 0
            while bl[i]["t"][0] == "goto" and not bl[i]["s"] and n < 200:
                i = bl[i]["t"][1]
                n += 1
            return i
        changed = True
        rounds = 0
        while changed and rounds < 10:
            changed = False
            rounds += 1
            for b in bl:
                t = b["t"]
                if t[0] == "goto":
                    x = final(t[1])
                    if x != t[1]:
                        b["t"] = ["goto", x]
                        changed = True
                elif t[0] == "switch":
                    tg = [[v, final(x)] for v, x in t[2]]
                    ot = final(t[3])
                    if tg != t[2] or ot != t[3]:
                        b["t"] = ["switch", t[1], tg, ot, t[4]]
                        changed = True
                    live = {x for _, x in tg} | {ot}
                    if len(live) == 1:
                        b["t"] = ["goto", ot]
                        changed = True
                elif t[0] == "call" and t[4] >= 0:
                    x = final(t[4])
                    if x != t[4]:
                        b["t"] = t[:4] + [x] + t[5:]
                        changed = True
                elif t[0] == "assert":
                    x = final(t[3])
                    if x != t[3]:
                        b["t"] = t[:3] + [x] + t[4:]
                        changed = True
        self.succ = []
        for b in bl:
            t = b["t"]
            if b["cl"]:
                self.succ.append([])
            elif t[0] == "goto":
                self.succ.append([t[1]])
            elif t[0] == "switch":
                self.succ.append([x for _, x in t[2]] + [t[3]])
            elif t[0] == "call":
                self.succ.append([t[4]] if t[4] >= 0 else [])
            elif t[0] == "assert":
                self.succ.append([t[3]])
            else:
                self.succ.append([])
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        self.order = order
        self.rpo = {n: i for i, n in enumerate(order)}
        self._liveness()

    def _uses(self, b):
        """(use-before-def, def) whole locals of a block, backwards."""
        use, dfn = set(), set()

        def rd_place(p):
            use.add(p[0])
            for e in p[1:]:
                if e[0] == "i":
                    use.add(e[1])

        def rd_op(o):
            if o[0] in ("c", "m"):
                rd_place(o[1])

        def wr(p):
            if len(p) == 1:
                dfn.add(p[0])
                use.discard(p[0])
            else:
                rd_place(p)

        t = b["t"]
        if t[0] == "call":
            wr(t[3])
            rd_op(t[1])
            for o in t[2]:
                rd_op(o)
        elif t[0] in ("switch", "assert"):
            rd_op(t[1])
        elif t[0] == "return":
            use.add(0)
        for s in reversed(b["s"]):
            wr(s[0])
            rv = s[1]
            k = rv[0]
            if k in ("use", "repeat"):
                rd_op(rv[1])
            elif k == "cast":
                rd_op(rv[2])
            elif k == "un":
                rd_op(rv[2])
            elif k == "ref":
                rd_place(rv[2])
            elif k == "bin":
                rd_op(rv[2])
                rd_op(rv[3])
            elif k == "discr":
                rd_place(rv[1])
            elif k == "agg":
                for o in rv[4]:
                    rd_op(o)
        return use, dfn

    def _liveness(self):
        n = len(self.blocks)
        # local -> set of locals it (transitively) references
        refs = {}
        for b in self.blocks:
            for s in b["s"]:
                if s[1][0] == "ref" and len(s[0]) == 1:
                    refs.setdefault(s[0][0], set()).add(s[1][2][0])
                elif s[1][0] in ("use", "cast") and len(s[0]) == 1:
                    o = s[1][1] if s[1][0] == "use" else s[1][2]
                    if o[0] in ("c", "m") and self.locals[s[0][0]][0].startswith("&"):
                        refs.setdefault(s[0][0], set()).add(o[1][0])
        uses, defs = [], []
        for b in self.blocks:
            u, d = self._uses(b)
            more = True
            while more:
                more = False
                for x in list(u):
                    for y in refs.get(x, ()):
                        if y not in u:
                            u.add(y)
                            more = True
            uses.append(u)
            defs.append(d)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in reversed(self.order):
                out = set()
                for s in self.succ[i]:
                    out |= live[s]
                new = uses[i] | (out - defs[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        self.live = live
        # switch-relevant locals
        sw = set()
        for b in self.blocks:
            t = b["t"]
            if t[0] == "switch" and t[1][0] in ("c", "m"):
                sw.add(t[1][1][0])
            for s in b["s"]:
                if s[1][0] == "discr":
                    sw.add(s[1][1][0])
        ch = True
        while ch:
            ch = False
            for b in self.blocks:
                for s in b["s"]:
                    if s[0][0] in sw and len(s[0]) == 1:
                        rv = s[1]
                        ops = []
                        if rv[0] == "use":
                            ops = [rv[1]]
                        elif rv[0] == "un":
                            ops = [rv[2]]
                        elif rv[0] == "bin":
                            ops = [rv[2], rv[3]]
                        for o in ops:
                            if o[0] in ("c", "m") and o[1][0] not in sw:
                                sw.add(o[1][0])
                                ch = True
        self.swl = sw


def _mkbody(j, crate):
    b = Body()
    b.id = j.get("id", "").strip('"')
    b.path = j.get("path", "")
    b.name = j.get("name", "")
    b.kind = j.get("kind", "")
    b.parent = j.get("parent", "").strip('"')
    b.pub = j.get("pub", False)
    b.span = j.get("span", "")
    b.self_ty = j.get("self", "")
    b.impl_trait = j.get("impl_trait", "")
    b.derived = j.get("derived", False)
    b.nargs = j["args"]
    b.locals = j["locals"]
    b.blocks = j["blocks"]
    b.upv = j.get("upv", [])
    b.crate = crate
    b._prep = False
    b.prom_of = None
    b.promoted = []
    for p in j.get("promoted", []):
        pb = _mkbody(p, crate)
        pb.path = b.path + "{promoted}"
        pb.prom_of = b.id
        b.promoted.append(pb)
    return b


_WB = re.compile(r"\bwasm_bindgen::__rt::(?=core::|std::|alloc::)")
_HD = re.compile(r"\bhongdown::")


class Program:
    def __init__(self, files):
        self.bodies = {}
        self.adts = {}
        self.by_path = {}
        self.units = []
        for fn in files:
            txt = open(fn).read()
            txt = _WB.sub("", txt)
            if "/bin-" in fn:
                txt = _HD.sub("", txt)
            d = json.loads(txt)
            crate = "bin" if d["bin"] else "lib"
            n = 0
            for j in d["bodies"]:
                b = _mkbody(j, crate)
                self.bodies[b.id] = b
                self.by_path.setdefault(b.path, []).append(b)
                n += 1
            for p, a in d["adts"].items():
                if p not in self.adts or a.get("local"):
                    self.adts[p] = a
            self.units.append((crate, d["crate"], n))

    def fn(self, name, self_ty=None, crate=None, kind="fn", trait=None):
        """The unique non-derived body whose last path component is `name`."""
        c = [b for b in self.bodies.values()
             if b.name == name and b.kind == kind and not b.derived
             and (crate is None or b.crate == crate)
             and (self_ty is None or self_ty in b.self_ty)
             and (trait is None or trait in b.impl_trait)]
        return c

    def one(self, name, **kw):
        c = self.fn(name, **kw)
        if len(c) != 1:
            raise Missing(f"anchor `{name}` {kw}: {len(c)} candidates")
        return c[0]

    def at_path(self, path, crate=None):
        c = [b for b in self.by_path.get(path, []) if crate is None or b.crate == crate]
        if len(c) != 1:
            raise Missing(f"anchor path `{path}`: {len(c)} candidates")
        return c[0]

    def variant(self, adt, vi):
        a = self.adts.get(adt)
        if not a or vi >= len(a["variants"]):
            return None
        return a["variants"][vi]

    def variant_index(self, adt, name):
        a = self.adts.get(adt)
        if not a:
            raise Missing(f"type {adt} not seen")
        for i, v in enumerate(a["variants"]):
            if v[0] == name:
                return i
        raise Missing(f"variant {adt}::{name} not seen")


class Missing(Exception):
    """An anchor the rule needs is not in the analysed program."""
