"""A context-sensitive abstract interpreter over MIR.

Local calls and closures are inlined (recursion is cut), values are symbolic
provenance expressions, constants are propagated conditionally (infeasible
branches are pruned), states are partitioned on the constants that later
branches test, and everything else is joined: a join of different values is a
named `phi` whose alternatives are kept per incoming edge.  No path is ever
enumerated and no solver is used: the result is a fixpoint over the control
flow graph.

The result of a run: the control-flow supergraph with the events (calls) of each
node, and for every value its provenance.
"""
import heapq
from values import *
from program import Program, Body, Missing


class State:
    __slots__ = ("store", "facts")

    def __init__(self, store=None, facts=None):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        return State(dict(self.store), dict(self.facts))


class Event:
    __slots__ = ("kind", "path", "args", "raw", "ret", "facts", "span", "node", "fn", "info", "st")

    def __init__(self, kind, path, args, ret, facts, span, node, fn, info=None):
        self.kind, self.path, self.args, self.ret = kind, path, args, ret
        self.facts, self.span, self.node, self.fn, self.info = facts, span, node, fn, info

    def __repr__(self):
        return f"{self.kind}:{short(self.path)}({', '.join(show(a) for a in self.args)}) @{self.span}"


class Frame:
    __slots__ = ("body", "ctx", "parent", "site", "bases", "args")

    def __init__(self, body, ctx, parent, site):
        self.body, self.ctx, self.parent, self.site = body, ctx, parent, site
        self.bases = {}

    def base(self, l):
        b = self.bases.get(l)
        if b is None:
            b = self.bases[l] = mk("loc", self.ctx, l)
        return b


class TooBig(Exception):
    pass


class Interp:
    MAXPART = 24

    def __init__(self, prog, opaque=None, assume=None, models=None, hooks=None, budget=3_000_000,
                 recurse=None, maxdepth=40, track=()):
        import models as M
        self.P = prog
        self.opaque = opaque or (lambda b: False)
        self.assume_fn = assume
        self.models = M.TABLE
        self.hooks = hooks or {}
        self.budget = budget
        self.recurse = recurse
        self.merges = set()         # blocks at which partitions were merged for being too many
        self.on_switch = None       # (I, body, switch, state before, condition, [(block, state, edge)]) -> the same, changed
        self.keep_ghosts = ()       # ghosts that what happens inside a library's loop does not change
        self.shapes = []            # the iterator adapters around the iteration that is being asked for an element
        self.opaque_call = None     # (I, c, st, target, args) -> is this call not followed?
        self.maxdepth = maxdepth
        self.track = track            # object places whose const value splits partitions
        self.ctxs = {}                # (parent ctx, site) -> id
        self.ctxinfo = {}             # ctx id -> (body, parent ctx, span)
        self.alts_t = {}              # phi -> {edge: (value, facts)}
        self.expanded = set()
        self.dirty = False
        self.recording = 0
        self.memo = {}
        self.events = {}
        self.unroll = False
        self.conds = set()        # what undecided branches depend on
        self.succ = {}
        self.entry = None
        self.exits = []               # nodes that end the process (panic/exit)
        self.prom_cache = {}
        self.nsteps = 0
        self.fns = set()
        self.edges_facts = {}
        self.calls_resolved = 0
        self.calls_opaque = 0
        self.on_flat = None           # same, for the inner lists of flat_map/flatten
        self.on_elem = None           # (I, c, st, root, outcomes) -> outcomes of one next() on `root`

    # ------------------------------------------------------------ utilities
    def ctx(self, parent, site, body, span):
        k = (parent, site)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxs) + 1
            self.ctxinfo[c] = (body, parent, span)
        return c

    def stack_of(self, c):
        out = []
        while c:
            b, p, sp = self.ctxinfo[c]
            out.append((b.path, sp))
            c = p
        return out

    # values ------------------------------------------------------------
    def alts(self, v, seen=None, edges=False):
        """Non-phi alternatives of a value."""
        out = []
        self._alts(v, seen if seen is not None else set(), out, 0)
        res, s = [], set()
        for x in out:
            if x not in s:
                s.add(x)
                res.append(x)
        return res

    def _alts(self, v, seen, out, d):
        if v in seen:
            return
        if v.op == "phi":
            seen.add(v)
            self.expanded.add(v)
            for val, _ in list(self.alts_t.get(v, {}).values()):
                self._alts(val, seen, out, d + 1)
            return
        if v.op == "alt":
            seen.add(v)
            for x in v.a[0]:
                self._alts(x, seen, out, d + 1)
            return
        if v.op == "f" and self.has_phi_base(v.a[0]):
            seen.add(v)
            for b in self.alts(v.a[0]):
                self._alts(self.proj_key(b, v.a[1], v.a[2] if len(v.a) > 2 else None), seen, out, d + 1)
            return
        out.append(v)

    def has_phi_base(self, v):
        while v.op == "f":
            v = v.a[0]
        return v.op in ("phi", "alt")

    def proj_key(self, v, key, idx=None):
        return self.proj(v, ("f", key, idx))

    def proj(self, v, p):
        """p = ('f', key, idx) | ('idx', V) | ('ci', off, fromend) | ('ss',..)"""
        o = v.op
        if p[0] == "f":
            _, key, idx = p
            if o == "agg":
                if "." in key:
                    # enum variant field
                    var = self.P.variant(v.a[1], v.a[2])
                    vn = var[0] if var else {(OPTION, 1): "Some", (OPTION, 0): "None", (RESULT, 0): "Ok",
                                             (RESULT, 1): "Err", (CFLOW, 0): "Continue",
                                             (CFLOW, 1): "Break"}.get((v.a[1], v.a[2]), "?")
                    if vn != key.split(".")[0]:
                        return mk("never")
                if idx is not None and idx < len(v.a[3]):
                    return v.a[3][idx]
                return mk("f", v, key, idx)
            if o == "upd":
                for k, x in v.a[1]:
                    if k == key:
                        return x
                return self.proj(v.a[0], p)
            if o == "clo":
                return v.a[1][idx] if idx < len(v.a[1]) else mk("f", v, key, idx)
            if o == "ref":
                return mk("f", v, key, idx)
            if o == "never":
                return v
            return mk("f", v, key, idx)
        if p[0] == "idx":
            i = p[1]
            if o == "agg" and is_const(i) and cval(i) < len(v.a[3]):
                return v.a[3][cval(i)]
            return mk("idx", v, i)
        if p[0] == "ci":
            if o == "agg" and v.a[0] in ("array", "tuple"):
                n = len(v.a[3])
                j = n - p[1] if p[2] else p[1]
                if 0 <= j < n:
                    return v.a[3][j]
            return mk("idx", v, mk("k", "int", -p[1] if p[2] else p[1]))
        return mk("sub", v, *[str(x) for x in p[1:]])

    def update(self, v, proj, val):
        if not proj:
            return val
        p = proj[0]
        if p[0] == "f":
            _, key, idx = p
            if v.op == "agg" and idx is not None and idx < len(v.a[3]):
                fs = list(v.a[3])
                fs[idx] = self.update(fs[idx], proj[1:], val)
                return agg(v.a[0], v.a[1], v.a[2], fs)
            old = self.proj(v, p)
            new = self.update(old, proj[1:], val)
            if v.op == "upd":
                d = dict(v.a[1])
                d[key] = new
                return mk("upd", v.a[0], tuple(sorted(d.items(), key=lambda t: t[0])))
            return mk("upd", v, ((key, new),))
        old = self.proj(v, p)
        new = self.update(old, proj[1:], val)
        if p[0] == "idx":
            return mk("call", "store_idx", v, p[1], new)
        return mk("call", "store_idx", v, UNDEF, new)

    # places ------------------------------------------------------------
    def load(self, st, pl):
        base, proj = pl
        v = st.store.get(base)
        if v is None:
            v = base.a[0] if base.op == "obj" else UNDEF
        for p in proj:
            v = self.proj(v, p)
        return v

    def store(self, st, pl, val):
        base, proj = pl
        if not proj:
            st.store[base] = val
            return
        v = st.store.get(base)
        if v is None:
            v = base.a[0] if base.op == "obj" else UNDEF
        st.store[base] = self.update(v, proj, val)

    def deref_targets(self, st, v):
        """places a pointer value may designate"""
        n = 0
        if v.op == "ref":
            return [(v.a[0], v.a[1])]
        if v.op in ("phi", "alt") or (v.op == "f" and self.has_phi_base(v)):
            al = self.alts(v)
            refs = [x for x in al if x.op == "ref"]
            if refs:
                out = []
                for x in al:
                    if x.op == "ref":
                        out.append((x.a[0], x.a[1]))
                    elif x.op not in ("never", "undef"):
                        out.append((mk("obj", x), ()))
                return out
        return [(mk("obj", v), ())]

    def place(self, st, fr, pj):
        """MIR place -> list of (base, proj)"""
        cur = [(fr.base(pj[0]), ())]
        var = None
        for e in pj[1:]:
            k = e[0]
            if k == "*":
                nxt = []
                for pl in cur:
                    v = self.load(st, pl)
                    nxt += self.deref_targets(st, v)
                cur = nxt
                var = None
            elif k == "d":
                var = e[2]
            elif k == "f":
                owner = e[3]
                if owner.startswith("std::boxed::Box") or owner.startswith("std::ptr::"):
                    var = None
                    continue
                name = e[2] if e[2] else str(e[1])
                key = f"{var}.{name}" if var else name
                cur = [(b, p + (("f", key, e[1]),)) for b, p in cur]
                var = None
            elif k == "i":
                iv = self.load(st, (fr.base(e[1]), ()))
                cur = [(b, p + (("idx", iv),)) for b, p in cur]
            elif k == "ci":
                cur = [(b, p + (("ci", e[1], e[2]),)) for b, p in cur]
            elif k == "ss":
                cur = [(b, p + (("ss", e[1], e[2], e[3]),)) for b, p in cur]
        return cur

    def load_places(self, st, pls):
        vals = []
        for pl in pls:
            v = self.load(st, pl)
            if v not in vals and v.op != "never":
                vals.append(v)
        if not vals:
            return mk("never")
        if len(vals) == 1:
            return vals[0]
        return mk("alt", tuple(vals))

    def store_places(self, st, pls, val):
        if len(pls) == 1:
            self.store(st, pls[0], val)
        else:
            for pl in pls:
                old = self.load(st, pl)
                self.store(st, pl, mk("alt", (old, val)) if old is not val else val)

    def val(self, st, v):
        """strip references: the value a (chain of) reference designates"""
        n = 0
        while v.op == "ref" and n < 8:
            v = self.load(st, (v.a[0], v.a[1]))
            n += 1
        if v.op in ("phi", "alt") or (v.op == "f" and self.has_phi_base(v)):
            al = self.alts(v)
            if any(x.op == "ref" for x in al):
                vals = []
                for x in al:
                    y = self.val(st, x) if x.op == "ref" else x
                    if y not in vals:
                        vals.append(y)
                return vals[0] if len(vals) == 1 else mk("alt", tuple(vals))
        return v

    def deep(self, st, v, d=0):
        """a reference-free expression for v"""
        v = self.val(st, v)
        if d > 6:
            return v
        if v.op == "agg" and v.a[3]:
            fs = tuple(self.deep(st, x, d + 1) for x in v.a[3])
            return v if fs == v.a[3] else mk("agg", v.a[0], v.a[1], v.a[2], fs)
        if v.op == "clo" and v.a[1]:
            fs = tuple(self.deep(st, x, d + 1) for x in v.a[1])
            return v if fs == v.a[1] else mk("clo", v.a[0], fs)
        if v.op in ("call", "cat", "item") and any(x.op == "ref" for x in children(v)):
            m = {x: self.deep(st, x, d + 1) for x in children(v) if x.op in ("ref", "agg", "call", "cat", "item")}
            return subst(v, m)
        if v.op == "upd":
            fs = tuple((k, self.deep(st, x, d + 1)) for k, x in v.a[1])
            return v if fs == v.a[1] else mk("upd", v.a[0], fs)
        return v

    # constants ----------------------------------------------------------
    def const(self, j, fr=None, depth=0):
        k = j["k"]
        v = j.get("v")
        if k in ("int", "bool", "char", "str"):
            return mk("k", k, v)
        if k == "ref":
            return self.const(v, fr, depth + 1)
        if k in ("array", "tuple"):
            if j.get("trunc"):
                return mk("k", "opaque", f"array[{j['trunc']}]")
            return agg("array" if k == "array" else "tuple", "", 0, [self.const(x, fr, depth + 1) for x in v])
        if k == "adt":
            p = j["ty"].split("<")[0]
            return agg("adt", p, j["vi"], [self.const(x, fr, depth + 1) for x in v])
        if k == "bytes":
            return mk("k", "bytes", v)
        if k == "fn":
            return mk("fn", j["id"].strip('"'), j["v"], j.get("iid", "").strip('"'),
                      j.get("ctor", ""), j.get("vi", 0), j.get("trait", ""), tuple(j.get("g", [])))
        if k == "promoted":
            return self.promoted(j["id"].strip('"'), v)
        if k == "zst":
            if v == "()":
                return UNIT
            if "closure@" in v or "{closure#" in v:
                return mk("k", "zst", v)
            a = self.P.adts.get(v)
            if a is not None and not a["enum"]:
                return agg("adt", v, 0, ())
            return mk("k", "zst", v)
        if k == "static":
            return mk("static", v)
        if k == "scalar":
            ty = j["ty"].split("<")[0]
            a = self.P.adts.get(ty)
            if a and a["enum"]:
                for i, x in enumerate(a["variants"]):
                    if x[1] == v and not x[2]:
                        return agg("adt", ty, i, ())
            if a and not a["enum"] and len(a["variants"][0][2]) == 1:
                return agg("adt", ty, 0, (mk("k", "int", v),))
            return mk("k", "opaque", f"{v}:{j['ty']}")
        return mk("k", "opaque", str(v))

    def promoted(self, bid, i):
        key = (bid, i)
        if key in self.prom_cache:
            return self.prom_cache[key]
        self.prom_cache[key] = mk("k", "opaque", f"promoted{i}")
        b = self.P.bodies.get(bid)
        if b is None or i >= len(b.promoted):
            return self.prom_cache[key]
        pb = b.promoted[i]
        rec, self.recording = self.recording, 0
        try:
            c = self.ctx(0, ("prom", bid, i), pb, "")
            pb.prep()
            fr = Frame(pb, c, None, None)
            nodes, _ = self.fixpoint(pb, fr, State())
            for nk, n in nodes.items():
                if pb.blocks[nk[0]]["t"][0] == "return" and n["st"] is not None:
                    st = n["st"].copy()
                    self.step(pb, fr, nk, st)
                    self.prom_cache[key] = self.deep(st, st.store.get(fr.base(0), UNIT))
        finally:
            self.recording = rec
        return self.prom_cache[key]

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const(o[1], fr)
        return self.load_places(st, self.place(st, fr, o[1]))

    def oty(self, fr, o):
        if o[0] in ("c", "m") and len(o[1]) == 1:
            return fr.body.locals[o[1][0]][0]
        return ""

    # arithmetic -----------------------------------------------------------
    def binop(self, op, a, b):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Eq", "Ne") and a.op == "agg" and b.op == "agg" and not a.a[3] and not b.a[3] and a.a[1] == b.a[1]:
            r = a.a[2] == b.a[2]
            return kbool(r if base == "Eq" else not r)
        if base in ("Eq", "Ne") and a.op == "agg" and b.op == "agg" and a.a[1] == b.a[1]:
            r = const_eq(a, b)
            if r is not None:
                return kbool(r if base == "Eq" else not r)
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if base == "Add":
                    r = kint(x + y)
                elif base == "Sub":
                    r = kint(x - y)
                elif base == "Mul":
                    r = kint(x * y)
                elif base == "Div":
                    r = kint(x // y)
                elif base == "Rem":
                    r = kint(x % y)
                elif base == "Eq":
                    r = kbool(x == y)
                elif base == "Ne":
                    r = kbool(x != y)
                elif base == "Lt":
                    r = kbool(x < y)
                elif base == "Le":
                    r = kbool(x <= y)
                elif base == "Gt":
                    r = kbool(x > y)
                elif base == "Ge":
                    r = kbool(x >= y)
                elif base == "BitAnd":
                    r = kbool(x and y) if a.a[0] == "bool" else kint(x & y)
                elif base == "BitOr":
                    r = kbool(x or y) if a.a[0] == "bool" else kint(x | y)
                elif base == "BitXor":
                    r = kbool(x != y) if a.a[0] == "bool" else kint(x ^ y)
                else:
                    r = mk("bin", base, a, b)
            except Exception:
                r = mk("bin", base, a, b)
        else:
            if base in ("Eq", "Ne", "Add", "Mul", "BitAnd", "BitOr") and is_const(a) and not is_const(b):
                a, b = b, a
            elif base in ("Gt", "Ge") and True:
                a, b = b, a
                base = {"Gt": "Lt", "Ge": "Le"}[base]
            if base in ("Add", "Sub") and is_const(b) and cval(b) == 0:
                r = a
            elif base in ("Add", "Sub") and is_const(b) and a.op == "bin" and a.a[0] in ("Add", "Sub") and is_const(a.a[2]):
                # (x + m) - n: overflow of the inner step has been asserted away already
                n = (cval(b) if base == "Add" else -cval(b)) + (cval(a.a[2]) if a.a[0] == "Add" else -cval(a.a[2]))
                r = a.a[1] if n == 0 else mk("bin", "Add", a.a[1], kint(n)) if n > 0 else mk("bin", "Sub", a.a[1], kint(-n))
            elif base == "Eq" and b is TRUE:
                r = a
            elif base == "Eq" and b is FALSE:
                r = self.unop("Not", a)
            elif base == "Ne" and b is FALSE:
                r = a
            elif base == "Ne" and b is TRUE:
                r = self.unop("Not", a)
            elif base == "Ne":
                r = self.unop("Not", mk("bin", "Eq", a, b))
            else:
                r = mk("bin", base, a, b)
        if op.endswith("WithOverflow"):
            return agg("tuple", "", 0, (r, mk("ovf", r)))
        return r

    def unop(self, op, a):
        if op == "Not":
            if a.op == "k" and a.a[0] == "bool":
                return kbool(not a.a[1])
            if a.op == "un" and a.a[0] == "Not":
                return a.a[1]
        if op == "Neg" and is_const(a):
            return kint(-cval(a))
        if op == "PtrMetadata":
            return mk("call", "len", a)
        return mk("un", op, a)

    def discr(self, st, v, adt=""):
        v0 = v
        v = self.val(st, v)
        o = v.op
        if o == "agg" and v.a[0] == "adt":
            var = self.P.variant(v.a[1], v.a[2])
            return kint(var[1] if var else v.a[2])
        if o in ("phi", "alt") or (o == "f" and self.has_phi_base(v)):
            al = self.alts(v)
            ds = set()
            okc = bool(al)
            for x in al:
                if x.op == "never":
                    continue
                x = self.val(st, x)
                if x.op == "agg" and x.a[0] == "adt":
                    var = self.P.variant(x.a[1], x.a[2])
                    ds.add(var[1] if var else x.a[2])
                else:
                    okc = False
                    break
            if okc and len(ds) == 1:
                return kint(ds.pop())
        base = v
        while base.op == "upd":
            base = base.a[0]
        return mk("discr", base, adt)

    # facts -----------------------------------------------------------------
    def known(self, st, v, d=0):
        if v.op == "k":
            return v
        if self.assume_fn is not None:
            r = self.assume_fn(self, st, v)
            if r is not None:
                return r
        r = st.facts.get(v)
        if r is not None:
            return r
        if v.op == "un" and v.a[0] == "Not":
            x = self.known(st, v.a[1], d + 1)
            return kbool(not cval(x)) if x is not None and x.op == "k" and x.a[0] == "bool" else None
        if v.op == "bin" and d < 4:
            op, a, b = v.a
            x, y = self.known(st, a, d + 1), self.known(st, b, d + 1)
            if x is not None and y is not None and (x is not a or y is not b):
                r = self.binop(op, x, y)
                return r if r.op == "k" else None
            if op == "Eq" and b.op == "k":
                ne = st.facts.get(mk("ne", a))
                if ne and cval(b) in ne:
                    return FALSE
            if op == "BitAnd" and ((x is FALSE) or (y is FALSE)):
                return FALSE
            if op == "BitOr" and ((x is TRUE) or (y is TRUE)):
                return TRUE
        return None

    def learn(self, st, v, k):
        """record v == k (k a constant V); False if contradictory"""
        kn = self.known(st, v)
        if kn is not None:
            return kn is k
        if v.op == "un" and v.a[0] == "Not":
            return self.learn(st, v.a[1], kbool(not cval(k)))
        if k.op == "k":
            ne = st.facts.get(mk("ne", v))
            if ne and cval(k) in ne:
                return False
        st.facts[v] = k
        if v.op == "bin":
            op, a, b = v.a
            if op == "Eq" and b.op == "k":
                if k is TRUE:
                    return self.learn(st, a, b)
                return self.learn_ne(st, a, cval(b))
            if op == "BitAnd" and k is TRUE:
                return self.learn(st, a, TRUE) and self.learn(st, b, TRUE)
            if op == "BitOr" and k is FALSE:
                return self.learn(st, a, FALSE) and self.learn(st, b, FALSE)
        return True

    def learn_ne(self, st, v, c):
        kn = self.known(st, v)
        if kn is not None and kn.op == "k":
            return cval(kn) != c
        key = mk("ne", v)
        st.facts[key] = frozenset(st.facts.get(key, frozenset())) | {c}
        if v.op == "discr":
            a = self.P.adts.get(v.a[1])
            if a:
                left = [x[1] for x in a["variants"] if x[1] not in st.facts[key]]
                if len(left) == 1:
                    st.facts[v] = kint(left[0])
                elif not left:
                    return False
        return True

    def regenerate(self, st, atom):
        """the site generating `atom` executes again: old mentions become prev(atom)"""
        if not any(atom in v.tags for v in st.store.values()) and not any(
                atom in f_.tags for f_ in st.facts):
            return
        m = {atom: mk("prev", atom)}
        memo = {}
        for b, v in list(st.store.items()):
            if atom in v.tags:
                st.store[b] = subst(v, m, memo)
        for f_ in [x for x in st.facts if atom in x.tags]:
            del st.facts[f_]

    # statements ---------------------------------------------------------------
    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            pls = self.place(st, fr, rv[2])
            if len(pls) == 1:
                b, p = pls[0]
                if b.op == "obj" and not p and b not in st.store:
                    return b.a[0]          # reborrow of an opaque reference
                return mk("ref", b, p)
            return mk("alt", tuple(mk("ref", b, p) for b, p in pls))
        if k == "bin":
            a = self.val(st, self.operand(st, fr, rv[2]))
            b = self.val(st, self.operand(st, fr, rv[3]))
            return self.binop(rv[1], a, b)
        if k == "un":
            return self.unop(rv[1], self.operand(st, fr, rv[2]))
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            if rv[1] in ("IntToInt",) and v.op == "k" and v.a[0] in ("bool", "char"):
                return kint(int(v.a[1]) if v.a[0] == "bool" else ord(v.a[1]))
            if rv[1] == "IntToInt" and len(rv) > 3 and rv[3] in INT_BITS:
                bits, signed = INT_BITS[rv[3]]
                if v.op == "k" and v.a[0] == "int":
                    x = v.a[1] & ((1 << bits) - 1)
                    return kint(x - (1 << bits) if signed and x >> (bits - 1) else x)
                src = INT_BITS.get(self.oty(fr, rv[2]))
                if src is not None:
                    keeps = bits >= src[0] if src[1] == signed else (not src[1] and bits > src[0])
                    if not keeps:
                        return mk("call", "cast:" + rv[3], v)
            return v
        if k == "discr":
            pls = self.place(st, fr, rv[1])
            if len(pls) == 1:
                v = self.load(st, pls[0])
            else:
                v = self.load_places(st, pls)
            return self.discr(st, v, rv[2])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[4]]
            if rv[1] == "closure":
                return mk("clo", rv[2].strip('"'), tuple(ops))
            return agg(rv[1], rv[2], rv[3], ops)
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            if 0 <= rv[2] <= 64:
                return agg("array", "", 0, [v] * rv[2])
            return mk("call", "array_repeat", v)
        if k == "setdiscr":
            return None
        return mk("k", "opaque", "rvalue:" + k)

    # body fixpoint ------------------------------------------------------------
    def partkey(self, body, fr, bb, st):
        key = []
        live = body.live[bb]
        for l in sorted(live):
            v = st.store.get(fr.base(l))
            if v is None:
                continue
            n = 0
            o = v.op
            if o == "k":
                if v.a[0] == "bool" or (v.a[0] == "int" and (l in body.swl and abs(v.a[1]) < 16 or self.unroll)) or self.unroll:
                    key.append((l, v.a[1]))
            elif o == "seq":
                key.append((l, len(v.a[0])))
            elif o == "agg" and v.a[0] == "adt":
                a = self.P.adts.get(v.a[1])
                if a and a["enum"]:
                    sub = ()
                    if len(v.a[3]) == 1 and v.a[3][0].op == "k" and v.a[3][0].a[0] == "bool":
                        sub = v.a[3][0].a[1]
                    elif len(v.a[3]) == 1 and v.a[3][0].op == "agg" and v.a[3][0].a[0] == "adt":
                        sub = v.a[3][0].a[2]
                    key.append((l, v.a[2], sub))
                elif v.a[1].startswith("std::ops::Range") and all(x.op == "k" for x in v.a[3]):
                    lo, hi = cval(v.a[3][0]), cval(v.a[3][1])
                    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 12:
                        key.append((l, lo, hi))
        for i, (name, getter) in enumerate(self.track):
            v = getter(self, st)
            if v is not None:
                if v.op == "k":
                    key.append((-1 - i, v.a[1]))
                elif v.op == "agg":
                    key.append((-1 - i, v.a[2]))
        return tuple(key)

    def join(self, node, inputs, prev, fr, bb, body, edge=None, old=None):
        """inputs: edge -> State.  Returns joined State and whether alternatives grew.
        With `edge`, prev is the join of the inputs as they were before that edge's (`old`, if any) changed."""
        items = list(inputs.items())
        if len(items) == 1 and prev is None:
            return items[0][1], False
        grew = [False]
        if prev is not None and edge is not None:
            s = inputs[edge]
            same = old is not None and (old.facts is s.facts or old.facts == s.facts)
            ps, ss = prev.store, s.store
            if same:
                os_ = old.store
                todo = [b for b, v in ss.items() if os_.get(b) is not v and ps.get(b) is not v]
                todo += [b for b in ps if b not in ss and b in os_]
            else:
                todo = [b for b, v in ss.items() if ps.get(b) is not v]
                todo += [b for b in ps if b not in ss]
            res = dict(ps)
            for b in todo:
                d = b.a[0] if b.op == "obj" else UNDEF
                res[b] = self.join_vals(node, b, (), [(e, x.store.get(b, d), x) for e, x in items], ps.get(b), grew)
            if same:
                return State(res, dict(prev.facts)), grew[0]
            if old is None:
                return State(res, self.join_facts([prev, s])), grew[0]
            return State(res, self.join_facts([x for _, x in items])), grew[0]
        keys = set()
        for _, s in items:
            keys |= s.store.keys()
        res = {}
        ctx = fr.ctx
        live = body.live[bb]
        for b in keys:
            if b.op == "loc" and b.a[0] == ctx and b.a[1] not in live:
                # keep if some reference may still designate it
                pass
            vals = []
            for e, s in items:
                v = s.store.get(b)
                if v is None:
                    v = b.a[0] if b.op == "obj" else UNDEF
                vals.append((e, v, s))
            pv = prev.store.get(b) if prev is not None else None
            res[b] = self.join_vals(node, b, (), vals, pv, grew)
        return State(res, self.join_facts([x for _, x in items])), grew[0]

    @staticmethod
    def join_facts(states):
        facts = None
        for s in states:
            if facts is None:
                facts = dict(s.facts)
            else:
                o = s.facts
                for k_ in list(facts):
                    if k_ not in o:
                        del facts[k_]
                    elif facts[k_] is not o[k_] and facts[k_] != o[k_]:
                        if k_.op == "ne":
                            m = facts[k_] & o[k_]
                            if m:
                                facts[k_] = m
                            else:
                                del facts[k_]
                        else:
                            del facts[k_]
        return facts

    def join_vals(self, node, base, path, vals, pv, grew):
        v0 = vals[0][1]
        mine = pv is not None and pv.op == "phi" and pv.a[0] == node and pv.a[1] is base and pv.a[2] == path
        if not mine:
            same = True
            for _, v, _s in vals:
                if v is not v0:
                    same = False
                    break
            if same:
                return v0
            # drop undefined inputs (locals not yet assigned on that path)
            o0 = v0.op
            if o0 == "agg" and all(v.op == "agg" and v.a[0] == v0.a[0] and v.a[1] == v0.a[1]
                                   and v.a[2] == v0.a[2] and len(v.a[3]) == len(v0.a[3]) for _, v, _s in vals):
                if not (v0.a[0] == "array" and len(v0.a[3]) > 8):
                    fs = []
                    for i in range(len(v0.a[3])):
                        ppv = pv.a[3][i] if pv is not None and pv.op == "agg" and len(pv.a[3]) == len(v0.a[3]) else None
                        fs.append(self.join_vals(node, base, path + (str(i),),
                                                 [(e, v.a[3][i], s) for e, v, s in vals], ppv, grew))
                    return agg(v0.a[0], v0.a[1], v0.a[2], fs)
            r0 = v0.a[0] if o0 == "upd" else v0
            if (any(v.op == "upd" for _, v, _s in vals)
                    and all((v.a[0] if v.op == "upd" else v) is r0 for _, v, _s in vals)):
                ks = set()
                for _, v, _s in vals:
                    if v.op == "upd":
                        ks |= {k for k, _x in v.a[1]}
                out = []
                for k in sorted(ks):
                    sub = []
                    for e, v, s in vals:
                        sub.append((e, self.proj(v, ("f", k, self._idx_of(v, k))), s))
                    ppv = None
                    if pv is not None and pv.op == "upd":
                        for kk, x in pv.a[1]:
                            if kk == k:
                                ppv = x
                    out.append((k, self.join_vals(node, base, path + (k,), sub, ppv, grew)))
                return mk("upd", r0, tuple(out))
        ph = mk("phi", node, base, path)
        t = self.alts_t.setdefault(ph, {})
        for e, v, s in vals:
            if v is ph or v.op == "undef" or v.op == "never":
                continue
            old = t.get(e)
            if old is None or old[0] is not v:
                t[e] = (v, s.facts)
                grew[0] = True
                if ph in self.expanded:
                    self.dirty = True
            elif old[1] is not s.facts:
                t[e] = (v, s.facts)
        if not t:
            return UNDEF
        return ph

    def _idx_of(self, v, key):
        return None

    def call_body(self, body, args, st, ctx, parent):
        """Analyse `body` in context ctx.  Returns [(ret, state, frontier)]"""
        body.prep()
        self.fns.add(body.path)
        fr = Frame(body, ctx, parent, None)
        st = st.copy()
        for i, a in enumerate(args):
            st.store[fr.base(i + 1)] = a
        sig = (tuple(args), st.store, st.facts)
        m = self.memo.get(ctx)
        hit = False
        if m is not None and m[0][0] == sig[0] and m[0][1] == sig[1] and m[0][2] == sig[2] and not m[3]:
            nodes, outs, hit = m[1], m[2], True
        else:
            tries = 0
            rec, self.recording = self.recording, 0
            while True:
                d0, self.dirty = self.dirty, False
                nodes, outs = self.fixpoint(body, fr, st)
                tries += 1
                if not self.dirty or tries >= 4:
                    self.dirty = d0
                    break
                # alternatives examined eagerly have grown: redo with the larger sets
            self.recording = rec
            self.memo[ctx] = (sig, nodes, outs, False)
        if self.recording:
            return self.record(body, fr, nodes)
        # the memoised states must not be changed by what the caller learns next
        return [(r, s.copy(), fo) for r, s, fo in outs]

    def fixpoint(self, body, fr, st):
        nodes = {}       # (bb,key) -> dict(inputs, state)
        merged = set()   # blocks whose partitions were collapsed
        ex = {}

        def node_key(bb, s):
            if bb in merged:
                return (bb, "*")
            return (bb, self.partkey(body, fr, bb, s))

        heap = []
        inq = set()

        def push(nk):
            if nk not in inq:
                inq.add(nk)
                heapq.heappush(heap, (body.rpo.get(nk[0], 1 << 30), repr(nk[1]), nk))

        counts = {}

        def deliver(bb, s, edge):
            # prune locals dead at bb that nothing can reference: cheap form
            nk = node_key(bb, s)
            if nk not in nodes:
                c = counts.get(bb, 0) + 1
                counts[bb] = c
                if c > self.MAXPART and bb not in merged:
                    merged.add(bb)
                    self.merges.add((body.path, bb))
                    nk2 = (bb, "*")
                    n2 = nodes.setdefault(nk2, {"in": {}, "st": None})
                    for k in [k for k in nodes if k[0] == bb and k != nk2]:
                        for e, s2 in nodes[k]["in"].items():
                            n2["in"][(e, k[1])] = s2
                        del nodes[k]
                    nk = nk2
                nodes.setdefault(nk, {"in": {}, "st": None})
            n = nodes[nk]
            if nk[1] == "*":
                edge = (edge, self.partkey(body, fr, bb, s))
            old = n["in"].get(edge)
            if old is not None and old.store == s.store and old.facts == s.facts:
                return nk
            n["in"][edge] = s
            new, grew = self.join((fr.ctx,) + nk, n["in"], n["st"], fr, bb, body, edge, old)
            if n["st"] is None or grew or new.store != n["st"].store or new.facts != n["st"].facts:
                n["st"] = new
                push(nk)
            return nk

        deliver(0, st, "entry")
        outs = []
        guard = 0
        while heap:
            _, _, nk = heapq.heappop(heap)
            inq.discard(nk)
            n = nodes.get(nk)
            if n is None:
                continue
            guard += 1
            if guard > 6000:
                raise TooBig(f"fixpoint does not settle in {body.path}")
            for tbb, s, tag in self.step(body, fr, nk, n["st"].copy()):
                if tbb == "ret":
                    continue
                deliver(tbb, s, (nk, tag))
        return nodes, self.collect(body, fr, nodes)

    def collect(self, body, fr, nodes):
        outs = []
        for nk, n in nodes.items():
            if body.blocks[nk[0]]["t"][0] == "return" and n["st"] is not None:
                s = n["st"].copy()
                for tbb, s2, tag in self.step(body, fr, nk, s):
                    if tbb == "ret":
                        outs.append((nk, s2))
        res = []
        for nk, s in outs:
            r = s.store.get(fr.base(0), UNIT)
            ns = {b: v for b, v in s.store.items() if not (b.op == "loc" and b.a[0] == fr.ctx)}
            node = (fr.ctx,) + nk
            res.append((r, State(ns, s.facts), frozenset([node])))
        return res

    def record(self, body, fr, nodes):
        """final pass over a stable solution: events and edges"""
        for nk, n in nodes.items():
            if n["st"] is None:
                continue
            node = (fr.ctx,) + nk
            self.events[node] = []
            self.succ.setdefault(node, set())
            for tbb, s, tag in self.step(body, fr, nk, n["st"].copy()):
                if tbb == "ret":
                    continue
                fro = self._frontier if self._frontier is not None else frozenset([node])
                if tag.__class__ is tuple and tag and tag[0] == "fr":
                    fro = tag[2]
                tk = (tbb, self.partkey(body, fr, tbb, s))
                if tk not in nodes:
                    tk = (tbb, "*")
                    if tk not in nodes:
                        # state differs from the stable one: take every partition
                        for k in nodes:
                            if k[0] == tbb:
                                for x in fro:
                                    self.succ.setdefault(x, set()).add((fr.ctx,) + k)
                        continue
                for x in fro:
                    self.succ.setdefault(x, set()).add((fr.ctx,) + tk)
        return self.collect(body, fr, nodes)

    _frontier = None

    def step(self, body, fr, nk, st):
        """Execute one block.  Yields (target bb, state, edge tag)."""
        bb = nk[0]
        blk = body.blocks[bb]
        node = (fr.ctx,) + nk
        self.nsteps += 1 + len(blk["s"])
        if self.nsteps > self.budget:
            raise TooBig(f"analysis budget exceeded in {body.path}")
        for s in blk["s"]:
            v = self.rvalue(st, fr, s[1])
            if v is None:
                continue
            pls = self.place(st, fr, s[0])
            if self.recording and len(s[0]) > 1 and any(e[0] == "*" for e in s[0][1:]):
                for pl in pls:
                    self.events.setdefault(node, []).append(
                        Event("write", self.place_name(pl), (self.deep(st, v),), None, st.facts, s[2], node, body, pl))
            self.store_places(st, pls, v)
        t = blk["t"]
        self._frontier = None
        k = t[0]
        if k == "goto":
            return [(t[1], st, 0)]
        if k == "return":
            return [("ret", st, 0)]
        if k == "switch":
            return self.switch(body, fr, st, t)
        if k == "assert":
            c = self.val(st, self.operand(st, fr, t[1]))
            kn = self.known(st, c)
            if self.recording:
                self.events.setdefault(node, []).append(
                    Event("assert", t[4], (c,), None, dict(st.facts), blk["sp"], node, body))
            if kn is not None and kn.op == "k" and cval(kn) != t[2]:
                return []
            if kn is None:
                self.learn(st, c, kbool(t[2]))
            return [(t[3], st, 0)]
        if k == "call":
            return self.do_call(body, fr, nk, st, t, blk["sp"])
        return []

    def place_name(self, pl):
        b, p = pl
        return show(b) + "".join("." + str(x[1]) if x[0] == "f" else "[]" for x in p)

    def switch(self, body, fr, st, t):
        v = self.val(st, self.operand(st, fr, t[1]))
        isb = t[4] == "bool"

        def conv(x):
            if isb:
                return kbool(x != 0)
            if t[4] == "char":
                return kchar(chr(x))
            return kint(x)

        # phi of constants: decide if all alternatives agree
        kn = self.known(st, v)
        if kn is None and (v.op in ("phi", "alt") or (v.op == "f" and self.has_phi_base(v))):
            al = self.alts(v)
            if al and all(x.op == "k" for x in al):
                poss = set(al)
            else:
                poss = None
        else:
            poss = None
        if kn is not None and kn.op == "k":
            cv = cval(kn)
            if kn.a[0] == "char":
                cv = ord(cv)
            for x, b in t[2]:
                if int(x) == int(cv):
                    return [(b, st, 0)]
            return [(t[3], st, 0)]
        self.conds.add(v if isb else mk("sw", v, tuple(int(x) for x, _ in t[2])))
        out = []
        rest = st.copy()
        rok = True
        i = 0
        for x, b in t[2]:
            i += 1
            c = conv(x)
            if poss is not None and c not in poss:
                continue
            s2 = st.copy()
            if self.learn(s2, v, c):
                out.append((b, s2, i))
            if rok:
                if isb:
                    rok = self.learn(rest, v, kbool(x == 0))
                else:
                    rok = self.learn_ne(rest, v, cval(c))
        if poss is not None and not isb:
            tv = {conv(x) for x, _ in t[2]}
            if not (poss - tv):
                rok = False
        if rok and body.blocks[t[3]]["t"][0] != "unreachable":
            out.append((t[3], rest, 0))
        if self.on_switch is not None:
            out = self.on_switch(self, body, t, st, v, out)
        return out

    # calls ----------------------------------------------------------------
    def event(self, node, ev):
        if self.recording:
            self.events.setdefault(node, []).append(ev)

    def do_call(self, body, fr, nk, st, t, span):
        node = (fr.ctx,) + nk
        fop = t[1]
        fv = self.operand(st, fr, fop)
        args = [self.operand(st, fr, o) for o in t[2]]
        atys = [self.oty(fr, o) for o in t[2]]
        call = Call(self, fr, node, st, fv, args, atys, t, span, body)
        outs = self.dispatch(call)
        res = []
        if t[4] < 0:
            if self.recording:
                self.exits.append(node)
            return []
        i = 0
        for r, s, fro in outs:
            i += 1
            dst = self.place(s, fr, t[3])
            if self.recording and len(t[3]) > 1 and any(e[0] == "*" for e in t[3][1:]):
                for pl in dst:
                    self.events.setdefault(node, []).append(
                        Event("write", self.place_name(pl), (self.deep(s, r),), None, s.facts, span, node, body, pl))
            self.store_places(s, dst, r)
            tag = ("fr", i, fro if self.recording else None)
            res.append((t[4], s, tag if self.recording else i))
        return res

    def dispatch(self, c):
        fv = c.fv
        st = c.st
        if fv.op != "fn":
            self.event(c.node, Event("call", "<indirect>", tuple(self.deep(st, x) for x in c.args), None,
                                     dict(st.facts), c.span, c.node, c.body, fv))
            return self.apply(c, st, fv, c.args, c.front)
        return self.call_fn(c, st, fv, c.args, c.front, direct=True)

    def call_fn(self, c, st, fv, args, front, direct=False, tag=()):
        bid, path, iid, ctor, vi, trait, g = fv.a
        if ctor:
            return [(agg("adt", ctor, vi, args), st, front)]
        target = None
        if iid and iid in self.P.bodies:
            target = self.P.bodies[iid]
        elif bid in self.P.bodies:
            target = self.P.bodies[bid]
        h = self.hooks.get(path)
        if h is None and target is not None:
            h = self.hooks.get(target.path) or self.hooks.get("@" + target.name)
        if h is not None:
            r = h(self, c, st, fv, args, front)
            if r is not None:
                return r
        if target is not None and target.derived and target.name in ("clone", "eq", "ne"):
            # derived impls are structural
            self.calls_opaque += 1
            if self.recording:
                self.event(c.node, Event("call", target.path, tuple(self.deep(st, x) for x in args), None,
                                         dict(st.facts), c.span, c.node, c.body, fv))
            if target.name == "clone":
                return [(self.deep(st, args[0]), st, front)]
            import models as M
            r = M.eqv(self, st, self.deep(st, args[0]), self.deep(st, args[1]))
            return [(self.unop("Not", r) if target.name == "ne" else r, st, front)]
        if (target is not None and target.kind == "closure" and path.split("::")[-1] in ("call", "call_mut", "call_once") and len(args) == 2
                and args[1].op == "agg" and args[1].a[0] == "tuple" and len(args[1].a[3]) == target.nargs - 1):
            args = [args[0], *args[1].a[3]]          # a closure called by name gets its arguments as a tuple
        if target is not None and not target.derived_skip():
            rec = self.on_stack(c.fr, target)
            ev = Event("enter", target.path, tuple(self.deep(st, x) for x in args) if self.recording else (),
                       None, st.facts if not self.recording else dict(st.facts), c.span, c.node, c.body, target)
            shut = self.opaque(target) if self.opaque_call is None else self.opaque_call(self, c, st, target, args)
            if not rec and not shut and self.depth(c.fr) < self.maxdepth:
                self.event(c.node, ev)
                self.calls_resolved += 1
                ctx = self.ctx(c.fr.ctx, (c.node[1:], c.span if not direct else "", tag, bid), target, c.span)
                outs = self.call_body(target, args, st, ctx, c.fr)
                if self.recording:
                    target.prep()
                    m = self.memo[ctx][1]
                    ent = [(ctx,) + k for k in m if k[0] == 0]
                    for x in front:
                        self.succ.setdefault(x, set()).update(ent)
                return outs
            self.event(c.node, Event("local", target.path, ev.args, None, ev.facts, c.span, c.node, c.body, target))
            return self.opaque_local(c, st, target, args, front, rec)
        self.calls_opaque += 1
        return self.external(c, st, fv, args, front)

    def on_stack(self, fr, target):
        n = 0
        while fr is not None:
            if fr.body is target:
                return True
            fr = fr.parent
        return False

    def depth(self, fr):
        n = 0
        while fr is not None:
            n += 1
            fr = fr.parent
        return n

    def opaque_local(self, c, st, target, args, front, rec):
        if self.recurse is not None:
            r = self.recurse(self, c, st, target, args, front, rec)
            if r is not None:
                return r
        dargs = tuple(self.deep(st, x) for x in args)
        at = [target.locals[i + 1][0] for i in range(min(len(args), target.nargs))]
        mutable = False
        for i, a in enumerate(args):
            ty = at[i] if i < len(at) else ""
            if ty.startswith("&") and " mut " in ty.split(" ")[0] + " " + ty[:8]:
                mutable = True
            if ty.startswith("&mut") or ty.startswith("&'") and " mut " in ty[:12]:
                mutable = True
                for pl in self.deref_targets(st, a):
                    old = self.load(st, pl)
                    self.store(st, pl, mk("mut", "local:" + target.path, self.deep(st, old), i, dargs))
        if mutable:
            r = mk("gen", "local:" + target.path, dargs, c.node[0:2])
            self.regenerate(st, r)
        else:
            r = mk("call", "local:" + target.path, *dargs)
        if target.locals[0][0] == "()":
            r = UNIT
        return [(r, st, front)]

    def external(self, c, st, fv, args, front):
        path = fv.a[1]
        h = self.models.get(path)
        if h is None:
            import models as M
            h = M.lookup(path)
        if self.recording:
            self.event(c.node, Event("call", path, tuple(self.deep(st, x) for x in args), None,
                                     dict(st.facts), c.span, c.node, c.body, fv))
        if h is not None:
            r = h(self, c, st, fv, args, front)
            if r is not None:
                if r.__class__ is V:
                    return [(r, st, front)]
                return r
        return self.generic(c, st, fv, args, front)

    def generic(self, c, st, fv, args, front, mutating=None):
        path = fv.a[1]
        clos = [(i, a) for i, a in enumerate(args) if self.val(st, a).op in ("clo", "fn")]
        dargs = tuple(self.deep(st, x) for x in args)
        rv = None
        if clos:
            i, a = clos[0]
            outs = self.invoke_many(c, st, a, [mk("carg", path, i, dargs[0] if dargs else UNIT)], front, ("clo", i))
            res = []
            for s2, f2 in outs:
                res += self.generic2(c, s2, fv, args, f2, clos[1:], path)
            return res
        return self.generic2(c, st, fv, args, front, (), path)

    def generic2(self, c, st, fv, args, front, clos, path):
        for i, a in clos:
            dargs = tuple(self.deep(st, x) for x in args)
            outs = self.invoke_many(c, st, a, [mk("carg", path, i, dargs[0] if dargs else UNIT)], front, ("clo", i))
            st, front = outs[-1]
            for s2, f2 in outs[:-1]:
                st = self.join((c.node[0], c.node[1], ("gc", i, c.node[2])), {"a": st, "b": s2}, None, c.fr, c.node[1], c.body)[0].copy()
                front = frozenset(front) | frozenset(f2)
        dargs = tuple(self.deep(st, x) for x in args)
        muts = []
        for i, a in enumerate(args):
            ty = c.atys[i] if i < len(c.atys) and len(args) == len(c.args) else ""
            if is_mut_ref(ty):
                muts.append(i)
        if muts:
            r = mk("gen", path, dargs, c.node[0:2])
            self.regenerate(st, r)
            dargs = tuple(self.deep(st, x) for x in args)
            for i in muts:
                a = args[i]
                for pl in self.deref_targets(st, a):
                    old = self.load(st, pl)
                    self.store(st, pl, mk("mut", path, self.deep(st, old), i, dargs[:i] + dargs[i + 1:]))
            if c.t[5] == "()":
                r = UNIT
            return [(r, st, front)]
        if c.t[5] == "()" and len(args) == len(c.args):
            return [(UNIT, st, front)]
        return [(mk("call", path, *dargs), st, front)]

    def trackkey(self, st, extra=()):
        key = []
        for name, getter in self.track:
            v = getter(self, st)
            if v is not None:
                if v.op == "k":
                    key.append((name, repr(v.a[1])))
                elif v.op == "agg":
                    key.append((name, repr(v.a[2])))
        for i, b in enumerate(extra):
            v = st.store.get(b)
            if v is not None and v.op == "k":
                key.append((i, repr(v.a[1])))
            elif v is not None and v.op == "agg":
                key.append((i, repr(v.a[2])))
        return tuple(key)

    def loop_states(self, c, st, front, name, once, extra=(), ends=False):
        """An implicit loop (iterator consumer): fixpoint of `once` over states
        partitioned like the explicit ones.  `once(state, front)` gives
        [(state, frontier, finished)].  Returns [(state, frontier)] after the loop."""
        parts = {}

        def rounds(record):
            work = []

            def deliver(s, edge):
                k = self.trackkey(s, extra)
                n = parts.setdefault(k, {"in": {}, "st": None})
                old = n["in"].get(edge)
                if old is not None and old.store == s.store and old.facts == s.facts:
                    return k
                n["in"][edge] = s
                node = (c.node[0], c.node[1], ("inv", name, k, c.node[2]))
                new, grew = self.join(node, n["in"], n["st"], c.fr, c.node[1], c.body)
                if n["st"] is None or grew or new.store != n["st"].store or new.facts != n["st"].facts:
                    n["st"] = new
                    if k not in work:
                        work.append(k)
                return k
            deliver(st, "skip")
            n = 0
            while work:
                k = work.pop(0)
                n += 1
                if n > 400:
                    raise TooBig(f"loop {name} does not settle in {c.body.path}")
                for i, (s, f_, fin) in enumerate(once(parts[k]["st"].copy(), front)):
                    if not fin:
                        deliver(s, (k, i))
        rec, self.recording = self.recording, 0
        rounds(False)
        self.recording = rec
        res = []
        fro = {k: set() for k in parts}
        k0 = self.trackkey(st, extra)
        fro.setdefault(k0, set()).update(front)
        if self.recording:
            # record the body once per partition; link exits of a partition to the
            # entries of the body in its successor partitions
            # body nodes are shared by all partitions: one recording, edges back
            ends_ = []
            for k in list(parts):
                before = {x: set(self.succ.get(x, ())) for x in front}
                for i, (s, f_, fin) in enumerate(once(parts[k]["st"].copy(), front)):
                    ends_.append((k, f_, fin, s))
            ents = set()
            for x in front:
                ents |= {y for y in self.succ.get(x, ()) if y[0] != c.node[0]}
            for k0_, f_, fin, s in ends_:
                if not fin:
                    fro.setdefault(self.trackkey(s, extra), set()).update(f_)
                    for x in f_:
                        if x not in front:
                            self.succ.setdefault(x, set()).update(ents)
            for k0_, f_, fin, s in ends_:
                if fin:
                    # leaving without running the body: reached from every way into the partition
                    res.append((s, frozenset(f_) if set(f_) - set(front) else frozenset(set(f_) | fro.get(k0_, set()))))
            if not ends:
                for k in parts:
                    res.append((parts[k]["st"].copy(), frozenset(fro.get(k) or front)))
            return res
        for k in parts:
            for s, f_, fin in once(parts[k]["st"].copy(), front):
                if fin:
                    res.append((s, f_))
            if not ends:
                res.append((parts[k]["st"].copy(), front))
        return res

    def invoke_many(self, c, st, fv, fargs, front, tag):
        """0..n invocations of a closure with symbolic arguments: fixpoint over
        the state.  Returns [(state, frontier)]."""
        def once(s, fr):
            return [(s2, f_, False) for r, s2, f_ in self.apply(c, s, fv, fargs, fr, tag)]
        return self.loop_states(c, st, front, ("im", tag), once)

    def apply(self, c, st, fv, args, front, tag=()):
        """call a function value with already-spread arguments"""
        f0 = self.val(st, fv)
        if f0.op == "clo":
            b = self.P.bodies.get(f0.a[0])
            if b is None:
                return [(mk("call", "apply", self.deep(st, f0), *[self.deep(st, x) for x in args]), st, front)]
            if self.on_stack(c.fr, b):
                return [(mk("call", "apply", self.deep(st, f0), *[self.deep(st, x) for x in args]), st, front)]
            b.prep()
            ctx = self.ctx(c.fr.ctx, (c.node[1:], "clo", f0.a[0], tag), b, c.span)
            env = f0
            if b.locals[1][0].startswith("&"):
                if fv.op == "ref":
                    env = fv
                else:
                    base = mk("loc", ctx, -1)
                    st.store[base] = f0
                    env = mk("ref", base, ())
            n = b.nargs - 1
            xs = list(args)
            if len(xs) != n:
                if len(xs) == 1 and n > 1:
                    t = self.val(st, xs[0])
                    xs = [self.proj(t, ("f", str(i), i)) for i in range(n)]
                else:
                    xs = (xs + [UNDEF] * n)[:n]
            outs = self.call_body(b, [env] + xs, st, ctx, c.fr)
            if self.recording:
                m = self.memo[ctx][1]
                ent = [(ctx,) + k for k in m if k[0] == 0]
                for x in front:
                    self.succ.setdefault(x, set()).update(ent)
            return outs
        if f0.op == "fn":
            return self.call_fn(c, st, f0, list(args), front, tag=tag)
        if f0.op in ("phi", "alt"):
            res = []
            for x in self.alts(f0):
                if x.op in ("clo", "fn"):
                    res += self.apply(c, st.copy(), x, args, front, tag + (x.a[0],))
            if res:
                return res
        return [(mk("call", "apply", self.deep(st, f0), *[self.deep(st, x) for x in args]), st, front)]

    # entry ------------------------------------------------------------------
    def run(self, body, args, st=None):
        st = st or State()
        ctx = self.ctx(0, ("root", body.id), body, body.span)
        self.recording = 1
        outs = self.call_body(body, args, st, ctx, None)
        m = self.memo[ctx][1]
        self.entry = [(ctx,) + k for k in m if k[0] == 0]
        self.outs = outs
        return outs

    # graph queries ------------------------------------------------------------
    def all_events(self):
        for n in self.reachable_nodes():
            for e in self.events.get(n, ()):
                yield e

    def reachable_nodes(self, starts=None, avoid=None):
        st = list(starts if starts is not None else self.entry)
        seen = set()
        while st:
            n = st.pop()
            if n in seen or (avoid is not None and avoid(n)):
                continue
            seen.add(n)
            st.extend(self.succ.get(n, ()))
        return seen


def const_eq(a, b):
    """equality of two values made of constants, None if unknown"""
    if a.op == "k" and b.op == "k":
        return a is b if a.a[0] == b.a[0] else None
    if a.op == "agg" and b.op == "agg" and a.a[:2] == b.a[:2]:
        if a.a[2] != b.a[2]:
            return False
        rs = [const_eq(x, y) for x, y in zip(a.a[3], b.a[3])]
        return False if False in rs else None if None in rs or len(a.a[3]) != len(b.a[3]) else True
    return None


INT_BITS = {**{f"{s}{n}": (n, s == "i") for s in "iu" for n in (8, 16, 32, 64, 128)}, "isize": (64, True), "usize": (64, False)}


def is_mut_ref(ty):
    if not ty.startswith("&"):
        return False
    t = ty[1:].lstrip()
    if t.startswith("'"):
        t = t.split(" ", 1)[1] if " " in t else t
    return t.startswith("mut ")


class Call:
    __slots__ = ("I", "fr", "node", "st", "fv", "args", "atys", "t", "span", "body", "front")

    def __init__(self, I, fr, node, st, fv, args, atys, t, span, body):
        self.I, self.fr, self.node, self.st, self.fv = I, fr, node, st, fv
        self.args, self.atys, self.t, self.span, self.body = args, atys, t, span, body
        self.front = frozenset([node])


def _derived_skip(self):
    return False


Body.derived_skip = _derived_skip
