"""What formatting depends on: which options are read (C10), and that nothing but
the text and the options is (C18)."""
import re
from values import *
from program import Missing
from checks.cli import prog, _fns
from checks.options import fields, SPEC


class Graph:
    """references between bodies (function constants and closures), from some roots"""

    def __init__(self, P, crate="lib"):
        self.P = P
        self.ids = {b.id: b for b in P.bodies.values()}
        self.out, self.ext = {}, {}
        for b in P.bodies.values():
            if b.crate != crate:
                continue
            es, xs = set(), []
            for sp, j in self.consts(b):
                t = j.get("id", "").strip('"')
                if t in self.ids and t != b.id:
                    es.add(t)
                elif j.get("k") == "fn":
                    ds = self.trait_impls(j)
                    if ds:
                        es |= ds
                    xs.append((j["v"], sp, j))
            for c in P.bodies.values():
                if c.kind == "closure" and c.parent == b.id:
                    es.add(c.id)
            self.out[b.id], self.ext[b.id] = es, xs

    def consts(self, b):
        def stats(j):
            if isinstance(j, dict):
                if j.get("k") == "static":
                    yield j
                for x in j.values():
                    yield from stats(x)
            elif isinstance(j, list):
                for x in j:
                    yield from stats(x)

        def blocks(bb):
            for bl in bb.blocks:
                if bl["cl"]:
                    continue
                for _, v, sp, j in _fns(bb, bl["t"], bl["sp"]):
                    yield sp, j
                for j in stats([bl["t"], bl["s"]]):
                    yield bl["sp"], j
                for s in bl["s"]:
                    for _, v, sp, j in _fns(bb, s[1], s[2]):
                        yield sp, j
        yield from blocks(b)
        for p in b.promoted:
            yield from blocks(p)

    def trait_impls(self, j):
        """local implementations a trait-method call may reach, by its generic self type"""
        p = j["v"]
        if not hasattr(self, "_ti"):
            self._ti = {}
            for b in self.ids.values():
                m = re.match(r"<(.*) as (.*)>::(\w+)$", b.path)
                if m:
                    tr = re.sub(r"<.*", "", m.group(2))
                    self._ti.setdefault((tr, m.group(3)), []).append((re.sub(r"<.*", "", m.group(1)), b.id))
        tr, _, nm = p.rpartition("::")
        tr = re.sub(r"::<.*", "", tr)
        out = set()
        for st, i in self._ti.get((tr, nm), ()):
            gs = " ".join(str(x) for x in j.get("g", []))
            if st in gs:
                out.add(i)
        return out

    def reach(self, roots, avoid=()):
        seen, todo = set(), [r for r in roots if r not in avoid]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [y for y in self.out.get(x, ()) if y not in avoid]
        return seen


def places(j, out):
    """all places (lists starting with a local number followed by projections) in a MIR json tree"""
    if isinstance(j, list):
        if j and isinstance(j[0], int) and all(isinstance(x, list) for x in j[1:]):
            out.append(j)
            return
        for x in j:
            places(x, out)
    elif isinstance(j, dict):
        for x in j.values():
            places(x, out)


def reads(b, adt):
    """(field, span, block, dest local or None) for every read of a field of `adt`"""
    for bi, bl in enumerate(b.blocks):
        if bl["cl"]:
            continue
        items = [(s[1], s[2], s[0]) for s in bl["s"]] + [(bl["t"], bl["sp"], None)]
        for rv, sp, dest in items:
            ps = []
            places(rv, ps)
            for p in ps:
                for e in p[1:]:
                    if e[0] == "f" and e[3] == adt:
                        yield e[2], sp, bi, dest


def effective(b, dest):
    """does the value stored in place `dest` reach a decision, a call, the result or memory?"""
    if dest is None or len(dest) > 1:
        return True
    todo, seen = [dest[0]], set()
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        if l == 0:
            return True
        for bl in b.blocks:
            if bl["cl"]:
                continue
            for s in bl["s"]:
                ps = []
                places(s[1], ps)
                if any(p[0] == l for p in ps):
                    if len(s[0]) > 1:
                        return True
                    todo.append(s[0][0])
            t = bl["t"]
            ps = []
            places(t[1:] if t[0] != "call" else t[1:3], ps)
            if t[0] in ("switch", "call", "assert") and any(p[0] == l for p in ps):
                return True
    return False


def entry_ids(P):
    return [P.at_path("format", crate="lib").id, P.at_path("format_with_warnings", crate="lib").id]


def C10(r):
    P = prog()
    r.rule("option-read", "each field of the options is read, on some path from the formatting entry points, into a decision or the output")
    g = Graph(P)
    live = g.reach(entry_ids(P))
    ser = P.one("serialize_node").id
    r.ob("option-read", "rendering is reached from the entry points", ser in live, "serialize_node is not reachable")
    found = {}
    for i in live:
        b = g.ids[i]
        if b.derived or "std::default::Default" in b.impl_trait:
            continue
        for n, sp, bi, dest in reads(b, "Options"):
            r.count("option_reads")
            if bi in set(b_reach(b)) and effective(b, dest):
                found.setdefault(n, []).append(f"{b.name} {sp}")
    for n in fields(P, "Options"):
        r.ob("option-read", n, n in found, "no function reachable from formatting reads it into a decision or the output",
             (found.get(n) or [""])[0])
    r.count("functions_reachable", len(live))
    return "other", "Call-graph reachability from the entry points, and for each option field the reads in reachable functions whose value flows on. "


def b_reach(b):
    b.prep()
    seen, todo = set(), [0]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += b.succ[x]
    return seen


DENY = [
    (r"^std::env::", "environment"), (r"^std::time::", "clock"), (r"^(std|tokio)::fs::", "file system"), (r"^std::process::", "processes"),
    (r"^std::thread::", "threads or thread-local state"), (r"^std::net::", "network"), (r"^std::io::(stdin|stdout|stderr|_print|_eprint)", "standard streams"),
    (r"^std::sync::(Mutex|RwLock|atomic|mpsc|Condvar|Once\b)", "shared mutable state"), (r"^std::sync::(poison::)?(mutex|rwlock)", "shared mutable state"),
    (r"^core::sync::atomic|::sync::atomic::", "shared mutable state"),
    (r"RandomState|DefaultHasher|BuildHasher::hash_one", "randomised hashing"), (r"^(rand|fastrand|getrandom|uuid|chrono|dirs|home|whoami)\b", "ambient source"),
    (r"^std::path::Path::(exists|is_file|is_dir|metadata|read_dir|canonicalize|read_link|try_exists)", "file system"),
    (r"Pointer as std::fmt|new_pointer", "addresses"), (r"^std::ptr::.*::(addr|expose)", "addresses"),
    (r"^std::hash::RandomState", "randomised hashing"), ]
UNORD = re.compile(r"std::collections::(hash_map::|hash_set::)?(HashMap|HashSet)\b|std::collections::hash_(map|set)::")
ITERS = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain", "extract_if", "union", "intersection", "difference")
ORDERLESS = ("any", "all", "count", "sum", "product", "max", "min", "len", "is_empty", "contains")


def C18(r):
    P = prog()
    r.rule("no-ambient", "nothing reachable from formatting consults a clock, the environment, randomness, files, processes, threads, addresses or shared mutable state, apart from the external formatter runner")
    r.rule("runner-only-formatters", "the process-running code is separated from the renderer by one function that takes neither renderer nor document")
    r.rule("no-mutable-static", "no mutable or interior-mutable static is referenced")
    r.rule("no-unordered-iteration", "no iteration over an unordered collection, except where the result does not depend on the order")
    g = Graph(P)
    roots = entry_ids(P)
    live = g.reach(roots)
    r.ob("no-ambient", "rendering is reached", P.one("serialize_node").id in live, "serialize_node is not reachable from the entry points")
    users = {i for i in live for v, sp, j in g.ext[i] if re.match(r"^std::(process|thread|time)::", v)}
    exempt = set()
    if users:
        d = common_dominator(g, roots, users, live)
        b = g.ids.get(d)
        args = " ".join(x[0] for x in b.locals[1:b.nargs + 1]) if b else "Serializer"
        okk = b is not None and "Serializer" not in args and "AstNode" not in args and "Node" not in args
        r.ob("runner-only-formatters", "one function leads to all process, thread and clock uses", okk,
             f"{', '.join(sorted(g.ids[u].path for u in users))} are reached through {b.path if b else '?'}")
        if okk:
            exempt = {x for x in live if x == d or x not in g.reach(roots, avoid={d})}
            r.sample(f"external formatter runner: {b.path}")
    for i in sorted(live - exempt, key=lambda i: g.ids[i].path):
        b = g.ids[i]
        if b.derived and b.name == "fmt":
            continue
        bad = [(v, why, sp) for v, sp, j in g.ext[i] for rx, why in DENY if re.search(rx, v)]
        for v, sp, j in g.ext[i]:
            if re.search(r"Once(Lock|Cell)|LazyCell", v) and v.split("::")[-1] not in ("new", "get", "deref", "force"):
                if not v.endswith("get_or_init") or any(c.upv for c in g.ids.values() if c.kind == "closure" and c.parent == b.id):
                    bad.append((v, "state kept between calls", sp))
        r.ob("no-ambient", b.path, not bad, bad and f"uses {bad[0][0]} ({bad[0][1]})", bad and bad[0][2] or b.span)
        r.count("functions_checked")
        for v, sp, j in g.ext[i]:
            last = v.split("::")[-1]
            ga = " ".join(str(x) for x in j.get("g", []))
            if last in ITERS and (UNORD.search(v) or ("::IntoIterator::" in v and re.match(r"^\[?'?&?(mut )?'?[^,]*std::collections::Hash(Map|Set)", ga))):
                okk = orderless(b, v, sp)
                r.ob("no-unordered-iteration", f"{b.path}: {last}", okk, f"iterates over an unordered collection through {v}", sp)
        for sp, what in statics(b):
            r.ob("no-mutable-static", f"{b.path}: {what[0]}", what[1], what[2], sp)
        r.count("statics", len(list(statics(b))))
        for sp in ptr_int(b):
            r.ob("no-ambient", f"{b.path}: address as number", False, "converts an address to a number", sp)
    r.rule("scanned", "the unordered-collection rule recognises this code base's collections")
    return "other", ("Effect analysis over the call graph from the entry points: every external function, static and iteration in every reachable function, "
                     "outside the part that runs external formatters (found by dominators). ")


def common_dominator(g, roots, users, live):
    """nearest function all paths from the roots to the users go through"""
    R = "ROOT"
    succ = {R: set(roots), **{i: {y for y in g.out.get(i, ()) if y in live} for i in live}}
    order, seen = [], set()

    def dfs(x):
        st = [(x, iter(sorted(succ.get(x, ()))))]
        seen.add(x)
        while st:
            n, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(sorted(succ.get(y, ())))))
                    break
            else:
                order.append(n)
                st.pop()
    dfs(R)
    rpo = list(reversed(order))
    num = {n: i for i, n in enumerate(rpo)}
    pred = {}
    for a in rpo:
        for b in succ.get(a, ()):
            pred.setdefault(b, []).append(a)
    idom = {R: R}
    ch = True

    def inter(a, b):
        while a != b:
            while num[a] > num[b]:
                a = idom[a]
            while num[b] > num[a]:
                b = idom[b]
        return a
    while ch:
        ch = False
        for n in rpo[1:]:
            ps = [p for p in pred.get(n, ()) if p in idom]
            d = ps[0]
            for p in ps[1:]:
                d = inter(d, p)
            if idom.get(n) != d:
                idom[n] = d
                ch = True
    us = sorted(users)
    d = us[0]
    for u in us[1:]:
        d = inter(d, u)
    # a closure belongs to its function
    while d in g.ids and g.ids[d].kind == "closure":
        d = idom[d]
    return d


def orderless(b, v, sp):
    """the iteration is consumed by a test or count whose result does not depend on the order"""
    dest = None
    for bl in b.blocks:
        t = bl["t"]
        if t[0] == "call" and not bl["cl"] and isinstance(t[1], list) and t[1][0] == "k" and t[1][1].get("v") == v and bl["sp"] == sp:
            dest = t[3][0]
    seen = set()
    todo = [dest]
    okk = False
    while todo:
        l = todo.pop()
        if l is None or l in seen:
            continue
        seen.add(l)
        for bl in b.blocks:
            if bl["cl"]:
                continue
            for s in bl["s"]:
                ps = []
                places(s[1], ps)
                if any(p[0] == l for p in ps):
                    todo.append(s[0][0])
            t = bl["t"]
            if t[0] == "call":
                ps = []
                places(t[2], ps)
                if any(p[0] == l for p in ps):
                    nm = t[1][1].get("v", "").split("::")[-1] if t[1][0] == "k" else ""
                    if nm in ORDERLESS:
                        okk = True
                    elif nm in ("map", "filter", "filter_map", "cloned", "copied", "into_iter", "flat_map"):
                        todo.append(t[3][0])
                    elif nm == "collect" and re.search(r"Hash(Set|Map)|BTree", str(t[1][1].get("g"))):
                        okk = True
                    else:
                        return False
    return okk


def statics(b):
    """(span, (name, ok, why)) of statics a body refers to"""
    def go(j):
        if isinstance(j, dict):
            if j.get("k") == "static":
                yield j
            for x in j.values():
                yield from go(x)
        elif isinstance(j, list):
            for x in j:
                yield from go(x)
    for bl in b.blocks:
        for j in go(bl["t"]):
            yield bl["sp"], stat(j)
        for s in bl["s"]:
            for j in go(s[1]):
                yield s[2], stat(j)


def stat(j):
    ty = j.get("ty", "")
    if re.match(r"^std::sync::(LazyLock|OnceLock)<", ty) and not re.search(r"Mutex|RwLock|Atomic|Cell<", ty):
        return (j.get("v", "?"), True, "")
    if j.get("freeze") is False:
        return (j.get("v", "?"), False, f"a static with interior mutability: {ty}")
    if j.get("mut"):
        return (j.get("v", "?"), False, "a mutable static")
    if re.search(r"Mutex|RwLock|Atomic|Cell<|OnceLock|OnceCell|LocalKey", ty):
        return (j.get("v", "?"), False, f"a static with interior mutability: {ty}")
    return (j.get("v", "?"), True, "")


def ptr_int(b):
    for bl in b.blocks:
        for s in bl["s"]:
            if s[1] and s[1][0] == "cast" and "Expose" in str(s[1][1]):
                yield s[2]
