"""C27: typographic substitutions and sentence case happen only under their own settings."""
import json
import unroll
from engine import Interp
from values import *
from checks.cli import prog
from checks.effects import Graph, reads
from checks.formatters import asts
from program import Missing

DASHES = ("en_dash", "em_dash")
SETTINGS = ("curly_double_quotes", "curly_single_quotes", "curly_apostrophes", "ellipsis") + DASHES
CASE = "heading_sentence_case"
NAMES = {"“": "left double quote", "”": "right double quote", "‘": "left single quote", "’": "right single quote",
         "…": "ellipsis", "–": "en dash", "—": "em dash"}
OWN = {"“": ("curly_double_quotes",), "”": ("curly_double_quotes",), "‘": ("curly_single_quotes",),
       "’": ("curly_single_quotes", "curly_apostrophes"), "…": ("ellipsis",), "–": ("en_dash",), "—": ("em_dash",)}
# calls that only look at a character or text they are given
LOOK = {"eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "contains", "contains_key", "get", "starts_with", "ends_with",
        "strip_prefix", "strip_suffix", "find", "rfind", "split", "rsplit", "splitn", "rsplitn", "split_once", "rsplit_once",
        "split_terminator", "split_inclusive", "matches", "rmatches", "match_indices", "trim_matches", "trim_start_matches",
        "trim_end_matches", "position", "any", "all", "len", "len_utf8", "is_empty", "chars", "char_indices", "bytes", "as_bytes",
        "width", "is_alphabetic", "is_alphanumeric", "is_whitespace", "is_ascii_punctuation", "take_while", "skip_while",
        "deref", "deref_mut", "as_ref", "as_str", "borrow", "clone", "to_string", "to_owned", "into", "from", "drop"}
TO_CASE = ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "make_ascii_lowercase", "make_ascii_uppercase")


def marks(s):
    return {c for c in str(s) if c in NAMES}


def direct(I, v, out, seen):
    """typographic characters that v is, or is put together from at this place"""
    if v in seen or len(seen) > 400:
        return
    seen.add(v)
    if v.op == "k":
        if v.a[0] in ("char", "str"):
            out |= marks(v.a[1] if v.a[0] == "str" else v.a[1] if isinstance(v.a[1], str) else chr(v.a[1]))
    elif v.op in ("phi", "alt") or v.op == "f" and I.has_phi_base(v):
        for x in I.alts(v):
            if x is not v:
                direct(I, x, out, seen)
    elif v.op in ("agg", "ref", "tuple") or v.op == "call" and (v.a[0].startswith("core::fmt") or v.a[0] in ("concat", "arg", "format", "some", "Some")):
        for x in children(v):
            direct(I, x, out, seen)


def emitted(I, e):
    """typographic characters a call puts into text"""
    n = e.path.split("::")[-1]
    args = e.args
    if n in LOOK:
        return set()
    if n in ("replace", "replacen"):
        args = args[2:3]
    out = set()
    for a in args:
        direct(I, a, out, set())
    return out


def has_marks(b):
    t = json.dumps([b.blocks, b.promoted if isinstance(b.promoted, list) and (not b.promoted or isinstance(b.promoted[0], dict)) else
                    [p.blocks for p in b.promoted]], ensure_ascii=False)
    return any(c in t for c in NAMES) or any(json.dumps(c)[1:-1] in t for c in NAMES) or any(f'"v": {ord(c)}' in t for c in NAMES)


def payload(v, out, inside=False):
    """the dash settings whose pattern v compares with or contains (not merely its length)"""
    if v.op == "f":
        if inside and v.a[1] in DASHES:
            out.add(v.a[1])
        payload(v.a[0], out, True)
    elif v.op == "call" and v.a[0].split("::")[-1] in ("len", "count", "is_empty", "isempty", "is_none", "is_some"):
        return
    elif v.op == "discr":
        payload(v.a[0], out, False)
    else:
        for x in children(v):
            payload(x, out, inside and v.op not in ("call", "bin", "cmp", "un"))


def payloads(vs):
    out = set()
    for v in vs:
        payload(v, out)
    return out


def changes_case(e):
    return e.path.split("::")[-1] in TO_CASE


class Typo:
    def __init__(self, r):
        P = self.P = prog()
        self.r = r
        g = self.g = Graph(P)
        self.entries = [b.id for b in P.bodies.values() if b.crate == "lib" and b.kind != "closure" and
                        (b.path in ("format", "format_with_warnings") or b.path.startswith("serializer::serialize_with"))]
        derived = [b.id for b in P.bodies.values() if " as std::clone::Clone>" in b.path or " as std::fmt::Debug>" in b.path or
                   " as std::cmp::PartialEq" in b.path]
        self.live = g.reach(self.entries, derived)
        self.emitters, self.alone = {}, {}
        for i in self.live:
            b = g.ids[i]
            cased = any(v.split("::")[-1] in TO_CASE for v, _, _ in g.ext.get(i, ()))
            if not (has_marks(b) or cased):
                continue
            I = Interp(P, opaque=lambda x: True)
            outs = I.run(b, [sym(f"A{k}") for k in range(b.nargs)])
            self.account(I)
            em = {}
            for e in I.all_events():
                for c in emitted(I, e):
                    em.setdefault(c, e.span)
                if changes_case(e):
                    em.setdefault("case", e.span)
            for o in outs:
                s = set()
                direct(I, o[0], s, set())
                for c in s:
                    em.setdefault(c, b.span if hasattr(b, "span") else "")
            if em:
                self.emitters[i] = em
        # functions that decide by a typographic setting or by the sentence case setting
        self.roots = [i for i in self.live if any(f in SETTINGS + (CASE,) for f, *_ in reads(g.ids[i], "Options"))]
        rev = {}
        for x in self.live:
            for y in g.out.get(x, ()):
                rev.setdefault(y, set()).add(x)
        self.reaching = set()
        todo = list(self.emitters)
        while todo:
            x = todo.pop()
            if x not in self.reaching:
                self.reaching.add(x)
                todo += rev.get(x, ())
        self.cache, self.rcache, self.follow = {}, {}, {}
        self.local = {b.path for b in P.bodies.values() if b.kind != "closure"}

    def account(self, I):
        self.r.interp(I)

    def settled(self, v):
        """is v a setting, or decided by one?"""
        if v.op == "f":
            return v.a[1] in SETTINGS + (CASE,) or self.settled(v.a[0])
        if v.op == "call":
            return False
        return any(self.settled(x) for x in children(v))

    def root_run(self, i, on, unseen=None):
        """(emissions, calls not followed) of a deciding function with exactly the settings in `on` enabled,
        if the pattern of the dash `unseen` does not occur in the text"""
        key = (i, on, unseen)
        if key in self.cache:
            return self.cache[key]
        P, b = self.P, self.g.ids[i]
        pat = self.pattern_discr()

        def assume(I, st, v):
            if v.op == "f" and v.a[1] in SETTINGS + (CASE,) and v.a[1] not in DASHES:
                return kbool(v.a[1] in on)
            if v.op == "discr" and v.a[0].op == "f" and v.a[0].a[1] in DASHES:
                return kint(pat if v.a[0].a[1] in on else 1 - pat)
            if unseen and v.op in ("bin", "cmp", "call", "discr") and v.a[0] not in ("Add", "Sub"):
                used = set()
                payload(v, used)
                if unseen in used:
                    neg = v.op in ("bin", "cmp") and v.a[0] in ("Ne", "ne")
                    return kint(0) if v.op == "discr" else kbool(neg) if v.op in ("bin", "cmp") else FALSE
            return None
        # callees that are handed a setting are followed, so that what they decide by it is seen
        follow = self.follow.setdefault(i, set())
        while True:
            I = Interp(P, opaque=lambda x: x.kind != "closure" and x.id not in follow and len(x.blocks) > 4, assume=assume, hooks=unroll.HOOKS)
            I.run(b, [sym(f"A{k}") for k in range(b.nargs)])
            self.account(I)
            new = set()
            for e in I.all_events():
                if e.kind == "local" and (e.info.id in self.reaching or emitted(I, e)) and not asts(e.info) and any(self.settled(x) for x in e.args):
                    new.add(e.info.id)
            if new <= follow:
                break
            follow |= new
        em, calls = {}, set()
        for e in I.all_events():
            if e.kind == "enter":
                continue
            if e.kind == "local":
                calls.add(e.info.id)
                continue
            for c in emitted(I, e):
                em.setdefault(c, []).append((e, I))
            if changes_case(e):
                em.setdefault("case", []).append((e, I))
        self.cache[key] = (em, calls, I)
        return self.cache[key]

    def pattern_discr(self):
        a = self.P.adts.get("config::DashSetting") or next(v for k, v in self.P.adts.items() if k.endswith("DashSetting") and "Js" not in k)
        return next(i for i, v in enumerate(a["variants"]) if v[2])

    def reached(self, on):
        """emissions reachable from the entry points with exactly these settings on: char -> [(function, way there, site)]"""
        on = frozenset(on)
        if on in self.rcache:
            return self.rcache[on]
        out = {}
        seen, todo = set(), [(i, None) for i in self.entries]
        while todo:
            i, way = todo.pop()
            if (i, way) in seen or i not in self.live:
                continue
            seen.add((i, way))
            if i in self.roots:
                em, calls, I = self.root_run(i, on)
                for c, es in em.items():
                    for e, _ in es:
                        out.setdefault(c, []).append((e.fn.name, tuple(f for f, _ in self.stack(I, e)) + (e.span,), e.span))
                todo += [(c, (i, c)) for c in calls]
            else:
                for c, sp in self.emitters.get(i, {}).items():
                    out.setdefault(c, []).append((self.g.ids[i].name, way, sp))
                todo += [(y, way) for y in self.g.out.get(i, ())]
        self.rcache[on] = out
        return out

    def stack(self, I, e):
        n = e.node
        while isinstance(n, tuple) and n and not isinstance(n[0], int):
            n = n[0]
        return I.stack_of(n[0] if isinstance(n, tuple) else n)


def C27(r):
    r.rule("own-setting", "a typographic character is put into text only on paths where its own setting is on")
    r.rule("reached", "with its setting on there is a path on which the substitution is made")
    r.rule("configured-pattern", "a dash replaces an occurrence of the pattern configured for that dash")
    r.rule("sentence-case", "letters change case only on paths where sentence case is on")
    T = Typo(r)
    r.count("functions that emit typographic characters or change case", len(T.emitters))
    r.ob("reached", "deciding functions", bool(T.roots), "no function of the formatter consults a typographic setting")
    allon = frozenset(SETTINGS)
    for c, own in OWN.items():
        others = allon - set(own)
        em = T.reached(others).get(c, [])
        base = {x[0] for x in em}
        r.ob("own-setting", f"{NAMES[c]}", not em, f"is written by {sorted(base)} although {' and '.join(own)} {'is' if len(own) == 1 else 'are'} off", em[0][2] if em else "")
        # headings in sentence case
        more = [x for x in T.reached(others | {CASE}).get(c, []) if x[0] not in base]
        r.ob("own-setting", f"{NAMES[c]} in a heading put into sentence case", not more,
             f"is written by {sorted({x[0] for x in more})} although {' and '.join(own)} {'is' if len(own) == 1 else 'are'} off", more[0][2] if more else "")
        for s in own:
            got = T.reached({s}).get(c, [])
            r.ob("reached", f"{NAMES[c]} under {s}", bool(got), "is never written")
    one = {x[1] for x in T.reached({"curly_single_quotes"}).get("’", [])}
    two = {x[1] for x in T.reached({"curly_apostrophes"}).get("’", [])}
    r.ob("own-setting", "apostrophes and single quotes apart", not (one & two),
         "the same substitution is made under curly_single_quotes alone and under curly_apostrophes alone", str(next(iter(one & two), "")))
    # case
    em = T.reached(allon).get("case", [])
    r.ob("sentence-case", "letter case", not em, f"is changed by {sorted({x[0] for x in em})} although {CASE} is off", em[0][2] if em else "")
    r.ob("reached", f"letter case under {CASE}", bool(T.reached({CASE}).get("case")), "no case conversion is made")
    # dash patterns
    for s, c in (("en_dash", "–"), ("em_dash", "—")):
        n = 0
        for i in T.roots:
            em, _, I = T.root_run(i, allon)
            # a substitution that takes the pattern as an argument
            direct_use = lambda e: payloads(e.args)
            mine = [e for e, _ in em.get(c, [])]
            n += len(mine)
            left = [e for e, _ in T.root_run(i, allon, s)[0].get(c, []) if s not in direct_use(e)]
            r.ob("configured-pattern", f"{NAMES[c]}", not left, f"is written where the pattern of {s} does not occur", left[0].span if left else "")
            o = DASHES[1 - DASHES.index(s)]
            wrong = [e for e in mine if o in direct_use(e)]
            rest = T.root_run(i, allon, o)[0].get(c, [])
            r.ob("configured-pattern", f"{NAMES[c]} without the pattern of {o}", not wrong and (bool(rest) or not mine),
                 f"is written only where the pattern of {o} occurs", mine[0].span if mine else "")
        r.ob("configured-pattern", f"{NAMES[c]}: substitutions", n > 0, "none found")
    return "other", "Reachability of every site that writes a typographic character or changes case, under each combination of settings. "
