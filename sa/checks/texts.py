"""C25, C45, C46: what happens to the characters of plain text: escaping, typographic substitution, wrapping.

All three follow one arbitrary character of the text (words.py) through the function in question; the rest of the text is
what comes before (L) and after (R) it."""
import multiprocessing
import os
import re
import sys
from concurrent.futures import ProcessPoolExecutor

from engine import TooBig
from program import Missing
from values import show
from words import Words
from checks.cli import prog
from checks.effects import Graph

SUBST = set("\"'.“”‘’…–—")        # the characters that substitution is about, and what it puts for them
KEPT = re.compile("L?[WE]R?$")
LIMIT = 400_000


def is_text(t):
    return t.replace("'{erased}", "").replace("&", "").replace("'_ ", "").strip() in ("str", "std::string::String", "alloc::string::String", "String")


def texts_of(b):
    """the arguments of a function that are texts"""
    return [i for i in range(b.nargs) if is_text(b.locals[i + 1][0])]


def gives_text(b):
    return b.locals[0][0].split("::")[-1] == "String" or "Cow<" in b.locals[0][0]


PROG = None


def one(job):
    """what b makes of its k-th argument, as {word: an example}; None if it is not decided"""
    i, k, kw = job
    sys.setrecursionlimit(20000)
    W = Words(PROG, limit=LIMIT, **kw)
    try:
        got = W.decide(PROG.bodies[i], k)
    except (TooBig, RecursionError):
        return None, W.nsteps, sorted(W.fns)
    res = {}
    for w, v in got:
        res.setdefault(w, show(v, 0, 5)[:160])
    if any(w is None or "?" in w for w in res):
        res = None
    return res, W.nsteps, sorted(W.fns)


def batch(r, P, jobs):
    """jobs: [(function, number of the text argument, settings of the run)]"""
    global PROG
    PROG = P
    ex = ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork"))
    ids = {id(b): i for i, b in P.bodies.items()}
    out = []
    for res, n, fns in ex.map(one, [(ids[id(b)], k, kw) for b, k, kw in jobs]):
        out.append(res)
        r.count("analysis_steps", n)
        r.count("runs")
        r.count("runs_undecided", 0 if res is not None else 1)
        fs = r.counts.setdefault("functions", [])
        fs.extend(f for f in fns if f not in fs)
    ex.shutdown()
    return out


def place(pos):
    return "anywhere" if pos is None else ("first", "second", "third", "fourth")[pos]


def meaning(w):
    if w == "!":
        return "what comes before or after a character is put out of order, repeated or left out, or a backslash is put in that is not one of an escape"
    if not w or not re.search("[WE]", w):
        return "one character of the text is lost"
    return "characters are lost or out of order"


def roots(P, g, mod, name):
    """functions of a module (or with a name) that others call and that turn a text into a text"""
    fs = [b for b in P.bodies.values() if b.crate == "lib" and b.kind != "closure" and gives_text(b) and texts_of(b)
          and "::tests::" not in b.path]
    inm = [b for b in fs if f"::{mod}::" in "::" + b.path]
    if not inm:
        inm = [b for b in fs if re.search(name, b.name)]
    if not inm:
        raise Missing(f"no function of {mod} turns a text into a text")
    ids = {b.id for b in inm}
    outer = []
    for b in inm:
        users = {i for i, es in g.out.items() if b.id in es}
        if any(f"::{mod}::" not in "::" + g.ids[i].path and "tests" not in g.ids[i].path for i in users):
            outer.append(b)
    return (outer or inm), inm


def chars(b):
    """character constants of a function"""
    out = set()

    def go(j):
        if isinstance(j, dict):
            if j.get("k") == "char":
                out.add(j["v"])
            elif j.get("k") == "str" and isinstance(j.get("v"), str) and len(j["v"]) == 1:
                out.add(j["v"])
            for x in j.values():
                go(x)
        elif isinstance(j, list):
            if j[:1] == ["switch"] and j[4:5] == ["char"]:
                out.update(chr(c) for c, _ in j[2] if isinstance(c, int))
            for x in j:
                go(x)
    for x in b.blocks:
        go(x)
    go([p if isinstance(p, dict) else p.blocks for p in b.promoted or []])
    return {c for c in out if len(c) == 1}


def certain(r, b, what, got, good):
    """the words of results, without those that are wrong but come about in a way that is not wholly understood"""
    out = set()
    for w in got:
        if w.endswith("~"):
            if not good(w[:-1]):
                r.notes.append(f"not decided in some cases: {b.name}, {what}")
                continue
        out.add(w.rstrip("~"))
    return sorted(out)


def conserve(r, P, jobs):
    """every run keeps the text; the jobs: [(function, number of its text argument, what, settings)]"""
    n = 0
    for (b, k, what, kw), got in zip(jobs, batch(r, P, [(b, k, kw) for b, k, _, kw in jobs])):
        if got is None:
            r.notes.append(f"not decided: {b.name}, {what}")
            continue
        n += 1
        for w in certain(r, b, what, got, lambda w: KEPT.match(w)):
            r.ob("kept", f"{b.name}: {what}", bool(KEPT.match(w)), "" if KEPT.match(w) else
                 f"{meaning(w)} (what is returned has the word {w!r}: {got.get(w, '')})", b.span)
        if not got:
            r.notes.append(f"never returns: {b.name}, {what}")
    return n


GAPS = {" ": "a space", "\x00": "a line break of the source", "\n": "a hard line break"}


def C45(r):
    r.rule("kept", "following one arbitrary character that is not white space through wrapping, on every path of every function "
                   "involved: it is written exactly once, after everything that came before it and before everything that came after")
    r.rule("apart", "following one arbitrary space or line break of the text: where it was, between what comes before and what "
                    "comes after, something white is written (for a hard line break: a line break behind two spaces or a backslash)")
    P = prog()
    g = Graph(P)
    outer, every = roots(P, g, "wrap", "^wrap")
    done = conserve(r, P, [(b, texts_of(b)[0], f"a character that comes {place(p)} in the text", dict(pos=p, white=False))
                           for b in outer for p in (None, 0, 1, 2)])
    jobs = [(b, texts_of(b)[0], f"{w} that comes {place(p)} in the text", dict(cls=c, pos=p, white=True, gap=True))
            for b in outer for c, w in GAPS.items() for p in (None, 1, 2)]
    for (b, k, what, kw), got in zip(jobs, batch(r, P, [(b, k, kw) for b, k, _, kw in jobs])):
        if got is None:
            r.notes.append(f"not decided: {b.name}, {what}")
            continue
        done += 1
        bad = [w for w in certain(r, b, what, got, lambda w: "LR" not in w and "!" not in w) if "LR" in w or "!" in w]
        r.ob("apart", f"{b.name}: {what}", not bad, "" if not bad else "what comes before it and what comes after it are joined"
             if "LR" in bad[0] else "what comes before and after it is put out of order or repeated", b.span)
    r.count("wrapping_functions", len(outer))
    r.count("runs_decided", done)
    r.assumptions.append("std's str, String, Vec and iterator operations behave as modelled in sa/words.py")
    r.assumptions.append("for the rule `apart`: texts begin with a character that is not white space, and pieces of the text "
                         "between line breaks are not empty (with nothing before or after, nothing can be joined)")
    return "other", ("Abstract interpretation over a finite domain of order-preserving accumulation: one arbitrary non-white "
                     "character W of the text, everything before it (L) and after it (R); loops are explored to the fixpoint "
                     "without joins, every value returned must have the word L?WR?. White space is followed in the same way: "
                     "never LR.")


def C46(r):
    r.rule("kept", "following one arbitrary character of an ordinary kind (a letter, digit, bracket, marker, space or non-ASCII "
                   "character, none of which any substitution is about) through typographic substitution: it is returned exactly "
                   "once and in its place, whatever stands around it")
    P = prog()
    g = Graph(P)
    outer, every = roots(P, g, "punctuation", "^transform_")
    kinds = {"x": "a letter", "7": "a digit", "(": "a bracket", "#": "a hash", "é": "a non-ASCII letter", " ": "a space",
             "\n": "a line break", "_": "an underscore", "\u00a0": "a no-break space"}
    inner = g.reach([b.id for b in outer], [])
    for i in inner:
        for c in chars(g.ids[i]):          # what the substitutions look for
            if c not in SUBST:
                kinds.setdefault(c, f"the character {c!r}")
    kinds = [(w, c) for c, w in kinds.items()]
    done = conserve(r, P, [(b, texts_of(b)[0], f"{w} that comes {place(p)} in the text", dict(cls=c, white=True, pos=p))
                           for b in outer + [b for b in every if b not in outer] for p in (None, 0, 1) for w, c in kinds])
    r.count("runs_decided", done)
    r.count("substitutions", len(every))
    r.count("entry_functions", len(outer))
    r.assumptions.append("std's str, String, Vec and iterator operations behave as modelled in sa/words.py")
    return "other", ("Abstract interpretation over a finite domain of order-preserving accumulation, one run per substitution and "
                     "kind of character.")


SPECIAL = "*_`\\"
ESCAPED = re.compile("L?ER?$")


def C25(r):
    r.rule("kept", "following one arbitrary character, per kind, through escaping: it is written exactly once and in its place")
    r.rule("escaped", "following one arbitrary `*`, `_`, backtick or backslash through the escaping of text (and a `|` that begins "
                      "a cell through the escaping of cells): it is always written behind a backslash or as an entity")
    P = prog()
    roles = {"escape_text": SPECIAL, "escape_text_preserving_source": SPECIAL, "escape_table_cell": "|"}
    fns = {}
    for b in P.bodies.values():
        if b.crate == "lib" and b.kind != "closure" and b.name in roles and gives_text(b) and texts_of(b) and "::tests::" not in b.path:
            fns.setdefault(b.name, b)
    for n in roles:
        if n not in fns:
            r.notes.append(f"no function {n}: not analysed")
    if not fns:
        raise Missing("no function that escapes text")
    g = Graph(P)
    inner = g.reach([b.id for b in fns.values()], [])
    kinds = {"x": "a letter", "7": "a digit", " ": "a space", "\n": "a line break", "é": "a non-ASCII letter", "<": "an angle bracket",
             "#": "a hash", "!": "an exclamation mark"}
    for i in inner:
        for c in chars(g.ids[i]):
            kinds.setdefault(c, f"the character {c!r}")
    for c in SPECIAL + "|":
        kinds.setdefault(c, f"the character {c!r}")
    jobs = [(b, texts_of(b)[0], f"{w} that comes {place(p)} in the text", dict(cls=c, white=True, pos=p))
            for b in fns.values() for p in (None, 0, 1) for c, w in kinds.items()]
    done = 0
    for (b, k, what, kw), got in zip(jobs, batch(r, P, [(b, k, kw) for b, k, _, kw in jobs])):
        if got is None:
            r.notes.append(f"not decided: {b.name}, {what}")
            continue
        done += 1
        for w in certain(r, b, what, got, lambda w: KEPT.match(w)):
            r.ob("kept", f"{b.name}: {what}", bool(KEPT.match(w)), "" if KEPT.match(w) else
                 f"{meaning(w)} (what is returned has the word {w!r}: {got.get(w, '')})", b.span)
        cls = kw["cls"]
        if cls in roles[b.name] and (cls != "|" or kw["pos"] == 0):
            for w in certain(r, b, what, got, lambda w: ESCAPED.match(w)):
                if KEPT.match(w):
                    r.ob("escaped", f"{b.name}: {what}", bool(ESCAPED.match(w)),
                         "" if ESCAPED.match(w) else "it may be written without a backslash before it", b.span)
    r.count("runs_decided", done)
    r.count("escaping_functions", len(fns))
    r.assumptions.append("std's str, String, Vec and iterator operations behave as modelled in sa/words.py; the table of HTML entities "
                         "pairs each entity with the character it stands for")
    return "other", ("Abstract interpretation over a finite domain of order-preserving accumulation, one run per escaping function, "
                     "kind and place of the character; a character behind a backslash constant, or replaced by the entity paired "
                     "with it, counts as escaped.")
