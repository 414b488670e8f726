"""Order-preserving accumulation of the elements of a text.

One arbitrary element (a character) of a text is the witness W; everything before it is L, everything after it R.  A value made from the text is described by its *word*: the sequence of the letters L, W, E (W written behind a
backslash) and R it is made of, repetitions of one letter counted once.  Constants, prefixes and other texts have the
empty word.  A function keeps its text exactly if the word of what it returns is L?WR? whichever element is the
witness: a lost, repeated or displaced character is the witness of some run.

The analysis is an abstract interpretation over a finite domain: blocks are executed by the engine, nothing is joined, and at every loop header the state is replaced by its abstraction (the words of texts, the distance of cursors from the witness up to a window, constants of flags), so that the states at a header are finitely many; they are all explored."""
import itertools
import re

from engine import Frame, Interp, TooBig, State
from values import (FALSE, NONE, TRUE, V, agg, cval, is_const, kbool, kchar, kint, mk, some, walk)

WIN = 3          # cursors are known exactly up to this distance from the witness
VAGUE = mk("vague")
INTS = ("usize", "isize", "i32", "u32", "u8", "u64", "i64", "bool")
TESTS = {"starts_with", "ends_with", "contains", "find", "rfind", "any", "all", "matches", "eq", "ne", "cmp", "position", "rposition", "strip_prefix",
         "strip_suffix", "is_some_and", "split_once", "rsplit_once"}
ERASE = {"trim", "trim_start", "trim_end"}
SAME = {"to_string", "to_owned", "as_str", "into", "from", "clone", "chars", "iter", "into_iter", "as_slice", "deref",
        "collect", "as_ref", "borrow", "into_boxed_str", "into_string", "char_indices", "copied", "cloned", "bytes_of", "into_owned", "as_mut_str"}
SPLITS = {"split", "lines", "split_whitespace", "split_inclusive", "split_terminator", "split_ascii_whitespace"}


GOOD = re.compile("L?[WE]?R?$")
WHITE = " \t\n\r\x0b\x0c\x00"      # (\x00 marks a line break of the original text)


def merge(a, b):
    """the word of two texts one after the other; `!` if elements are out of order, repeated or left out"""
    if a is None or b is None:
        return None
    if not a or not b:
        return a or b
    if "?" in a + b:
        return "?"
    if "!" in a + b:
        return "!"
    w = a + b[1:] if a[-1] == b[0] and a[-1] in "LR" else a + b
    return w if GOOD.match(w) and not ("L" in w and "R" in w and len(w) == 2) else "!"


GAPPED = re.compile("L?[WS]?R?$")


def between(a, b):
    """as merge, the witness being white space: S is white space put there by the program, white space next to white space
    counts once, inside of L and R it does not count"""
    if a is None or b is None:
        return None
    w = a + b
    if "?" in w:
        return "?"
    if "!" in w:
        return "!"
    old = None
    while w != old:
        old = w
        for x, y in (("LL", "L"), ("RR", "R"), ("SS", "S"), ("LSL", "L"), ("RSR", "R"), ("WS", "W"), ("SW", "W"), ("WW", "W"), ("SL", "L"), ("RS", "R"), ("WL", "L"), ("RW", "R")):
            w = w.replace(x, y)
    return w if GAPPED.match(w) else "!"


def I_shapes(I):
    return any(E.a[0] not in ("map", "cloned", "copied") for E in I.shapes)


class Words(Interp):
    """cls: what is known of the witness: a character constant, or None
    gap: the witness is white space, and what matters is that something white is left in its place"""

    def __init__(self, prog, cls=None, white=False, limit=3_000_000, pos=None, gap=False):
        super().__init__(prog, budget=limit)
        self.cls, self.white, self.pos, self.gap = cls, white, pos, gap
        self.merge = between if gap else merge
        self.assume_fn = self.assumed
        self.on_elem = self.elem
        self.opaque_call = self.closed
        self.n = itertools.count()
        self.splits_get = True
        self.cursors = set()
        self.newcur = False
        self.heads = {}
        self.W = mk("ltr", "W", 0)
        self.cache = {}
        self.locs = {}
        self.vary = {}
        self.why = []
        self.over = {}
        self.loose = False         # has the rest of a list (LIST[i..]) been gone through as a whole?

    # -- words ------------------------------------------------------------
    def parts(self, v, facts, out):
        """what a text is made of, in order: letters, constants, or None for the unknown"""
        o, a = v.op, v.a
        if o == "k":
            if a[0] in ("str", "char"):
                out.extend(("c", ch) for ch in str(a[1]))
            return
        if o == "cat":
            for x in a:
                self.parts(x, facts, out)
            return
        if o in ("item", "items", "ref_to"):
            return self.parts(a[0], facts, out)
        if o == "ltr":
            out.append(("v", v, a[0]))
            return
        if o == "agg" and a[0] == "array":
            for x in a[3]:
                self.parts(x, facts, out)
            return
        if o == "str":
            out.append(("w", a[1]))
            return
        if o == "sym" or o == "empty" or o == "undef":
            return
        if o == "idx":
            w = self.listword(a[0])
            if w:
                lt = self.at(a[0], w, a[1])
                out.append(("w", lt) if lt is not None and self.strs(a[0]) else ("v", v, lt) if lt else ("?",))
            elif w is None and self.lettered(a[0]):
                out.append(("?",))
            else:
                out.append(("v", v, ""))      # an element of another list
            return
        if o == "call":
            n = a[0].split("::")[-1].split("<")[0]
            args = [x for x in a[1:] if x.__class__ is V]
            if n in ERASE and not self.white and args:
                return self.parts(args[0], facts, out)
            if n in ERASE and self.gap and args:
                w = self.word(args[0], facts)
                if w and n != "trim_end":
                    w = w.lstrip("WS")
                if w and n != "trim_start":
                    w = w.rstrip("WS")
                out.append(("w", w) if w is not None else ("?",))
                return
            if n in ("replace", "replacen") and len(args) >= 3 and all(is_const(x) for x in args[1:]) and self.untouched(args[1], args[2]):
                return self.parts(args[0], facts, out)
            if n in SAME and len(args) == 1:
                return self.parts(args[0], facts, out)
        if o == "concat" and len(a) == 1:
            return self.parts(a[0], facts, out)
        if o == "f":
            out.append(("v", v, ""))
            if self.lettered(a[0]):
                out.append(("?",))
            return
        if o in ("phi", "alt"):
            out.append(("?",))
            return
        if self.lettered(v):
            if o in ("call", "collect", "list") and any(x.op == "slice" for x in walk(v)):
                self.loose = True
            out.append(("?",))
        else:
            out.append(("v", v, ""))

    def untouched(self, pat, new):
        """does replacing one constant by another leave the witness (or something white in its place)?"""
        pat, new = str(pat.a[1]), str(new.a[1])
        if self.gap:
            return bool(pat) and all(x in WHITE for x in pat) and any(x in WHITE for x in new)
        if self.cls is None:
            return not self.white and bool(pat) and all(x in WHITE for x in pat)
        return bool(pat) and self.cls not in pat

    def lettered(self, v):
        return any(x.op == "ltr" or x.op == "str" and x.a[1] != "" or x.op in ("phi", "alt") for x in walk(v))

    def word(self, v, facts=None):
        out = []
        facts = facts or {}
        self.parts(v, facts, out)
        if any(p[0] == "?" for p in out):
            return None
        # elements of other texts known to equal an element of ours stand for it
        lets, pairs = {}, {}
        if facts:
            for f_, k in facts.items():
                if f_.op == "bin" and f_.a[0] == "Eq" and k is TRUE:
                    x, y = f_.a[1], f_.a[2]
                    for p, q in ((x, y), (y, x)):
                        lt = self.letter(p)
                        if lt and not self.letter(q):
                            lets[q] = (lt, p)
                            if q.op == "f":
                                pairs[q.a[0]] = (lt, p)
        res = []          # letters and constants
        present = set()
        for p in out:
            if p[0] == "w":
                res.append(("w", p[1]))
            elif p[0] == "v":
                lt, who = p[2], p[1]
                if lt and not self.white and self.blank(p[1], facts):
                    continue
                if not lt and p[1] in lets:
                    lt, who = lets[p[1]]
                elif not lt and p[1].op == "f" and p[1].a[0] in pairs:
                    # a text paired with the character it stands for (an entity)
                    lt, who = pairs[p[1].a[0]]
                    lt = "E" if lt == "W" else lt
                if lt:
                    present.add(who)
                    res.append(("l", lt))
                elif p[1].op == "f":
                    pass
            else:
                res.append(p)
        # constants that stand for an element known to be that constant
        known = {}
        for f_, k in (facts or {}).items():
            if k.__class__ is V and k.op == "k" and k.a[0] == "char" and f_ not in present:
                lt = self.letter(f_)
                if lt:
                    known.setdefault(k.a[1], []).append((lt, f_))
        if self.cls:
            at = {f_.a[0] for f_ in (facts or {}) if f_.op == "atw"}
            if at and not at & present and not any(p[0] == "w" and ("W" in p[1] or "E" in p[1]) for p in res):
                known.setdefault(self.cls, []).append(("W", self.W))
        w = self.joined(res)
        for ch, ls in known.items():
            for lt, f_ in ls:
                ix = [i for i, p in enumerate(res) if p == ("c", ch)]
                if ix:
                    res2 = list(res)
                    res2[ix[-1]] = ("l", lt)
                    w2 = self.joined(res2)
                    if w2 != "!" or w == "!":        # it cannot stand for that one otherwise
                        res, w = res2, w2
        return w

    def joined(self, res):
        w = ""
        prev = last = None
        for p in res:
            if p[0] == "w":
                w = self.merge(w, p[1])
            elif p[0] == "l":
                lt = p[1]
                if lt == "W" and prev == ("c", "\\"):
                    lt = "E" if last != prev else "!"        # two backslashes are one more character
                w = self.merge(w, lt)
            elif self.gap and p[0] == "c" and p[1] in WHITE and (self.cls != "\n" or p[1] == "\n" and prev in (("c", " "), ("c", "\\"))):
                w = self.merge(w, "S")
            last, prev = prev, p
        return w

    def blank(self, v, facts):
        k = facts.get(v)
        if k is not None and k.op == "k" and str(k.a[1]) in WHITE and k.a[0] == "char":
            return True
        return any(f_.op == "call" and f_.a[0].split("::")[-1] in ("is_whitespace", "is_ascii_whitespace") and k is TRUE and f_.a[1] is v
                   for f_, k in facts.items())

    def letter(self, v):
        if v.op == "ltr":
            return v.a[0]
        if v.op == "idx" and not self.strs(v.a[0]):
            w = self.listword(v.a[0])
            return self.at(v.a[0], w, v.a[1]) if w else ""
        if v.op == "str" and v.a[1] in ("L", "W", "R"):
            return v.a[1]
        return ""

    # -- cursors ------------------------------------------------------------
    def linear(self, v):
        """(cursor or None, offset)"""
        if v.op == "k" and v.a[0] == "int":
            return None, v.a[1]
        if v.op == "cur":
            return v, 0
        if v.op == "bin" and v.a[0] in ("Add", "Sub") and is_const(v.a[2]):
            c, o = self.linear(v.a[1])
            return (c, o + (cval(v.a[2]) if v.a[0] == "Add" else -cval(v.a[2]))) if c is not None or v.a[1].op == "k" else (v, 0)
        return v, 0

    def rels(self, v):
        """the possible distances (exact or '<' '>') of an index from the witness; None if not a cursor"""
        c, o = self.linear(v)
        if c is None:
            if self.pos is None:                     # the witness is at a position beyond the window
                return ["<"] + [r for r in range(-WIN, o - WIN)] if o >= 0 else None
            d = o - self.pos
            return ["<" if d < -WIN else ">" if d > WIN else d]
        if c.op != "cur":
            return None
        r = c.a[1]
        if r == "<":
            return ["<"] + list(range(-WIN, min(o - WIN, WIN + 1))) if o > 0 else ["<"] if o <= 0 else None
        if r in (">", "$"):
            return [">"] if o >= 0 else [">"] + list(range(max(WIN + o + 1, -WIN), WIN + 1))
        d = r + o
        return ["<" if d < -WIN else ">" if d > WIN else d]

    def at(self, lst, w, i):
        """the letter of element `i` of a list with word `w`"""
        c, o = self.linear(i)
        if c is not None and c.op != "cur":
            if c.op in ("top", "many", "phi", "alt"):
                self.wish(c)
                return None
            return None
        if c is None and not self.strs(lst):
            pass
        rs = self.rels(i)
        if rs is None:
            return None
        if "W" not in w and "E" not in w:
            return w
        lt = {("L" if r == "<" or r != ">" and r < 0 else "W" if r == 0 else "R") for r in rs}
        if len(lt) != 1:
            return None
        lt = lt.pop()
        if lt == "W" and self.strs(lst) and self.parted(lst):
            lt = "R"
        if self.strs(lst) and lt not in w and lt != "W":
            return ""
        return w if lt == "W" and self.strs(lst) else lt

    def wish(self, top):
        b = self.local(top.a[0]) if top.op in ("top", "many") else None
        if b is not None and b not in self.cursors:
            self.cursors.add(b)
            self.newcur = True

    def local(self, b):
        if b.__class__ is V and b.op == "loc" and b.a[0] in self.ctxinfo:
            return self.ctxinfo[b.a[0]][0].id, b.a[1]
        return None

    def strs(self, lst):
        """is it a list of pieces of the text (rather than of characters)?"""
        return any(x.op == "call" and x.a[0].split("::")[-1] in SPLITS for x in walk(lst))

    def parted(self, lst):
        """is the witness the separator the text was split at?"""
        if not self.gap or self.cls is None:
            return False
        for x in walk(lst):
            if x.op == "call" and x.a[0].split("::")[-1] in SPLITS:
                n = x.a[0].split("::")[-1]
                if n in ("split_whitespace", "split_ascii_whitespace"):
                    return self.cls in " \t\n\r"
                if n == "lines":
                    return self.cls == "\n"
                sep = x.a[2] if len(x.a) > 2 else None
                while sep is not None and sep.op == "ref_to":
                    sep = sep.a[0]
                return sep is not None and sep.op == "k" and sep.a[1] == self.cls
        return False

    # -- decisions -----------------------------------------------------------
    def assumed(self, I, st, v):
        o, a = v.op, v.a
        if self.cls and (v is self.W or o == "idx" and self.letter(v) == "W" and not self.strs(v.a[0])):
            st.facts[mk("atw", v)] = TRUE
            return kchar(self.cls)
        if not self.white and o == "call" and a[0].split("::")[-1] in ("is_whitespace", "is_ascii_whitespace") and len(a) == 2 and self.letter(a[1]) == "W":
            return FALSE
        if not self.white and o == "bin" and a[0] == "Eq" and a[2].op == "k" and a[2].a[0] == "char" and a[2].a[1] in WHITE and self.letter(a[1]) == "W":
            return FALSE
        if o == "call" and a[0].split("::")[-1] == "starts_with" and len(a) == 3 and self.cls and a[1].op == "slice" and a[1].a[1] == "RangeFrom":
            # a list of constants at a place of the text: not where the witness is another one
            ks = self.consts(a[2])
            lst, i = a[1].a[0], a[1].a[2]
            if ks and self.lettered(lst) and not self.strs(lst):
                w = self.listword(lst)
                for n, k in enumerate(ks):
                    j = i if n == 0 else mk("bin", "Add", i, kint(n)) if not is_const(i) else kint(cval(i) + n)
                    if w and self.at(lst, w, j) == "W" and k != self.cls:
                        return FALSE
            elif not self.lettered(a[2]):
                self.loose = True
            return None
        if o == "call" and a[0].split("::")[-1] == "contains" and len(a) == 3 and self.cls and is_const(a[2]) and a[2].a[1] == self.cls:
            w = self.word(a[1], st.facts)
            return TRUE if w and ("W" in w or "E" in w) else None
        if o == "call" and a[0].split("::")[-1] == "is_empty" and len(a) == 2:
            w = self.word(a[1], st.facts)
            if w and ("W" in w or "E" in w or self.gap):
                return FALSE          # (in gap mode: where what is before or after is empty there is nothing to join)
            return None
        if o == "bin" and a[0] in ("Lt", "Le", "Eq"):
            x, y = a[1], a[2]
            op = a[0]
            for p, q in ((x, y), (y, x)):
                if p.op == "cur" and p.a[1] == "$" and self.length(q) == 0:      # the end of the list
                    return kbool(op != "Lt")
                if p.op == "index" and is_const(q) and cval(q) in (0, 1):      # is it the first element?
                    first = {k for f_, k in st.facts.items() if f_.op == "nth" and (len(p.a) < 2 or f_.a[1] is p.a[1])}
                    if len(first) != 1:
                        return None
                    first = first.pop() is TRUE
                    if op == "Eq":
                        return kbool(first) if cval(q) == 0 else FALSE if first else None
                    if p is y:       # q < index, q <= index
                        low = op == "Lt" and cval(q) == 0 or op == "Le" and cval(q) == 1
                        return kbool(not first) if low else TRUE if op == "Le" else None
                    low = op == "Lt" and cval(q) == 1 or op == "Le" and cval(q) == 0
                    return kbool(first) if low else FALSE if op == "Lt" else None
            if x.op == "many" and is_const(y) and y.a[0] == "int" and cval(y) <= 1:
                return FALSE
            if y.op == "many" and is_const(x) and x.a[0] == "int" and cval(x) <= 1:
                return FALSE if op == "Eq" else TRUE
            lx, ly = self.length(x), self.length(y)
            if lx is None and ly is None:
                return None
            if lx is not None and ly is not None:
                return None
            # position p of the witness: length >= p + 1
            idx, off, flip = (x, ly, False) if ly is not None else (y, lx, True)
            c, o2 = self.linear(idx)
            if c is not None and c.op != "cur":
                if c.op in ("top", "many"):
                    self.wish(c)
                return None
            rs = self.rels(mk("bin", "Sub", idx, kint(off)) if off > 0 else mk("bin", "Add", idx, kint(-off)) if off else idx)
            if c is None and self.pos is None and o2 - off <= 0:
                rs = ["<"]
            if rs and all(r == "<" or r != ">" and r <= 0 for r in rs):
                # idx - off <= p < len - 0
                if op in ("Lt", "Le"):
                    return FALSE if flip else TRUE
                return FALSE
            return None
        return None

    def consts(self, v):
        """the elements of a list of constant characters"""
        while v.op in ("ref_to", "item", "items") or v.op == "call" and v.a[0].split("::")[-1] in SAME and len(v.a) == 2:
            v = v.a[0] if v.op != "call" else v.a[1]
        if v.op == "agg" and v.a[0] == "array" and all(x.op == "k" and x.a[0] == "char" for x in v.a[3]):
            return [str(x.a[1]) for x in v.a[3]]
        if v.op == "k" and v.a[0] == "str":
            return list(str(v.a[1]))
        return None

    def length(self, v):
        """offset o if v is (number of elements of a list with the witness) + o"""
        c, o = self.linear(v)
        if c is not None and c.op == "call" and c.a[0].split("::")[-1] in ("len", "count") and len(c.a) == 2:
            w = self.listword(c.a[1])
            if w and ("W" in w or "E" in w):
                return o
        return None

    # -- elements ------------------------------------------------------------
    def listword(self, root):
        k = self.kind(root)
        return k[0] if k is not None else ""

    def kind(self, root):
        """(word, are elements pieces of text) if the text of interest is gone through"""
        w = self.word(root)
        while root.op == "call" and root.a[0].split("::")[-1] in SAME - {"chars", "char_indices"} and len(root.a) == 2:
            root = root.a[1]
        if root.op == "call" and root.a[0].split("::")[-1] in SPLITS:
            w = self.word(root.a[1])
            return (w, True) if w or w is None else None
        if w:
            return w, self.strs(root)
        return None if w == "" else (None, False)

    def elem(self, I, c, root, outs):
        lst, start = root, None
        if root.op == "agg" and root.a[0] == "array":
            return self.given(c, root, outs)
        if any(x.op == "slice" for x in walk(root)) and self.lettered(root):
            self.loose = True
        if root.op == "slice" and root.a[1] == "RangeFrom" and self.lettered(root.a[0]):
            root, start = root.a[0], root.a[2]
        ranged = root.op == "range" or root.op == "agg" and root.a[1] == "std::ops::Range"
        if ranged:
            return self.counted(c, root, outs)
        k = self.kind(root)
        if k is None:
            return outs
        w, strs = k
        ok = w is not None and not any(x.op == "slice" for x in walk(root))
        for E in I.shapes:
            if E.a[0] == "skip":
                if start is not None:
                    ok = False
                start = E.a[2]
            elif E.a[0] in ("rev", "take", "step_by", "skip_while", "take_while", "zip", "chain"):
                ok = False
        if any(x in "REW" and False for x in w or ""):
            ok = False
        if not ok or not outs:
            return [(None if v is None else mk("ltr", "?", next(self.n)), s, f) for v, s, f in outs]
        pair = root.op == "call" and root.a[0].split("::")[-1] == "char_indices"
        key = mk("phase", c.node[0], c.node[1])
        s0, fr = outs[0][1], outs[0][2]
        ph = ph0 = s0.facts.get(key)
        hasW = "W" in w or "E" in w or "S" in w
        if not strs and ph is None and any(k is not key and k.op == "phase" and self.over.get(k) is root for k in s0.facts):
            self.loose = True          # the same characters gone through at two places at once
        self.over[key] = root
        if ph is None and hasW and self.pos == 0 and start is None:
            phs = ["W"]
        elif ph is None:
            phs = ["B0" if self.gap and not strs and "L" in w else "B"]
            if not hasW:
                phs = ["X0" if phs == ["B0"] else "X"]
            elif start is not None:
                rs = self.rels(I.val(s0, start))
                if rs is None:
                    if I.val(s0, start).op in ("top", "many"):
                        self.wish(I.val(s0, start))
                    return [(None if v is None else mk("ltr", "?", next(self.n)), s, f) for v, s, f in outs]
                phs = sorted({"A" if r == ">" or r != "<" and r > 0 else "W" if r == 0 else "B" for r in rs})
        else:
            phs = [ph.a[1]]
        res = []

        def give(lt, nph):
            s = s0.copy()
            if lt is None:
                s.facts.pop(key, None)
                res.append((None, s, fr))
                return
            s.facts[key] = mk("k", "phase", nph)
            for k in [k for k in s.facts if k.op == "nth" and k.a[0] is key]:
                del s.facts[k]
            s.facts[mk("nth", key, root)] = FALSE if ph0 is not None else TRUE
            if strs:
                v = mk("str", ("elem", next(self.n)), lt)
            elif lt == "S":
                v = kchar(" ")
            elif lt == "W":
                v = self.W
                if not self.white:
                    s.facts[mk("ne", v)] = frozenset(WHITE)
                s.facts[mk("atw", v)] = TRUE
            else:
                v = mk("ltr", lt, next(self.n))
            if pair:
                v = agg("tuple", "", 0, (mk("bytepos", next(self.n)), v))
            res.append((v, s, fr))
        for ph in phs:
            if ph in ("B0", "X0"):         # a text begins with something that is not white
                give("L", ph[0])
                res[-1][1].facts[mk("ne", res[-1][0].a[3][1] if pair else res[-1][0])] = frozenset(WHITE)
            if ph == "X":
                give(w, "X")
                give(None, None)
            if ph == "B":
                if "L" in w or strs:
                    give("L" if "L" in w else "", "B")
                if strs and self.parted(root):
                    give("R" if "R" in w else "", "A")
                    continue
                give(w if strs else w[w.find("W")] if "W" in w else "S" if "S" in w else "E", "A")
            elif ph == "W":
                give(("R" if "R" in w else "") if strs and self.parted(root) else w if strs else "W", "A")
            elif ph == "A":
                if "R" in w or strs:
                    give("R" if "R" in w else "", "A")
                give(None, None)
        return res

    def counted(self, c, root, outs):
        """the numbers from 0 (or a cursor) to the length of the text"""
        lo, hi = root.a[3] if root.op == "agg" else root.a[:2]
        if not outs or I_shapes(self) or self.length(self.val(outs[0][1], hi)) != 0:
            return outs
        s0, fr = outs[0][1], outs[0][2]
        lo = self.val(s0, lo)
        rs = self.rels(lo) if lo.op in ("k", "cur") else None
        if rs is None:
            if lo.op in ("top", "many"):
                self.wish(lo)
            return outs
        key = mk("phase", c.node[0], c.node[1])
        me = mk("counter", c.node[0], c.node[1])
        ph = s0.facts.get(key)
        if ph is not None:
            r = ph.a[1]
            rs = ["<", -WIN] if r == "<" else [">"] if r == ">" or r == WIN else [r + 1]
        elif is_const(lo) and self.pos is None:
            rs = ["<"]
        res = []
        for r in rs:
            s = s0.copy()
            s.facts[key] = mk("k", "phase", r)
            res.append((mk("cur", me, r), s, fr))
        if ph is not None and (ph.a[1] == ">" or ph.a[1] != "<" and ph.a[1] >= 0):
            s = s0.copy()
            s.facts.pop(key, None)
            res.append((None, s, fr))
        return res

    def given(self, c, root, outs):
        """the elements of an array that is written out"""
        if not outs or I_shapes(self):
            return [(None if v is None else mk("ltr", "?", next(self.n)), s, f) for v, s, f in outs]
        key = mk("phase", c.node[0], c.node[1])
        s0, fr = outs[0][1], outs[0][2]
        ph = s0.facts.get(key)
        n = 0 if ph is None else ph.a[1]
        s = s0.copy()
        if n >= len(root.a[3]):
            s.facts.pop(key, None)
            return [(None, s, fr)]
        s.facts[key] = mk("k", "phase", n + 1)
        return [(root.a[3][n], s, fr)]

    # -- decisions that are not understood ------
    def learn(self, st, v, k):
        if VAGUE not in st.facts and self.vague(v):
            st.facts[VAGUE] = TRUE
        return super().learn(st, v, k)

    def vague(self, v):
        """does the outcome depend on what characters the text has, in a way that is not kept track of?"""
        while v.op == "un" and v.a[0] == "Not" or v.op == "discr":
            v = v.a[1] if v.op == "un" else v.a[0]
        if v.op == "call" and v.a[0].split("::")[-1] == "starts_with" and v.a[1].op == "slice" and not self.lettered(v.a[2]):
            return False
        if self.gap and v.op == "call" and v.a[0].split("::")[-1] == "ends_with" and is_const(v.a[2]) and not any(x in WHITE for x in str(v.a[2].a[1])):
            # what comes before (or after) white space is arbitrary, so it may well end that way
            w = self.word(v.a[1])
            if w and w[-1] in "LR":
                return False
        if v.op == "call" and v.a[0].split("::")[-1] in TESTS:
            return any(self.lettered(x) for x in v.a[1:] if x.__class__ is V)
        if v.op == "bin" and v.a[0] in ("Eq", "Ne"):
            for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                if self.lettered(x) and x.op in ("agg", "call", "cat", "mut", "str") and x.a[0] not in ("len", "str::len", "String::len", "width"):
                    n = x.a[0].split("::")[-1] if x.op == "call" else ""
                    if n not in ("len", "count", "width", "is_empty", "is_whitespace", "is_alphabetic", "is_alphanumeric"):
                        return True
        return False

    # -- which functions are followed ---------------------------------------
    def closed(self, I, c, st, target, args):
        if target.kind == "closure":
            return False
        for a in args:
            v = I.deep(st, a)
            if self.lettered(v):
                rt = target.locals[0][0]
                if any(t in rt for t in ("String", "str", "Cow", "Vec", "char")):
                    return False
                for i in range(target.nargs):
                    if "&mut" in target.locals[i + 1][0] or " mut " in target.locals[i + 1][0][:12]:
                        return False
                return True
            if "&mut" in target.locals[args.index(a) + 1][0] and "String" in target.locals[args.index(a) + 1][0]:
                return False
        return True

    # -- exploration ------------------------------------------------------------
    def call_body(self, body, args, st, ctx, parent):
        body.prep()
        if parent is not None and body.kind != "closure" and not any(
                "&mut" in body.locals[i + 1][0] or " mut " in body.locals[i + 1][0][:12] for i in range(body.nargs)):
            return self.summary(body, args, st)
        return self.explore(body, args, st, ctx)

    def summary(self, body, args, st):
        """what a function that changes nothing but makes something of its arguments may return"""
        dargs = []
        for i, a in enumerate(args):
            v = self.deep(st, a)
            w = self.word(v, st.facts)
            if w is None:
                v = mk("str", ("arg", i), "?")
            elif w:
                v = mk("str", ("arg", i), w)
            elif not is_const(v) or v.a[0] == "str":
                v = mk("sym", f"A{i}")
            dargs.append(v)
        key = (body.id, tuple(dargs))
        res = self.cache.get(key)
        if res is None:
            self.cache[key] = []         # a recursive call adds nothing new
            outs = self.explore(body, dargs, State(), self.ctx(0, ("sum",) + key, body, body.span))
            if self.newcur:
                del self.cache[key]
                return []
            res = []
            for r, s, _ in outs:
                for v in self.abstract(("ret", body.id), (), self.deep(s, r), body.locals[0][0], s.facts):
                    if (v, VAGUE in s.facts) not in res:
                        res.append((v, VAGUE in s.facts))
            self.cache[key] = res = [x for x in res if not x[1] or (x[0], False) not in res]
        outs = []
        for r, dim in res:
            s = st.copy()
            if dim:
                s.facts[VAGUE] = TRUE
            outs.append((r, s, frozenset()))
        return outs

    def mentions(self, v):
        m = self.locs.get(v)
        if m is None:
            m = self.locs[v] = frozenset(x for x in walk(v) if x.op == "loc")
        return m

    def prune(self, st, fr, bb):
        live = fr.body.live[bb]
        store = st.store
        dead = [b for b in store if b.op == "loc" and (b.a[0] == fr.ctx and b.a[1] not in live or b.a[0] not in self.ctxinfo)]
        if not dead:
            return
        keep = set()
        dead = set(dead)
        todo = [b for b in store if b not in dead]
        while todo:
            b = todo.pop()
            for y in self.mentions(store[b]):
                if y in dead and y not in keep:
                    keep.add(y)
                    todo.append(y)
        for b in dead - keep:
            del store[b]

    def explore(self, body, args, st, ctx):
        body.prep()
        self.fns.add(body.path)
        fr = Frame(body, ctx, None, None)
        st = st.copy()
        for i, a in enumerate(args):
            st.store[fr.base(i + 1)] = a
        heads = self.headers(body)
        seen = {}
        outs = []
        work = [(0, st)]
        while work:
            bb, s = work.pop()
            if body.blocks[bb]["t"][0] == "call":
                self.prune(s, fr, bb)
            for tbb, s2, tag in self.step(body, fr, (bb, ()), s):
                if tbb == "ret":
                    r = s2.store.get(fr.base(0), mk("k", "unit", "()"))
                    ns = {b: v for b, v in s2.store.items() if not (b.op == "loc" and b.a[0] == ctx)}
                    outs.append((r, State(ns, s2.facts), frozenset()))
                elif tbb in heads:
                    for s3 in self.canon(s2, fr, tbb):
                        k = (frozenset(s3.store.items()), frozenset(s3.facts.items()))
                        sn = seen.setdefault(tbb, set())
                        if k not in sn:
                            sn.add(k)
                            if len(sn) > 600:
                                raise TooBig(f"too many states in {body.path}")
                            work.append((tbb, s3))
                else:
                    work.append((tbb, s2))
            if self.newcur:
                return []
        # outcomes that look alike are one
        res, done = [], set()
        for r, s, f in outs:
            k = (r, frozenset(s.store.items()), frozenset(s.facts.items()))
            if k not in done:
                done.add(k)
                res.append((r, s, f))
        return res

    def headers(self, body):
        h = self.heads.get(body.id)
        if h is None:
            h = set()
            state = {}
            succ = body.succ
            stack = [(0, iter(succ[0]))]
            state[0] = 1
            while stack:
                b, it = stack[-1]
                for t in it:
                    if state.get(t) == 1:
                        h.add(t)
                    elif t not in state:
                        state[t] = 1
                        stack.append((t, iter(succ[t])))
                        break
                else:
                    state[b] = 2
                    stack.pop()
            self.heads[body.id] = h
        return h

    def loop_states(self, c, st, front, name, once, extra=(), ends=False):
        seen, res, work = set(), [], []

        def put(s):
            for s3 in self.canon(s, None, None):
                k = (frozenset(s3.store.items()), frozenset(s3.facts.items()))
                if k not in seen:
                    seen.add(k)
                    if len(seen) > 400:
                        raise TooBig("too many states in " + name)
                    work.append(s3)
                    if not ends:
                        res.append((s3.copy(), front))
        put(st)
        while work:
            s = work.pop()
            for s2, f_, fin in once(s.copy(), front):
                if fin:
                    res.append((s2, f_))
                else:
                    put(s2)
        return res

    def typ(self, b):
        if b.op == "loc" and b.a[0] in self.ctxinfo and isinstance(b.a[1], int):
            body = self.ctxinfo[b.a[0]][0]
            if b.a[1] < len(body.locals):
                return body.locals[b.a[1]][0]
        return ""

    def canon(self, st, fr, bb):
        st = State(dict(st.store), st.facts)
        if fr is not None:
            self.prune(st, fr, bb)
        store = st.store
        varied = self.varied(fr.body, bb) if fr is not None else ()
        facts = {f_: k for f_, k in st.facts.items() if f_.op in ("phase", "vague")}
        opts = []
        for b in sorted(store, key=repr):
            var = fr is not None and b.op == "loc" and b.a[0] == fr.ctx and b.a[1] in varied
            opts.append((b, self.abstract(b, (), store[b], self.typ(b), st.facts, var)))
        n = 1
        for b, o in opts:
            n *= len(o)
        if n > 64:
            raise TooBig("too many cursors")
        res = []
        for combo in itertools.product(*[o for _, o in opts]):
            res.append(State({b: v for (b, _), v in zip(opts, combo)}, dict(facts)))
        return res

    def varied(self, body, h):
        """locals assigned inside the loop of header `h`"""
        k = (body.id, h)
        r = self.vary.get(k)
        if r is None:
            fwd, todo = set(), [h]
            while todo:
                x = todo.pop()
                for y in body.succ[x]:
                    if y not in fwd:
                        fwd.add(y)
                        todo.append(y)
            pred = {}
            for x in range(len(body.blocks)):
                for y in body.succ[x]:
                    pred.setdefault(y, []).append(x)
            back, todo = {h}, [h]
            while todo:
                for y in pred.get(todo.pop(), ()):
                    if y not in back:
                        back.add(y)
                        todo.append(y)
            r = set()
            for x in fwd & back:
                blk = body.blocks[x]
                for s in blk["s"]:
                    r.add(s[0][0])
                if blk["t"][0] == "call":
                    r.add(blk["t"][3][0])
            self.vary[k] = r
        return r

    def matched(self, f_, i, n, end):
        """does f_ say that the text from i to end (n elements) is equal to another text?"""
        if f_.op == "bin" and f_.a[0] == "Eq":
            return any(x.op == "slice" and x.a[1] == "Range" and x.a[2] is i and x.a[3] is end and not self.lettered(y)
                       for x, y in ((f_.a[1], f_.a[2]), (f_.a[2], f_.a[1])))
        if f_.op == "call" and f_.a[0].split("::")[-1] == "starts_with" and len(f_.a) == 3:
            x, y = f_.a[1:]
            return (x.op == "slice" and x.a[1] == "RangeFrom" and x.a[2] is i and not self.lettered(y) and n.op == "call" and
                    n.a[0].split("::")[-1] == "len" and n.a[1] is y)
        return False

    def abstract(self, b, path, v, ty, facts, var=False):
        o = v.op
        name = (b, path) if path else b
        if o == "ref" or o == "iter" or o == "seq" and not v.a[0]:
            return [v]
        if o == "agg" and len(v.a[3]) <= 4:
            fs = [self.abstract(b, path + (i,), x, "", facts) for i, x in enumerate(v.a[3])]
            return [agg(v.a[0], v.a[1], v.a[2], c) for c in itertools.product(*fs)]
        if o == "k":
            if v.a[0] == "int":
                if not path and self.local(b) in self.cursors:
                    return [mk("cur", b, r) for r in self.rels(v) or ["<"]]
                return [v if abs(v.a[1]) <= 1 else mk("many" if v.a[1] > 1 else "top", name)]
            if v.a[0] == "str" and ty.endswith("String"):
                return [mk("str", name, "")]
            return [v]
        if not path and self.local(b) in self.cursors and (self.length(v) == 0 or o == "cur" and v.a[1] == "$"):
            return [mk("cur", b, "$")]
        base, off = self.linear(v)
        if base is not None and base.op == "bin" and base.a[0] == "Add":
            for x, y in ((base.a[1], base.a[2]), (base.a[2], base.a[1])):
                c, k = self.linear(y)
                if k and c is not None:         # x + (c + k)
                    for z in (mk("bin", "Add", x, c), mk("bin", "Add", c, x)):
                        if any(w is z for f_ in facts for w in walk(f_)):
                            base, off = z, off + k
                            break
        if base is not None and base.op == "bin" and base.a[0] == "Add" and not path and self.local(b) in self.cursors:
            # going over a part of the text known to equal another text, which is taken not to have the witness
            for i, n in ((base.a[1], base.a[2]), (base.a[2], base.a[1])):
                rs = self.rels(i) if self.linear(i)[0] is None or self.linear(i)[0].op == "cur" else None
                if rs and any(k is TRUE and self.matched(f_, i, n, base) for f_, k in facts.items()):
                    out = set()
                    for r in rs:
                        if r == ">" or r != "<" and r > 0:
                            out |= {">"} | set(range(1 if r == ">" else r, WIN + 1))
                        else:
                            out |= ({"<"} if r == "<" else set()) | set(range(-WIN if r == "<" else r, 1))
                    if off:
                        out = {x for r in out for x in self.rels(mk("bin", "Add", mk("cur", b, r), kint(off)) if off > 0 else
                                                                mk("bin", "Sub", mk("cur", b, r), kint(-off))) or ["<"]}
                    return [mk("cur", b, r) for r in sorted(out, key=str)]
        if o == "cur" and v.a[0].op == "counter":
            return [v]
        if o == "cur" or o == "bin" and self.linear(v)[0] is not None and self.linear(v)[0].op == "cur":
            if not path and self.local(b) in self.cursors:
                return [mk("cur", b, r) for r in self.rels(v)]
            return [mk("top", name)]
        if o in ("str", "ltr", "cat") or ty.endswith("String") or ty.endswith("&str") or ty == "char":
            if ty.endswith("&str") and not self.lettered(v) and o in ("sym", "f"):
                return [v]
            w = self.word(v, facts)
            if w is None:
                return [mk("str", name, "?")]
            return [mk("str", name, w)]
        if o == "many" and v.a[0] == name:
            return [v]
        if o == "bin" and v.a[0] in ("Add", "Sub") and is_const(v.a[2]) and v.a[1].op == "many" and not path:
            n = cval(v.a[2]) if v.a[0] == "Add" else -cval(v.a[2])       # two or more, and n
            if n >= 0:
                return [mk("many", name)]
            if n == -1:
                return [kint(1), mk("many", name)]
        if var and ty in INTS:
            return [mk("top", name)]
        if any(x.op in ("ltr", "str", "cur", "top", "many", "gen", "elem", "prev") or x.op == "idx" for x in walk(v)):
            if o in ("call", "slice", "mut", "collect", "list") and not any(x.op in ("ltr", "cur", "top", "many", "elem", "gen", "prev") for x in walk(v)):
                return [v]          # made of a text that does not change
            if o == "slice" and v.a[1] == "RangeFrom" and self.lettered(v.a[0]):
                rs = self.rels(v.a[2]) if v.a[2].op in ("k", "cur") or self.linear(v.a[2])[0] is not None and self.linear(v.a[2])[0].op == "cur" else None
                if rs:
                    return [mk("slice", v.a[0], "RangeFrom", mk("cur", mk("counter", name), r)) for r in rs]
            w = self.word(v, facts)
            if w or w is None and ty not in INTS:
                return [mk("str", name, w or "?")]
            return [mk("top", name)]
        return [v]

    # -- entry -----------------------------------------------------------------
    def decide(self, body, k, word="LWR"):
        """the words of everything `body` may return, its k-th argument being the text: [(word, value)]; a word ends in ~ where
        what led there is not wholly understood"""
        for _ in range(6):
            self.newcur = False
            self.cache = {}
            args = [mk("str", "TEXT", word) if i == k else mk("sym", f"P{i}") for i in range(body.nargs)]
            self.nsteps = 0
            outs = self.explore(body, args, State(), self.ctx(0, ("root", body.id), body, body.span))
            if not self.newcur:
                break
        res = set()
        for r, s, _ in outs:
            v = self.deep(s, r)
            w = self.word(v, s.facts)
            res.add((w + "~" if w is not None and (self.loose or VAGUE in s.facts) else w, v))
        return res
