"""Interned symbolic values ("expression DAG") used by the abstract interpreter.

Every value is hash-consed, so equality is identity.  `tags` is the set of
"generation" atoms (loop elements, results of stateful calls) a value mentions;
they are renamed when the same site executes again, so that facts about one
iteration are never applied to another.
"""

class V:
    __slots__ = ("op", "a", "tags", "_h", "__weakref__")

    def __repr__(self):
        return show(self)


_INTERN = {}
_EMPTY = frozenset()
GEN_OPS = {"elem", "gen", "peeked"}


def mk(op, *a):
    key = (op, a)
    v = _INTERN.get(key)
    if v is not None:
        return v
    v = V()
    v.op = op
    v.a = a
    t = None
    for x in a:
        if x.__class__ is V:
            if x.tags:
                t = x.tags if t is None else (t | x.tags)
        elif x.__class__ is tuple:
            for y in x:
                if y.__class__ is V:
                    if y.tags:
                        t = y.tags if t is None else (t | y.tags)
                elif y.__class__ is tuple:
                    for z in y:
                        if z.__class__ is V and z.tags:
                            t = z.tags if t is None else (t | z.tags)
    if op in GEN_OPS:
        t = (t or _EMPTY) | {v}
    v.tags = t or _EMPTY
    _INTERN[key] = v
    return v


def reset():
    _INTERN.clear()


def K(kind, val):
    return mk("k", kind, val)


def kint(n):
    return mk("k", "int", n)


def kbool(b):
    return mk("k", "bool", bool(b))


def kstr(s):
    return mk("k", "str", s)


def kchar(c):
    return mk("k", "char", c)


TRUE = kbool(True)
FALSE = kbool(False)
UNIT = mk("k", "unit", "()")
UNDEF = mk("undef")


def is_const(v):
    return v.op == "k" and v.a[0] in ("int", "bool", "char", "str")


def cval(v):
    return v.a[1]


def agg(kind, path, vi, fields):
    return mk("agg", kind, path, vi, tuple(fields))


def sym(name):
    return mk("sym", name)


def f(base, key):
    return mk("f", base, key)


OPTION = "std::option::Option"
RESULT = "std::result::Result"
CFLOW = "std::ops::ControlFlow"


def some(v):
    return agg("adt", OPTION, 1, (v,))


NONE = agg("adt", OPTION, 0, ())


def ok(v):
    return agg("adt", RESULT, 0, (v,))


def err(v):
    return agg("adt", RESULT, 1, (v,))


_SUB = {}


def subst(v, mapping, memo=None):
    """Replace values by mapping (V -> V) everywhere inside v."""
    if memo is None:
        memo = {}
    return _subst(v, mapping, memo)


def _subst(v, m, memo):
    if v in m:
        return m[v]
    r = memo.get(v)
    if r is not None:
        return r
    # iterative guard is unnecessary: depth is bounded by expression depth
    ch = False
    na = []
    for x in v.a:
        if x.__class__ is V:
            y = _subst(x, m, memo)
        elif x.__class__ is tuple:
            y = _subst_t(x, m, memo)
        else:
            y = x
        if y is not x:
            ch = True
        na.append(y)
    r = mk(v.op, *na) if ch else v
    memo[v] = r
    return r


def _subst_t(t, m, memo):
    ch = False
    out = []
    for x in t:
        if x.__class__ is V:
            y = _subst(x, m, memo)
        elif x.__class__ is tuple:
            y = _subst_t(x, m, memo)
        else:
            y = x
        if y is not x:
            ch = True
        out.append(y)
    return tuple(out) if ch else t


def children(v):
    for x in v.a:
        if x.__class__ is V:
            yield x
        elif x.__class__ is tuple:
            st = list(x)
            while st:
                y = st.pop(0)
                if y.__class__ is V:
                    yield y
                elif y.__class__ is tuple:
                    st.extend(y)


def walk(v, seen=None):
    """All values inside v (not through phi alternatives)."""
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def short(path):
    """last component(s) of a def path, generics removed"""
    import re
    p = re.sub(r"<impl ([^<>]*)>", r"\1", path)
    prev = None
    while prev != p:
        prev = p
        p = re.sub(r"::<[^<>]*>", "", p)
        p = re.sub(r"<([^<>]*)>", "", p) if "::" in re.sub(r"<([^<>]*)>", "", p) else p
    return "::".join(p.split("::")[-2:])


def show(v, d=0, lim=7):
    if v.__class__ is not V:
        return str(v)
    if d > lim:
        return "…"
    o, a = v.op, v.a
    if o == "k":
        return repr(a[1]) if a[0] in ("str", "char") else str(a[1])[:60]
    if o == "sym":
        return a[0]
    if o == "f":
        return f"{show(a[0], d + 1, lim)}.{a[1]}"
    if o == "call":
        args = ", ".join(show(x, d + 1, lim) for x in a[1:] if not (x.__class__ is tuple))
        return f"{short(a[0])}({args})"
    if o == "agg":
        n = a[1].split("::")[-1] if a[0] == "adt" else a[0]
        return f"{n}#{a[2]}({', '.join(show(x, d + 1, lim) for x in a[3])})"
    if o == "phi":
        return f"phi<{a[0]}>"
    if o == "bin":
        return f"({show(a[1], d + 1, lim)} {a[0]} {show(a[2], d + 1, lim)})"
    if o == "cat":
        return f"{show(a[0], d + 1, lim)}·{show(a[1], d + 1, lim)}"
    if o == "ref":
        return f"&{a[0]}{list(a[1]) if a[1] else ''}"
    if o == "fn":
        return f"fn:{short(a[1])}"
    if o == "clo":
        return f"closure({', '.join(show(x, d + 1, lim) for x in a[1])})"
    xs = ", ".join(show(x, d + 1, lim) if x.__class__ is V else str(x)[:40] for x in a)
    return f"{o}({xs})"
