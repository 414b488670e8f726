"""Ghost (monitor) variables: typestate carried through the abstract interpreter.

A ghost is a constant in the abstract store; the interpreter partitions its
states on the ghosts' values, so a monitor is a finite automaton run in product
with the program over all of its paths."""
from values import *
from engine import Event


def G(name):
    return mk("ghost", name)


def gget(st, name, default=None):
    v = st.store.get(G(name))
    return cval(v) if v is not None and v.op == "k" else default


def gset(st, name, val):
    st.store[G(name)] = kstr(val) if isinstance(val, str) else kbool(val)


def init(st, **kw):
    for k, v in kw.items():
        gset(st, k, v)
    return st


def track(names):
    def mkg(n):
        g = G(n)
        return lambda I, st: st.store.get(g)
    return [(n, mkg(n)) for n in names]


def record(I, c, st, fv, args):
    """the event of a call a hook replaces"""
    e = Event("call", fv.a[1], tuple(I.deep(st, x) for x in args), None, dict(st.facts), c.span, c.node, c.body, fv)
    e.st = st
    if I.recording:
        I.events.setdefault(c.node, []).append(e)
    return e
