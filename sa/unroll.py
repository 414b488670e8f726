"""Constant propagation through iterations over constant sequences: the elements are
kept in order and loops over them are followed element by element.  For bodies that
decide something about a short text, one class of texts at a time."""
import models
from engine import State
from values import *


def seq(xs):
    return mk("seq", tuple(xs))


def to_seq(I, c, st, E, front, d=0):
    """[(elements, state, frontier)] of an iteration, or None if it is not constant"""
    if d > 12:
        return None
    E = I.val(st, E)
    if E.op == "seq":
        return [(list(E.a[0]), st, front)]
    if E.op == "empty":
        return [([], st, front)]
    if E.op == "agg" and E.a[0] == "array":
        return [(list(E.a[3]), st, front)]
    if E.op == "agg" and E.a[1] == OPTION:
        return [([E.a[3][0]] if E.a[2] else [], st, front)]
    if E.op == "k" and E.a[0] == "list":
        return [(list(E.a[1]), st, front)]
    if E.op == "call":
        n = E.a[0].split("::")[-1]
        if len(E.a) == 2 and E.a[1].__class__ is V:
            x = I.val(st, E.a[1])
            if x.op == "k" and x.a[0] == "str":
                s = x.a[1]
                if n == "chars":
                    return [([kchar(y) for y in s], st, front)]
                if n in ("bytes", "as_bytes"):
                    return [([kint(y) for y in s.encode()], st, front)]
                if n == "char_indices":
                    out, p = [], 0
                    for y in s:
                        out.append(agg("tuple", "", 0, (kint(p), kchar(y))))
                        p += len(y.encode())
                    return [(out, st, front)]
                if n == "lines":
                    ls = s.split("\n")
                    if ls and ls[-1] == "":
                        ls.pop()
                    return [([kstr(y[:-1] if y.endswith("\r") else y) for y in ls], st, front)]
                if n in ("split_whitespace", "split_ascii_whitespace"):
                    return [([kstr(y) for y in s.split()], st, front)]
            if n in ("iter", "into_iter", "copied", "cloned", "by_ref", "peekable", "fuse", "iter_mut"):
                return to_seq(I, c, st, x, front, d + 1)
            if n in ("values", "keys", "into_values", "into_keys"):
                r = to_seq(I, c, st, x, front, d + 1)
                i = 0 if "keys" in n else 1
                return None if r is None else [([I.proj(y, ("f", str(i), i)) for y in ys], s, f) for ys, s, f in r]
        return None
    if E.op != "iter":
        return None
    kind, src = E.a[0], E.a[1]
    inner = to_seq(I, c, st, src, front, d + 1)
    if inner is None:
        return None
    res = []
    for xs, s, f in inner:
        if kind == "enumerate":
            res.append(([agg("tuple", "", 0, (kint(i), x)) for i, x in enumerate(xs)], s, f))
        elif kind == "rev":
            res.append((xs[::-1], s, f))
        elif kind in ("copied", "cloned", "peekable", "fuse", "by_ref", "inspect"):
            res.append((xs, s, f))
        elif kind in ("skip", "take", "step_by"):
            n = I.val(s, E.a[2])
            if n.op != "k":
                return None
            n = n.a[1]
            res.append((xs[n:] if kind == "skip" else xs[:n] if kind == "take" else xs[::max(n, 1)], s, f))
        elif kind in ("zip", "chain"):
            o = to_seq(I, c, s, E.a[2], f, d + 1)
            if o is None:
                return None
            for ys, s2, f2 in o:
                res.append(([agg("tuple", "", 0, t) for t in zip(xs, ys)] if kind == "zip" else xs + ys, s2, f2))
        elif kind in ("map", "filter", "take_while", "skip_while", "filter_map", "map_while", "flat_map"):
            parts = [([], s, f, False)]
            for i, x in enumerate(xs):
                new = []
                for acc, s1, f1, stop in parts:
                    if stop is True:
                        new.append((acc, s1, f1, stop))
                        continue
                    if kind == "skip_while" and stop == "pass":
                        new.append((acc + [x], s1, f1, stop))
                        continue
                    a = x
                    if kind in ("filter", "take_while", "skip_while"):
                        base = mk("loc", ("uv", c.node, d, i), 0)
                        s1 = s1.copy()
                        s1.store[base] = x
                        a = mk("ref", base, ())
                    for r, s2, f2 in I.apply(c, s1, E.a[2], [a], f1, ("u", d, i)):
                        if kind == "map":
                            new.append((acc + [I.deep(s2, r)], s2, f2, False))
                        elif kind in ("filter_map", "map_while"):
                            for y, s3 in models.split_option(I, s2, r):
                                new.append((acc if y is None else acc + [y], s3, f2, y is None and kind == "map_while"))
                        elif kind == "flat_map":
                            o = to_seq(I, c, s2, r, f2, d + 1)
                            if o is None:
                                return None
                            for ys, s3, f3 in o:
                                new.append((acc + ys, s3, f3, False))
                        else:
                            s3 = s2.copy()
                            if I.learn(s2, r, TRUE):
                                new.append((acc if kind == "skip_while" else acc + [x], s2, f2, False))
                            if I.learn(s3, r, FALSE):
                                new.append((acc + [x] if kind == "skip_while" else acc, s3, f2,
                                            True if kind == "take_while" else "pass" if kind == "skip_while" else False))
                parts = new
            res += [(a, s1, f1) for a, s1, f1, _ in parts]
        else:
            return None
    return res


def h_next(I, c, st, fv, args, front):
    back = fv.a[1].endswith("next_back")
    pls = I.deref_targets(st, args[0])
    if len(pls) != 1:
        return None
    r = to_seq(I, c, st.copy(), I.val(st, args[0]), front)
    if r is None:
        return None
    out = []
    for xs, s, f in r:
        if not xs:
            I.store(s, pls[0], seq(()))
            out.append((NONE, s, f))
        else:
            x, rest = (xs[-1], xs[:-1]) if back else (xs[0], xs[1:])
            I.store(s, pls[0], seq(rest))
            out.append((some(x), s, f))
    return out


def h_peek(I, c, st, fv, args, front):
    r = to_seq(I, c, st.copy(), I.val(st, args[0]), front)
    if r is None:
        return None
    return [(some(xs[0]) if xs else NONE, s, f) for xs, s, f in r]


def h_consume(I, c, st, fv, args, front):
    name = fv.a[1].split("::")[-1]
    r = to_seq(I, c, st.copy(), args[0], front)
    if r is None:
        return None
    out = []
    for xs, s, f in r:
        if name in ("any", "all", "position", "find"):
            live = [(s, f)]
            for i, x in enumerate(xs):
                nxt = []
                for s1, f1 in live:
                    a = x
                    if name == "find":
                        base = mk("loc", ("uf", c.node, i), 0)
                        s1 = s1.copy()
                        s1.store[base] = x
                        a = mk("ref", base, ())
                    for v, s2, f2 in I.apply(c, s1, args[1], [a], f1, ("uc", i)):
                        s3 = s2.copy()
                        hit = TRUE if name != "all" else FALSE
                        if I.learn(s2, v, hit):
                            out.append(({"any": TRUE, "all": FALSE, "position": some(kint(i)), "find": some(x)}[name], s2, f2))
                        if I.learn(s3, v, kbool(hit is FALSE)):
                            nxt.append((s3, f2))
                live = nxt
            out += [({"any": FALSE, "all": TRUE}.get(name, NONE), s1, f1) for s1, f1 in live]
        elif name == "count":
            out.append((kint(len(xs)), s, f))
        elif name == "last":
            out.append((some(xs[-1]) if xs else NONE, s, f))
        elif name == "nth":
            n = I.val(s, args[1])
            if n.op != "k":
                return None
            out.append((some(xs[n.a[1]]) if n.a[1] < len(xs) else NONE, s, f))
        elif name in ("max", "min", "sum") and all(x.op == "k" and x.a[0] == "int" for x in xs):
            ns = [x.a[1] for x in xs]
            out.append((kint(sum(ns)) if name == "sum" else (some(kint((max if name == "max" else min)(ns))) if ns else NONE), s, f))
        elif name in ("collect", "from_iter"):
            g = fv.a[6][-1] if len(fv.a) > 6 and fv.a[6] else ""
            if g == "std::string::String":
                if not all(x.op == "k" and x.a[0] in ("str", "char") for x in xs):
                    return None
                out.append((kstr("".join(x.a[1] for x in xs)), s, f))
            elif g.startswith("std::vec::Vec") or g.startswith("std::boxed::Box<["):
                out.append((agg("array", "", 0, tuple(xs)), s, f))
            elif "HashSet" in g or "BTreeSet" in g:
                if not all(x.op == "k" for x in xs):
                    return None
                out.append((agg("array", "", 0, tuple(dict.fromkeys(xs))), s, f))
            else:
                return None
        elif name == "fold":
            live = [(args[1], s, f)]
            for i, x in enumerate(xs):
                live = [y for v, s1, f1 in live for y in I.apply(c, s1, args[2], [v, x], f1, ("ufo", i))]
            out += live
        elif name == "find_map":
            live = [(s, f)]
            for i, x in enumerate(xs):
                nxt = []
                for s1, f1 in live:
                    for v, s2, f2 in I.apply(c, s1, args[1], [x], f1, ("ufm", i)):
                        for y, s3 in models.split_option(I, s2, v):
                            (nxt.append((s3, f2)) if y is None else out.append((some(y), s3, f2)))
                live = nxt
            out += [(NONE, s1, f1) for s1, f1 in live]
        elif name in ("try_for_each", "try_fold"):
            live = [(args[1] if name == "try_fold" else UNIT, s, f)]
            for i, x in enumerate(xs):
                nxt = []
                for acc, s1, f1 in live:
                    a = [acc, x] if name == "try_fold" else [x]
                    for v, s2, f2 in I.apply(c, s1, args[-1], a, f1, ("utf", i)):
                        v2 = I.val(s2, v)
                        if v2.op == "agg" and v2.a[1] == OPTION:
                            return None
                        for good, y, s3 in models.split_result(I, s2, v):
                            (nxt.append((y, s3, f2)) if good else out.append((err(y), s3, f2)))
                live = nxt
            out += [(ok(a), s1, f1) for a, s1, f1 in live]
        elif name == "for_each":
            live = [(s, f)]
            for i, x in enumerate(xs):
                live = [(s2, f2) for s1, f1 in live for v, s2, f2 in I.apply(c, s1, args[1], [x], f1, ("ufe", i))]
            out += [(UNIT, s1, f1) for s1, f1 in live]
        else:
            return None
    return out


def h_push(I, c, st, fv, args, front):
    """String::push/push_str of constants"""
    pls = I.deref_targets(st, args[0])
    if len(pls) != 1:
        return None
    old, x = I.val(st, args[0]), I.val(st, args[1])
    if old.op == "k" and old.a[0] == "str" and x.op == "k" and x.a[0] in ("str", "char"):
        I.store(st, pls[0], kstr(old.a[1] + x.a[1]))
        return [(UNIT, st, front)]
    return None


def h_contains(I, c, st, fv, args, front):
    a, x = I.val(st, args[0]), I.val(st, args[1])
    if a.op == "agg" and a.a[0] == "array" and x.op == "k" and all(y.op == "k" for y in a.a[3]):
        return [(kbool(x in a.a[3]), st, front)]
    return None


HOOKS = {"std::iter::Iterator::next": h_next, "std::iter::DoubleEndedIterator::next_back": h_next,
         "std::iter::Peekable::<I>::peek": h_peek, "std::string::String::push": h_push, "std::string::String::push_str": h_push,
         "core::slice::<impl [T]>::contains": h_contains}
for n in ("any", "all", "position", "find", "count", "last", "nth", "max", "min", "sum", "collect", "fold", "for_each", "find_map", "try_for_each", "try_fold"):
    HOOKS["std::iter::Iterator::" + n] = h_consume
HOOKS["std::iter::FromIterator::from_iter"] = h_consume
