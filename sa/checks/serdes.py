"""What the (derived) deserialisers do: which key sets which field, which string
means which variant.  Abstract interpretation of the generated visitor code."""
from engine import Interp, State
from values import *
from ghost import gget, gset, init, track, record
from program import Missing

VALUE = sym("VALUE_OF_THE_KEY")
STR_EQ = ("std::cmp::PartialEq::eq",)


def visitor(P, ty, which, fn):
    """body of `fn` of the generated __FieldVisitor / __Visitor of type ty"""
    tail = f"for {ty}>::deserialize::{which}"
    c = [b for b in P.bodies.values() if tail in b.path and b.path.endswith("::" + fn)]
    if len(c) != 1:
        raise Missing(f"{len(c)} bodies for {fn} of the deserialiser of {ty}")
    return c[0]


def run_const(P, body, args):
    I = Interp(P)
    outs = I.run(body, args)
    vals = []
    for v, s, _ in outs:
        v = I.deep(s, v)
        vals += I.alts(v) if v.op == "phi" else [v]
    return I, vals


def key(P, ty, name):
    """the __Field variant (a value) a key stands for, or None if the key is not known"""
    I, vals = run_const(P, visitor(P, ty, "__FieldVisitor", "visit_str"), [sym("VISITOR"), kstr(name)])
    if len(vals) != 1 or vals[0].op != "agg" or vals[0].a[2] != 0 or vals[0].a[1] != RESULT:
        return None
    x = vals[0].a[3][0]
    if x.op != "agg":
        return None
    ad = P.adts.get(x.a[1])
    if ad and ad["variants"][x.a[2]][0] == "__ignore":
        return None
    return x


def parse(P, ty, field=None, opaque=None):
    """the values a table with just the key `field` (or no key) may produce: (Interp, [struct value])"""
    body = visitor(P, ty, "__Visitor", "visit_map")

    def h_key(I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        if gget(st, "n") == "0" and field is not None:
            gset(st, "n", "1")
            return [(ok(some(field)), st, front)]
        gset(st, "n", "2")
        return [(ok(NONE), st, front)]

    def h_val(I, c, st, fv, args, front):
        record(I, c, st, fv, args)
        return [(ok(VALUE), st, front)]
    I = Interp(P, hooks={"serde::de::MapAccess::next_key": h_key, "serde::de::MapAccess::next_value": h_val,
                         "serde::__private::de::missing_field": lambda I, c, st, fv, args, front: [(ok(NONE), st, front)] if "Option" in str(fv.a[6]) else None},
               opaque=opaque or (lambda b: False), track=track(["n"]))
    outs = I.run(body, [sym("VISITOR"), sym("MAP")], init(State(), n="0"))
    res = []
    for v, s, _ in outs:
        v = I.deep(s, v)
        for x in (I.alts(v) if v.op == "phi" else [v]):
            res.append(x)
    return I, res


def enum_variant(P, ty, text):
    """the variant of unit-only enum ty a string stands for (its index), or None"""
    fld = key(P, ty, text)
    if fld is None:
        return None
    body = visitor(P, ty, "__Visitor", "visit_enum")

    def h_variant(I, c, st, fv, args, front):
        return [(ok(agg("tuple", "", 0, (fld, sym("VARIANT")))), st, front)]

    def h_unit(I, c, st, fv, args, front):
        return [(ok(UNIT), st, front)]
    I = Interp(P, hooks={"serde::de::EnumAccess::variant": h_variant, "serde::de::VariantAccess::unit_variant": h_unit})
    vals = set()
    for v, s, _ in I.run(body, [sym("VISITOR"), sym("DATA")]):
        v = I.deep(s, v)
        for x in (I.alts(v) if v.op == "phi" else [v]):
            if x.op == "agg" and x.a[1] == RESULT and x.a[2] == 0 and x.a[3][0].op == "agg":
                vals.add(x.a[3][0].a[2])
            else:
                vals.add(None)
    return vals.pop() if len(vals) == 1 else None
