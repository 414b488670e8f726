"""C29: the declared command line options."""
from engine import Interp
from values import *
from checks.cli import prog
from checks.options import fields

# option -> (long name, short letter); what the documentation and the usage text promise
DOC = {"write": ("write", "w"), "check": ("check", "c"), "diff": ("diff", "d"), "stdin": ("stdin", None),
       "line_width": ("line-width", None), "config": ("config", None), "files": (None, None)}
EFFECTS = {"overrides_with", "overrides_with_all", "overrides_with_self", "requires", "requires_if", "requires_ifs", "requires_all",
           "default_value", "default_values", "default_value_os", "default_values_os", "default_value_if", "default_value_ifs",
           "default_missing_value", "default_missing_values", "default_missing_value_os", "env", "env_os", "allow_hyphen_values",
           "allow_negative_numbers", "trailing_var_arg", "last", "raw", "ignore_case", "require_equals", "value_delimiter",
           "value_terminator", "required_if_eq", "required_unless_present", "required_unless_present_any", "global",
           "dont_delimit_trailing_values", "args_override_self", "infer_long_args", "ignore_errors", "arg_required_else_help",
           "multicall", "allow_external_subcommands", "subcommand_required", "disable_help_flag", "disable_version_flag"}
MODES = ("write", "check", "diff")


def strs(v):
    return [x.a[1] for x in walk(v) if x.op == "k" and x.a[0] in ("str", "char")]


def arg_id(v):
    """the identifier an Arg builder chain is about"""
    ids = {x.a[1].a[1] for x in walk(v) if x.op == "call" and x.a[0] == "clap::Arg::new" and x.a[1].op == "k"}
    return ids.pop() if len(ids) == 1 else None


def C29(r):
    P = prog()
    r.rule("modes-exclusive", "every two of --write, --check and --diff are declared to conflict")
    r.rule("names", "each documented option is declared under its long name and short letter, and no two options share one")
    r.rule("field-from-option", "each field of the parsed arguments is filled from the option of its own name")
    b = [x for x in P.bodies.values() if x.path.endswith("as clap::Args>::augment_args") and x.crate == "bin"]
    if len(b) != 1:
        r.ob("names", "declaration", False, "the argument declaration is not found")
        return "other", ""
    I = Interp(P)
    outs = I.run(b[0], [sym("COMMAND")])
    r.interp(I)
    longs, shorts, confl = {}, {}, set()
    single, groups = set(), []
    for e in I.all_events():
        n = e.path.split("::")[-1]
        if e.path.startswith("clap::Arg::"):
            i = arg_id(e.args[0]) if e.args else None
            if n == "long":
                longs.setdefault(i, []).extend(strs(e.args[1]))
            elif n == "short":
                shorts.setdefault(i, []).extend(strs(e.args[1]))
            elif n in ("visible_alias", "alias", "visible_aliases", "aliases"):
                longs.setdefault(i, []).extend(strs(e.args[1]))
            elif n in ("conflicts_with", "conflicts_with_all"):
                for o in strs(e.args[1]):
                    confl.add(frozenset((i, o)))
            elif n == "exclusive" and e.args[1] is TRUE:
                single.add(i)
            elif n in ("group", "groups"):
                for g in strs(e.args[1]):
                    groups.append((g, i))
        elif e.path.startswith("clap::ArgGroup::") and n in ("args", "arg"):
            # a group whose members exclude one another
            if not any(x.op == "call" and x.a[0] == "clap::ArgGroup::multiple" and x.a[2] is TRUE for x in walk(e.args[0])):
                ms = strs(e.args[1])
                for x in ms:
                    for y in ms:
                        if x != y:
                            confl.add(frozenset((x, y)))
    # anything else an option does to other options, to the environment or to missing values
    other = {}
    for e in I.all_events():
        n = e.path.split("::")[-1]
        if not e.path.startswith(("clap::Arg::", "clap::ArgGroup::", "clap::Command::")):
            continue
        i = arg_id(e.args[0]) if e.args and e.path.startswith("clap::Arg::") else None
        vals = e.args[1:]
        if n in EFFECTS and not (vals and all(x is FALSE or (x.op == "call" and x.a[0] == "None") or x is NONE for x in vals)):
            other.setdefault(i, []).append(n)
        if n == "required" and vals and vals[0] is TRUE:
            other.setdefault(i, []).append("required")
        if n == "num_args" and i != "files" and not (vals and vals[0] is kint(1)):
            other.setdefault(i, []).append(n)
    for f in confl:
        if not f <= set(MODES):
            other.setdefault(sorted(map(str, f))[0], []).append("conflicts with " + sorted(map(str, f))[-1])
    r.rule("independent", "options have no effect on each other, no source but the command line, and no value when none is given, beyond the exclusion of the modes")
    for n in DOC:
        r.ob("independent", n, not other.get(n), f"declared with {sorted(other.get(n, []))}")
    r.ob("independent", "the whole command", not other.get(None), f"declared with {sorted(other.get(None, []))}")
    named = [g for g, _ in groups]
    for g, i in groups:
        multi = any(e.path == "clap::ArgGroup::multiple" and e.args[1] is TRUE and g in strs(e.args[0]) for e in I.all_events())
        for g2, j in groups:
            if g2 == g and i != j and not multi:
                confl.add(frozenset((i, j)))
    for x in range(3):
        for y in range(x):
            a, c = MODES[x], MODES[y]
            r.ob("modes-exclusive", f"--{c} and --{a}", frozenset((a, c)) in confl or a in single or c in single, "can be given together")
    for n, (lg, sh) in DOC.items():
        if lg:
            r.ob("names", f"--{lg}", longs.get(n) is not None and lg in longs[n], f"declared as {longs.get(n)}")
        if sh:
            r.ob("names", f"-{sh}", sh in shorts.get(n, []), f"declared as {shorts.get(n)}")
        if not lg:
            r.ob("names", "FILE arguments", n not in longs and n not in shorts, "files are not positional")
    for d, what in ((longs, "long name"), (shorts, "short letter")):
        alln = [y for x in d.values() for y in x]
        r.ob("names", f"every {what} once", len(alln) == len(set(alln)), f"{sorted(alln)}")
    m = [x for x in P.bodies.values() if x.path.endswith("as clap::FromArgMatches>::from_arg_matches_mut") and x.crate == "bin"]
    if len(m) != 1:
        r.ob("field-from-option", "parsed arguments", False, "not found")
        return "other", ""

    def h(I, c, st, fv, args, front):
        v = I.val(st, args[1])
        return [(some(mk("call", "PARSED", v)), st, front)]

    def hc(I, c, st, fv, args, front):
        return None
    hooks = {"clap::ArgMatches::" + n: h for n in ("remove_one", "remove_many", "get_one", "get_many")}
    hooks["clap::ArgMatches::get_flag"] = lambda I, c, st, fv, args, front: [(mk("call", "PARSED", I.val(st, args[1])), st, front)]
    I = Interp(P, hooks=hooks)
    fs = fields(P, "Args")
    seen = {}
    for v, s, _ in I.run(m[0], [sym("MATCHES")]):
        v = I.deep(s, v)
        for x in (I.alts(v) if v.op in ("phi", "alt") else [v]):
            if x.op == "agg" and x.a[1] == RESULT and x.a[2] == 0:
                for i, n in enumerate(fs):
                    for y in alts(I, I.proj(x.a[3][0], ("f", n, i))):
                        ids = {z.a[1].a[1] for z in leaves(I, y) if z.op == "call" and z.a[0] == "PARSED" and z.a[1].op == "k"}
                        seen.setdefault(n, set()).update(ids)
    r.interp(I)
    for n in DOC:
        r.ob("field-from-option", n, seen.get(n) == {n}, f"filled from {sorted(seen.get(n, []))}")
    return "other", "Abstract interpretation of the generated argument declaration and parsing code, comparing what is declared with the documentation. "


def alts(I, v):
    return I.alts(v) if v.op in ("phi", "alt") or (v.op == "f" and I.has_phi_base(v)) else [v]


def leaves(I, v):
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op in ("phi", "alt") or (x.op == "f" and I.has_phi_base(x)):
            todo += I.alts(x)
        else:
            todo += children(x)
