"""Values remembered and compared with what becomes of them."""
from engine import *
from models import m, one, strip

G_STR = ("g", "string")


def snaps(E):
    return E.__dict__.setdefault("_snaps", [("none",)])


@m("probe::v::snap")
def v_snap(E, st, fr, f, args, dty, line):
    tab = snaps(E)
    v = strip(E, st, args[0])
    if v not in tab:
        tab.append(v)
    return one(st, ("adt", dty, 0, (("int", K(tab.index(v))),)))


@m("probe::v::same_snap")
def v_same_snap(E, st, fr, f, args, dty, line):
    v = strip(E, st, args[0])
    n = strip(E, st, args[1])[3][0][1]
    if n.t:
        return one(st, ("bool", None))
    w = snaps(E)[n.c]
    return one(st, ("bool", same(E, st, v, w)))


def same(E, st, a, b):
    """condition under which two values are the same, None when not known"""
    f = st.facts
    if a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return c_eq(a, b)
    if isinstance(a, Lin) or isinstance(b, Lin) or not a or not b:
        return None
    if a[0] == "str" and b[0] == "str":
        return c_streq(f.norm_str(a), f.norm_str(b))
    if a[0] != b[0] or len(a) != len(b):
        return None
    if a[0] == "adt":
        if a[1] != b[1]:
            return None
        if a[2] != b[2]:
            return False
        cs = [same(E, st, x, y) for x, y in zip(a[3], b[3])]
    elif a[0] == "tup":
        cs = [same(E, st, x, y) for x, y in zip(a[1], b[1])]
    elif a[0] == "int":
        return c_eq(a[1], b[1])
    elif a[0] in ("ref", "box"):
        return same(E, st, a[1], b[1])
    elif a[0] == "seq" and all(s[0] == "i" for s in a[1] + b[1]):
        if len(a[1]) != len(b[1]):
            return False
        cs = [same(E, st, x[1], y[1]) for x, y in zip(a[1], b[1])]
    else:
        return None
    if any(c is False for c in cs):
        return False
    if any(c is None for c in cs):
        return None
    return c_and(*cs)


@m("probe::v::a_string")
def v_a_string(E, st, fr, f, args, dty, line):
    v = ("str", (("t", E.fresh(st, fr, "str")),))
    st.mem[G_STR] = v
    return one(st, v)


@m("probe::v::that_string")
def v_that_string(E, st, fr, f, args, dty, line):
    return one(st, ("ref", st.mem[G_STR]))


@m("probe::v::any")
def v_any(E, st, fr, f, args, dty, line):
    return one(st, E.mk_sym(E.fresh(st, fr, "any%d_%s" % (dty, line)), dty, st))


@m("probe::v::a_str")
def v_a_str(E, st, fr, f, args, dty, line):
    return one(st, ("ref", ("str", (("t", E.fresh(st, fr, "str%s_" % line)),))))


@m("probe::v::more")
def v_more(E, st, fr, f, args, dty, line):
    if E.mode == "A":
        return one(st, ("bool", ("p", E.fresh(st, fr, "more"))))
    n = st.its.get("more", 0)
    if n >= E.ops:
        return one(st, ("bool", False))
    s = st.fork()
    s.its = dict(st.its)
    s.its["more"] = n + 1
    return [(s, ("bool", True)), (st, ("bool", False))]


# ---- tables of names -----------------------------------------------------------
def stack_over(E, st, fr, f, args, dty, line):
    """a stack over the tables given, with any scopes"""
    x = E.ty(dty)
    fs = []
    for i, (_, t) in enumerate(x["v"][0]["f"]):
        y = E.ty(t)
        if y["k"] == "ref" and y.get("mut"):
            fs.append(args[0])
        else:
            fs.append(E.mk_sym(("f", ("scopes", line), i), t, st))
    return one(st, ("adt", dty, 0, tuple(fs)))


def names_setup(E, st):
    if E.mode == "A":
        E.stubs["probe::names::stack_over"] = stack_over


def unnoticed(E, st, fr, f, args, dty, line):
    """a name is built or not; what can be looked up of prefixes and URIs stays (lemma name_keep)"""
    x = st.fork()
    t = E.fresh(st, fr, "name%s_" % line)
    return [(st, E.enum(dty, "Ok", (E.mk_sym(("f", t, 0), payload(E, dty, "Ok"), st),))),
            (x, E.enum(dty, "Err", (E.mk_sym(("f", t, 1), payload(E, dty, "Err"), x),)))]


def payload(E, t, name):
    for v in E.ty(t)["v"]:
        if v["n"] == name:
            return v["f"][0][1]


def maps_setup(E, st):
    if E.mode == "A":
        E.stubs["hml_rs::names::Name::new"] = unnoticed


def same_call(E, st, fr, f, args, dty, line):
    """any function of the arguments"""
    key = tuple(strip(E, st, a) for a in args)
    if not all(k[0] in ("sym", "str", "adt") for k in key):
        return E.enter(st, fr, f, args)
    seen = E.__dict__.setdefault("_calls", {})
    key = tuple(repr(st.facts.norm_str(k) if k[0] == "str" else deep(E, st, k)) for k in key)
    n = seen.setdefault(key, len(seen))
    if args[0][0] == "ptr":
        old = E.deref(st, args[0])
        if old[0] == "ptr":
            raise Unsupported("shared")
        E.store(st, args[0], E.mk_sym(("after", n), E.ty(E.body(f).locals[1])["e"], st))
    x = st.fork()
    return [(y, E.enum(dty, k, (E.mk_sym(("call", n, k), payload(E, dty, k), y),)))
            for y, k in ((st, "Ok"), (x, "Err")) for g in y.facts.assume(("p", ("ok", n)), k == "Ok")
            for y in (with_facts(y, g),)]


def with_facts(st, g):
    st = st.fork()
    st.facts = g
    return st


def deep(E, st, v):
    """the value with what its references lead to"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "ptr":
        return ("ref", deep(E, st, E.deref(st, v)))
    return tuple(deep(E, st, x) if isinstance(x, tuple) else x for x in v)


def list_setup(E, st):
    if E.mode == "A":
        E.stubs["hml_rs::names::Attribute::new"] = same_call


@m("probe::v::twin")
def v_twin(E, st, fr, f, args, dty, line):
    v = E.deref(st, args[0])
    n = [0]

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == "ptr":
            n[0] += 1
            cell = ("twin", st.cnt, line, n[0])
            y = go(E.deref(st, x))
            st.mem[cell] = y
            return ("ptr", cell, ())
        return tuple(go(y) if isinstance(y, tuple) else y for y in x)
    st.cnt += 1
    return one(st, go(v))
