"""Listing of mappings, followed for one prefix that stands for any.

The scopes of a stack are split at the innermost one that maps the prefix: those
above do not map it, those below may.  What a set of prefixes holds is reduced to
whether it holds this one, and an iterator over a map to whether it has already
come by it.  The order kept for a scope is split at the place the prefix has in it.
"""
from engine import *
from models import m, map_find, norm_key, one, strip, val_eq

NONZERO = ((-INF, -1), (1, INF))


class Watch:
    """the prefix followed: its value"""

    def __init__(self, E, value):
        self.value = value
        self.kty = value[1]
        self.lin = value[3][0][1]
        self.others = []

    def other(self, term):
        """a prefix that is not the one followed"""
        return ("adt", self.kty, 0, (("int", add(self.lin, V(("ne", term), NONZERO))),))


def mentions(t, what):
    return isinstance(t, tuple) and (t == what or any(mentions(x, what) for x in t))


def has(E, st, term):
    """[(whether the map has the prefix followed, state)]"""
    if mentions(term, ("nop",)):
        return [(False, st)]
    return E.branch(st, ("p", ("has", term, norm_key(st, E.watch.value))))


def iter_of(E, mp, how):
    if mp[2]:
        raise Unsupported("listing of a changed map")
    return ("it", "mapw", mp[1], ZERO, ("bool", False), how)


def next_of(E, st, fr, it, kv):
    """[(state, iterator after, item or None)]"""
    term, pos, done, how = it[2:]
    kt, vt = kv
    n = V(("len", term), NONNEG)
    w = E.watch
    out = []
    for t, s in E.branch(st, c_lt(pos, n)):
        if not t:
            for h, x in has(E, s, term) if not done[1] else [(False, s)]:
                if not h:
                    out.append((x, it, None))
            continue
        nxt = s.facts.norm(addk(pos, 1))
        q = E.fresh(s, fr, "mapkey")
        # not the prefix followed
        k = w.other(q)
        out.append((s.fork(), ("it", "mapw", term, nxt, done, how), item(how, k, E.mk_sym(("f", q, 1), vt, s))))
        if not done[1]:
            for h, x in has(E, s, term):
                if h:
                    v = E.mk_sym(("at", term, norm_key(x, w.value)), vt)
                    out.append((x, ("it", "mapw", term, nxt, ("bool", True), how), item(how, w.value, v)))
    return out


def item(how, k, v):
    if how == "kv":
        return ("tup", (("ref", k), ("ref", v)))
    return ("ref", k if how == "k" else v)


def set_has(E, st, fr, v, key):
    """[(whether the set has the key, state, is it the prefix followed)]"""
    c = val_eq(E, st, strip(E, st, key), E.watch.value)
    if c is None:
        raise Unsupported("set key")
    out = []
    for t, s in E.branch(st, c):
        if t:
            out.append((v[1][1], s, True))
        else:
            for h, x in E.branch(s, ("p", E.fresh(s, fr, "inset"))):
                out.append((h, x, False))
    return out


# ---- the stacks ------------------------------------------------------------------
def prefix(E, t):
    if not (E.ty(t)["k"] == "adt" and E.ty(t)["kind"] == "struct" and len(E.ty(t)["v"][0]["f"]) == 1):
        raise Unsupported("prefix ids")
    v = E.mk_sym(("p",), t)
    if v[3][0][0] != "int":
        raise Unsupported("prefix ids")
    E.watch = Watch(E, v)
    return v


def scopes(E, v):
    """field of the stack that holds the scopes, and the type of one"""
    for i, (_, t) in enumerate(E.ty(v[1])["v"][0]["f"]):
        x = E.ty(t)
        if x["k"] == "adt" and x["path"] == "std::vec::Vec":
            return i, x["args"][0]
    raise Unsupported("scopes of a stack")


def with_scopes(v, i, segs):
    return ("adt", v[1], v[2], v[3][:i] + (("seq", segs),) + v[3][i + 1:])


def stack_args(how):
    def args(E, st, body, f):
        import props.interp as ip
        out = ip.sym_args(E, st, body, f)
        if E.mode != "A":
            return out
        p = prefix(E, body.locals[2])
        out[1] = p
        v = st.mem[("arg", 0)] if ("arg", 0) in st.mem else out[0][1]
        i, ety = scopes(E, v)
        low = E.sym_seq(("low",), ety, None, 0)[1]
        if how == "seen":
            here = E.mk_sym(("here",), ety, st)
            segs = low + (("i", here),) + E.sym_seq(("nop",), ety, None, 0)[1]
            st.facts = st.facts.assume(("p", ("has", map_of(E, here)[1], norm_key(st, p))))[0]
        elif how == "unseen":
            segs = E.sym_seq(("nop",), ety, None, 0)[1]
        else:
            top = E.mk_sym(("top",), ety, st)
            mp = map_of(E, top)
            st.facts = st.facts.assume(("p", ("has", mp[1], norm_key(st, p))), how == "declared")[0]
            fs = tuple(("seq", order(E, p, how == "declared")) if x[0] == "seq" else x for x in top[3])
            segs = low + (("i", ("adt", top[1], top[2], fs)),)
        v = with_scopes(v, i, segs)
        if ("arg", 0) in st.mem:
            st.mem[("arg", 0)] = v
        else:
            out[0] = ("ref", v)
        return out
    return args


def map_of(E, frame):
    ms = [x for x in frame[3] if x[0] == "map"]
    if len(ms) != 1:
        raise Unsupported("map of a scope")
    return ms[0]


def order(E, p, there):
    """the prefixes of a scope in order, the one followed in its place"""
    bv = V(("bv", 0))

    def others(t):
        E.watch.others.append(E.watch.other(("el", t, bv)))
        return (("fam", E.watch.others[-1], bv.t[0][0], ZERO, V(("len", t), NONNEG)),)
    if there:
        return others(("before",)) + (("i", p),) + others(("after",))
    return others(("before",))


@m("probe::v::listed")
def v_listed(E, st, fr, f, args, dty, line):
    """in the innermost scope the prefix is in the order once when the map has it, and not otherwise"""
    if E.mode != "A":
        return one(st, ("bool", True))
    v = strip(E, st, args[0])
    i, ety = scopes(E, v)
    segs = v[3][i][1]
    if not segs or segs[-1][0] != "i":
        raise Unsupported("innermost scope")
    if segs[:-1] != E.sym_seq(("low",), ety, None, 0)[1]:
        return one(st, ("bool", False))
    top = segs[-1][1]
    seqs = [x for x in top[3] if x[0] == "seq"]
    if len(seqs) != 1:
        raise Unsupported("order of a scope")
    states = [(st, 0)]
    for s in seqs[0][1]:
        if s[0] == "fam":
            if s[1] not in E.watch.others:
                raise Unsupported("order of a scope")
            continue
        nxt = []
        for x, n in states:
            c = val_eq(E, x, s[1], E.watch.value)
            if c is None:
                raise Unsupported("order of a scope")
            nxt.extend((y, n + t) for t, y in E.branch(x, c))
        states = nxt
    out = []
    for x, n in states:
        for y, val, _ in map_find(E, x, map_of(E, top), E.watch.value):
            out.append((y, ("bool", n == (val is not None))))
    return out


def new_setup(E, st):
    E.explicit = 12
