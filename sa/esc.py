"""Text built from another text piece by piece.

While a loop with any number of iterations appends to a buffer, the buffer is kept as "what the first k bytes of the
source become" together with what was appended since and not yet accounted for.
"""
from engine import *
import models
from models import m, rx, one, strip
import loops

MARK = ("fn", "out")
ESC = ((38, "&amp;", 0), (60, "&lt;", 0), (39, "&apos;", 2), (34, "&quot;", 1), (62, "&gt;", 4), (10, "&#xA;", 8),
       (13, "&#xD;", 16))


def out(k, pend=()):
    return ("tup", (MARK, ("int", k), ("seq", tuple(pend))))


def is_out(v):
    return v[0] == "tup" and len(v[1]) == 3 and v[1][0] == MARK


def byte(E, k):
    return V(("byte", E.src, k), U8)


def flag(E, mask):
    return c_not(c_eq(V(("band", V(("arg", 1), NONNEG), mask), iset(0, mask)), ZERO)) if mask else True


def needs(E, b):
    return c_or(*[c_and(c_eq(b, K(ch)), flag(E, mask)) for ch, _, mask in ESC])


def n_bytes(E):
    return V(("len", E.src), NONNEG)


def reduce(E, st, v):
    f = st.facts
    k, pend = f.norm(v[1][1][1]), v[1][2][1]
    while pend:
        p = pend[0]
        if p[0] == "fam":
            if not (p[1][0] == "int" and f.ask(c_eq(p[3], k)) is True):
                break
            j = V(("v", "some", None), NONNEG)
            if E.fam_at(st, p, j) != ("int", byte(E, j)):
                break
            g = f.assume(c_and(c_le(k, j), c_lt(j, p[4]), needs(E, byte(E, j))))
            if not all(loops.refute(x, needs(E, byte(E, j))) for x in g):
                break
            k = f.norm(p[4])
            pend = pend[1:]
            continue
        if p[0] != "i":
            break
        b = byte(E, k)
        if f.ask(c_lt(k, n_bytes(E))) is not True:
            break
        if f.ask(needs(E, b)) is False:
            if f.ask(c_eq(p[1][1], b)) is not True:
                break
            k = f.norm(addk(k, 1))
            pend = pend[1:]
            continue
        for ch, lit, mask in ESC:
            if f.ask(c_and(c_eq(b, K(ch)), flag(E, mask))) is True:
                break
        else:
            break
        lit = lit.encode()
        if len(pend) < len(lit) or not all(x[0] == "i" and f.ask(c_eq(x[1][1], K(y))) is True for x, y in zip(pend, lit)):
            break
        k = f.norm(addk(k, 1))
        pend = pend[len(lit):]
    return out(k, pend)


def new(E, st, fr, f, args, dty, line):
    return one(st, out(ZERO))


def append(E, st, fr, f, args, dty, line):
    v = E.deref(st, args[0])
    if not is_out(v):
        return E.native_for(f)(E, st, fr, f, args, dty, line)
    x = args[1]
    if f["path"].endswith("::push"):
        segs = (("i", x),) if x[0] == "int" else None
    else:
        x = strip(E, st, x)
        segs = x[1] if x[0] == "seq" else models.str_bytes(E, st, x)[1] if x[0] == "str" else None
    if segs is None:
        raise Unsupported("append")
    E.store(st, args[0], reduce(E, st, out(v[1][1][1], v[1][2][1] + segs)))
    return one(st, UNIT)


def from_utf8(E, st, fr, f, args, dty, line):
    v = args[0]
    if is_out(v) and not v[1][2][1] and st.facts.ask(c_eq(v[1][1][1], n_bytes(E))) is True:
        # ASCII characters of a string replaced by ASCII characters
        return one(st, E.enum(dty, "Ok", (v,)))
    raise Unsupported("from_utf8")


@m("probe::v::is_escape")
def v_is_escape(E, st, fr, f, args, dty, line):
    v = strip(E, st, args[0])
    if is_out(v):
        v = reduce(E, st, v)
        if not v[1][2][1] and st.facts.ask(c_eq(v[1][1][1], n_bytes(E))) is True:
            return one(st, ("bool", True))
    return one(st, ("bool", None))


@m("probe::v::some_escape")
def v_some_escape(E, st, fr, f, args, dty, line):
    f = st.facts
    seen = set()
    for form in f.dom:
        for i, _ in form:
            t = TERMS[i]
            if i not in seen and t[0] == "byte" and t[1] == E.src:
                seen.add(i)
                if f.ask(needs(E, V(t, U8))) is True and f.ask(c_lt(t[2], n_bytes(E))) is True:
                    return one(st, ("bool", True))
    return one(st, ("bool", None))


@m("probe::v::a_reference")
def v_a_reference(E, st, fr, f, args, dty, line):
    outs = []
    for pre in ("", "é", "&lt;"):
        for num, dom in (("", ((48, 57),)), ("x", ((48, 57), (65, 70), (97, 102)))):
            for n in range(1, E.ops + 3):
                s = st.fork()
                s.cnt += 1
                parts = (("l", pre + "&#" + num),) + tuple(("c", V(("v", "digit%d" % i, None), dom)) for i in range(n))
                outs.append((s, ("ref", models.strv(parts + (("l", ";"),)))))
                outs.append((s.fork(), ("ref", models.strv(parts + (("l", ";é&lt;"),)))))
    for pre in ("&lt;", "&lt;a", "&lt;&", "&lt;&a"):
        outs.append((st.fork(), ("ref", models.strv((("l", pre + "é" * 70),)))))
    return outs


@m("probe::v::a_text")
def v_a_text(E, st, fr, f, args, dty, line):
    outs = []
    todo = [(st, ())]
    for n in range(E.ops):
        nxt = []
        for s, parts in todo:
            s.cnt += 1
            outs.append((s.fork(), ("ref", models.strv(parts))))
            for lit in ("é", "€", "\U0001f600"):
                nxt.append((s.fork(), parts + (("l", lit),)))
            x = s.fork()
            c = V(("v", "char%d" % n, None), ((0, 127),))
            nxt.append((x, parts + (("c", c),)))
        todo = nxt
    return outs + [(s, ("ref", models.strv(parts))) for s, parts in todo]


def setup(E, st):
    E.src = ("arg", 0)
    if E.mode == "A":
        for p in ("std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T>::new"):
            E.stubs[p] = new
        for p in ("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::extend_from_slice"):
            E.stubs[p] = append
        E.stubs["std::string::String::from_utf8"] = from_utf8


# ---- whole characters ----------------------------------------------------------
VALID = ("fn", "valid")


class Boundary:
    """is an offset in the source between two of its characters"""
    kind = "bnd"

    def __init__(self, src):
        self.src = src

    def __call__(self, x):
        return V(("bnd", self.src, x), ((0, 1),))

    def rng(self, f, x):
        x = f.norm(x)
        if f.rng(f.norm(self(x))) == ((1, 1),):
            return ((1, 1),)
        n = V(("len", self.src), NONNEG)
        if f.ask(c_eq(x, ZERO)) is True or f.ask(c_eq(x, n)) is True:
            return ((1, 1),)
        for y in (x, addk(x, -1)):
            if f.ask(c_le(ZERO, y)) is True and f.ask(c_lt(y, n)) is True and \
                    subset(f.rng(f.norm(V(("byte", self.src, y), U8))), ((0, 127),)):
                return ((1, 1),)
        return ((0, 1),)


def settle(E, st, pend):
    """what is left of the bytes once whole characters are taken off"""
    f = st.facts
    while pend:
        p = pend[0]
        if p[0] == "u8":
            pend = pend[1:]
            continue
        if p[0] == "fam":
            if models.whole(E, st, p):
                pend = pend[1:]
                continue
            j = V(("v", "some", None), NONNEG)
            if E.fam_at(st, p, j) != ("int", byte(E, j)):
                break
            if E.bnd.rng(f, p[3]) != ((1, 1),) or E.bnd.rng(f, p[4]) != ((1, 1),):
                break
            pend = pend[1:]
            continue
        if p[0] != "i":
            break
        x = f.norm(p[1][1])
        if subset(f.rng(x), ((0, 127),)):
            pend = pend[1:]
            continue
        n = 1
        while n < 5 and len(pend) >= n and pend[n - 1][0] == "i" and not f.norm(pend[n - 1][1][1]).t:
            try:
                bytes(f.norm(q[1][1]).c for q in pend[:n]).decode("utf8")
                break
            except UnicodeDecodeError:
                n += 1
        else:
            break
        pend = pend[n:]
    return pend


def is_valid(v):
    return v[0] == "tup" and len(v[1]) == 2 and v[1][0] == VALID


def v_new(E, st, fr, f, args, dty, line):
    return one(st, ("tup", (VALID, ("seq", ()))))


def v_append(E, st, fr, f, args, dty, line):
    v = E.deref(st, args[0])
    if not is_valid(v):
        return E.native_for(f)(E, st, fr, f, args, dty, line)
    x = args[1]
    if f["path"].endswith("::push"):
        segs = (("i", x),)
    else:
        x = strip(E, st, x)
        segs = x[1] if x[0] == "seq" else models.str_bytes(E, st, x)[1]
    E.store(st, args[0], ("tup", (VALID, ("seq", settle(E, st, v[1][1][1] + segs)))))
    return one(st, UNIT)


@m("std::string::String::from_utf8_unchecked", "std::str::from_utf8_unchecked", "core::str::from_utf8_unchecked")
def unchecked(E, st, fr, f, args, dty, line):
    v = args[0] if "String" in f["path"] else strip(E, st, args[0])
    w = E.where(fr, line)
    if is_valid(v):
        ok = not settle(E, st, v[1][1][1])
        s = ("str", (("t", E.fresh(st, fr, "text")),))
    elif v[0] == "seq" and not v[1]:
        ok, s = True, EMPTYSTR
    elif v[0] == "seq" and E.mode == "A":
        ok = not settle(E, st, v[1])
        s = ("str", (("t", E.fresh(st, fr, "text")),))
    else:
        out = []
        for x in never(E, st, models.want(v, "seq"), w):
            out += taken(E, x, f, v, w)
        return out
    return taken(E, st, f, v, w, ok, s)


NEVER = ((0xC0, 0xC1), (0xF5, 0xFF))


def never(E, st, v, w):
    """no byte is one that no text has"""
    todo = [st]
    for p in v[1]:
        if p[0] == "i":
            todo = [y for x in todo for y in E.oblige(x, c_not(c_in(p[1][1], NEVER)), "C25:bytes taken for a string", w, "may not be UTF-8")]
    return todo


def taken(E, st, f, v, w, ok=None, s=None):
    if ok is None:
        s = models.bytes_str(E, st, v)
        ok = s is not None
        if s is None:
            s = EMPTYSTR
    out = []
    for x in E.oblige(st, True if ok else None if E.mode == "A" else False, "C25:bytes taken for a string", w, "may not be UTF-8"):
        out.append((x, s if "String" in f["path"] else ("ref", s)))
    return out


@m("std::char::methods::<impl char>::from_u32_unchecked", "core::char::methods::<impl char>::from_u32_unchecked", "std::char::from_u32_unchecked")
def char_unchecked(E, st, fr, f, args, dty, line):
    out = []
    x = args[0][1]
    for s in E.oblige(st, c_and(c_le(x, K(0x10ffff)), c_not(c_in(x, ((0xd800, 0xdfff),)))), "C25:number taken for a character",
                      E.where(fr, line), "may not be a character"):
        out.append((s, ("int", x)))
    return out


def v_from_utf8(E, st, fr, f, args, dty, line):
    x = st.fork()
    return [(st, E.enum(dty, "Ok", (("str", (("t", E.fresh(st, fr, "text")),)),))),
            (x, E.enum(dty, "Err", (("opq", ("utf8 error",), 0),)))]


def coarse(E, st, fr, local, v):
    """flags and numbers collected from the text say nothing about where characters start"""
    t = E.ty(fr.body.locals[local])
    if t["k"] == "bool":
        return ("bool", None)
    if t["k"] == "int" and v[0] == "int" and E.int_base(t) == ((0, (1 << 32) - 1),):
        return ("int", V(E.fresh(st, fr, "number%d" % local), E.int_base(t)))
    return v


def utf8_setup(n):
    def go(E, st):
        E.src = ("arg", n)
        E.bnd = Boundary(E.src)
        if E.mode == "A":
            for p in ("std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T>::new"):
                E.stubs[p] = v_new
            for p in ("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::extend_from_slice"):
                E.stubs[p] = v_append
            E.stubs["std::string::String::from_utf8"] = v_from_utf8
            E.coarse = coarse
            loops.LEAF_FUNS[:] = [(E.bnd, E.bnd.rng)]
    return go
