"""What the standard library functions met by the analysis do, in terms of the
abstract values of engine.py.  Each model gives the exact result; a function
without a model and without a body makes the state unknown (and every
conclusion drawn from it undecided), never silently fine."""
import re
from lin import *
from facts import *
from engine import *
from engine import Unsupported

EXACT = {}
REGEX = []


def m(*paths):
    def d(f):
        for p in paths:
            EXACT[p] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            REGEX.append((re.compile(p), f))
        return f
    return d


def install(E):
    E.native_for = lambda f: native_for(E, f)


def native_for(E, f):
    i = f["id"]
    if i in E.natives:
        return E.natives[i]
    r = EXACT.get(f["path"])
    if r is None and f["kind"] != "virtual":
        for p, g in REGEX:
            if p.search(f["path"]):
                r = g
                break
    if r is None and f["kind"] == "intrinsic":
        r = INTRINSIC.get(f.get("intrinsic") or f["path"].split("::")[-1])
    E.natives[i] = r
    return r


def one(st, v):
    return [(st, v)]


def want(v, *kinds):
    if v[0] not in kinds:
        raise Unsupported("%s where %s expected" % (v[0], "/".join(kinds)))
    return v


def arg(E, st, v, *kinds):
    """the value behind a reference"""
    if v[0] in ("ref", "ptr", "box"):
        w = E.deref(st, v)
    else:
        w = v
    while w[0] in ("ref", "ptr") and kinds and w[0] not in kinds:
        w = E.deref(st, w)
    if kinds:
        want(w, *kinds)
    return w


# ---- panics ----------------------------------------------------------------
@rx(r"^core::panicking::", r"^std::rt::panic", r"::unwrap_failed$", r"::expect_failed$", r"^core::option::unwrap_failed",
    r"^core::str::slice_error_fail", r"^std::rt::begin_panic", r"slice_index_fail$", r"^std::alloc::handle_alloc_error",
    r"capacity_overflow$", r"assert_failed", r"cell::panic_already")
def panic(E, st, fr, f, args, dty, line):
    if f["path"].startswith("core::panicking::panic_nounwind"):
        pass
    E.oblige(st, False, "panic", E.where(fr, line), short(f["path"]))
    return []


# ---- primitives of the probe -----------------------------------------------
def fieldv(v, i):
    return v[3][i]


@m("probe::v::check")
def v_check(E, st, fr, f, args, dty, line):
    c = E.cond(args[0])
    tag = args[1][1][1][0][1]
    if E.only is not None and not tag.startswith(E.only):
        return one(st, UNIT)
    return [(s, UNIT) for s in E.oblige(st, c, tag, tag)]


@m("probe::v::cover")
def v_cover(E, st, fr, f, args, dty, line):
    tag = args[0][1][1][0][1]
    E.covered = getattr(E, "covered", set())
    E.covered.add(tag)
    return one(st, UNIT)


@m("probe::v::assume")
def v_assume(E, st, fr, f, args, dty, line):
    c = E.cond(args[0])
    if c is None:
        return one(st, UNIT)
    return [(s, UNIT) for s in E.assume(st, c)]


@m("probe::v::any")
def v_any(E, st, fr, f, args, dty, line):
    return one(st, E.mk_sym(E.fresh(st, fr, "any"), dty, st))


TEXT_N = V(("N",), NONNEG)


def pos(v):
    if v[0] != "adt" or v[3][0][0] != "int":
        raise Unsupported("position %s" % (v[:2],))
    return v[3][0][1]


def mkpos(v, l):
    return ("adt", v[1], v[2], (("int", l),))


@m("probe::v::peek")
def v_peek(E, st, fr, f, args, dty, line):
    p = st.facts.norm(pos(args[0]))
    out = []
    for t, s in E.branch(st, c_lt(p, TEXT_N)):
        out.append((s, E.some(dty, ("int", text_char(p))) if t else E.none(dty)))
    return out


def char_len_ok(st, p, n):
    return c_eq(n, utf8_len(text_char(p)))


@m("probe::v::adv_cols")
def v_adv_cols(E, st, fr, f, args, dty, line):
    p = st.facts.norm(pos(args[0]))
    b, n = args[1][1], args[2][1]
    w = E.caller_site(st, "adv")
    n = st.facts.norm(n)
    out = []
    for s in E.oblige(st, c_eq(n, ONE), "C06:advance of one character", w):
        for s in E.oblige(s, c_lt(p, TEXT_N), "C06:advance within the text", w):
            for s in E.oblige(s, c_eq(s.facts.norm(b), s.facts.norm(utf8_len(text_char(p)))), "C06:width of the character there", w):
                for s in E.oblige(s, c_not(c_in(text_char(p), iset(10))), "C26:newline counted as a column", w):
                    out.append((s, mkpos(args[0], addk(p, 1))))
    return out


@m("probe::v::adv_line")
def v_adv_line(E, st, fr, f, args, dty, line):
    p = st.facts.norm(pos(args[0]))
    w = E.caller_site(st, "adv")
    out = []
    for s in E.oblige(st, c_lt(p, TEXT_N), "C06:advance within the text", w):
        for s in E.oblige(s, c_eq(text_char(p), K(10)), "C26:other character counted as a line", w):
            for s in E.oblige(s, c_eq(args[1][1], ONE), "C06:width of the character there", w):
                out.append((s, mkpos(args[0], addk(p, 1))))
    return out


@m("probe::v::step_col")
def v_step_col(E, st, fr, f, args, dty, line):
    p = st.facts.norm(pos(args[0]))
    w = E.caller_site(st, "adv")
    out = []
    for s in E.oblige(st, c_lt(p, TEXT_N), "C06:advance within the text", w):
        for s in E.oblige(s, c_eq(args[1][1], text_char(p)), "C06:character given is the one there", w):
            for s in E.oblige(s, c_not(c_in(text_char(p), iset(10))), "C26:newline counted as a column", w):
                out.append((s, mkpos(args[0], addk(p, 1))))
    return out


@m("probe::v::text")
def v_text(E, st, fr, f, args, dty, line):
    a, b = st.facts.norm(pos(args[0])), st.facts.norm(pos(args[1]))
    w = E.caller_site(st, "text")
    out = []
    for s in E.oblige(st, c_le(a, b), "panic", w, "text range ends before it starts"):
        for s in E.oblige(s, c_le(b, TEXT_N), "panic", w, "text range beyond the text"):
            out.append((s, ("ref", strv([("tx", a, b)]))))
    return out


@m("probe::v::text_range")
def v_text_range(E, st, fr, f, args, dty, line):
    s = st.facts.norm_str(arg(E, st, args[0], "str"))
    if len(s[1]) == 1 and s[1][0][0] == "tx":
        a, b = s[1][0][1:]
        vp = [t for t in range(len(E.p.types)) if E.ty(t).get("path") == "probe::lex::VPos"][0]
        return one(st, E.some(dty, ("tup", tuple(("adt", vp, 0, (("int", x),)) for x in (a, b)))))
    return one(st, E.none(dty))


@m("probe::v::index")
def v_index(E, st, fr, f, args, dty, line):
    n = st.facts.norm(args[0][1])
    if not n.t and n.c <= 8:
        return [(st.fork(), ("int", K(i))) for i in range(n.c)]
    i = V(E.fresh(st, fr, "idx"), NONNEG)
    return [(s, ("int", i)) for s in E.assume(st, c_lt(i, args[0][1]))]


@m("probe::v::expand")
def v_expand(E, st, fr, f, args, dty, line):
    """follow each way round the loops that gave the value"""
    import loops
    v = args[0]
    while v[0] in ("ref", "ptr", "box"):
        v = E.deref(st, v)
    return [(st.fork(g), UNIT) for g in loops.expand(st.facts, v)]


@m("probe::v::scan")
def v_scan(E, st, fr, f, args, dty, line):
    import scan
    p = st.facts.norm(pos(args[0]))
    return [(s, mkpos(args[0], k)) for s, k in scan.scan(E, st, fr, p, args[1], line)]


TOKENKINDS = {"Whitespace": "White", "Comment": "Comment", "TagOpen": "Open", "TagClose": "Close",
              "Attribute": "Attr", "Characters": "Chars", "RawCharacters": "Raw", "EndOfFile": "End"}


def token_fields(E, st, v):
    """span, kind, strings, depth and boxed of a token, found by their types"""
    while v[0] in ("ref", "ptr", "box"):
        v = E.deref(st, v)
    want(v, "adt")
    span = kind = strs = depth = boxed = None
    for x in v[3]:
        if x[0] == "int":
            depth = x
        elif x[0] == "bool":
            boxed = x
        elif x[0] == "seq":
            strs = x
        elif x[0] == "adt" and "StreamCharSpan" in E.ty(x[1]).get("path", ""):
            span = x
        elif x[0] == "adt" and x[2] is not None and not x[3]:
            kind = E.ty(x[1])["v"][x[2]]["n"]
        else:
            raise Unsupported("token field %s" % (x[:2],))
    if span is None or kind not in TOKENKINDS or strs is None or depth is None or boxed is None:
        raise Unsupported("unknown token layout")
    return span, TOKENKINDS[kind], strs, depth, boxed


@m("probe::v::tok_info")
def v_tok_info(E, st, fr, f, args, dty, line):
    v = args[0]
    while v[0] in ("ref", "ptr", "box"):
        v = E.deref(st, v)
    t = E.ty(dty)
    names = [x[0] for x in t["v"][0]["f"]]
    kt = t["v"][0]["f"][names.index("kind")][1]
    kinds = [x["n"] for x in E.ty(kt)["v"]]
    d = {"kind": "End", "start": ("int", ZERO), "end": ("int", ZERO), "depth": ("int", ZERO),
         "boxed": ("bool", False), "prefix": EMPTYSTR, "name": EMPTYSTR, "value": EMPTYSTR}
    while v[0] == "adt" and E.ty(v[1])["path"] in ("std::option::Option", "std::result::Result"):
        n = E.ty(v[1])["v"][v[2]]["n"]
        if n == "None":
            v = None
            break
        if n == "Err":
            d["kind"] = "Error"
            v = None
            break
        v = v[3][0]
    if v is not None:
        span, kind, strs, depth, boxed = token_fields(E, st, v)
        d.update(kind=kind, start=span[3][0][3][0], end=span[3][1][3][0], depth=depth, boxed=boxed)
        if kind in ("Open", "Close", "Attr", "Chars", "Raw"):
            if any(s[0] != "i" for s in strs[1]):
                raise Unsupported("token strings")
            vs = [s[1] for s in strs[1]]
            ks = {"Open": ("prefix", "name"), "Close": ("prefix", "name"), "Attr": ("prefix", "name", "value"),
                  "Chars": ("value",), "Raw": ("value",)}[kind]
            if len(vs) != len(ks):
                raise Unsupported("token strings")
            d.update(zip(ks, vs))
    d["kind"] = ("adt", kt, kinds.index(d["kind"]), ())
    return one(st, ("adt", dty, 0, tuple(d[n] if n not in ("prefix", "name", "value") else ("ref", d[n]) for n in names)))


@m("probe::v::tok_lines")
def v_tok_lines(E, st, fr, f, args, dty, line):
    return one(st, ("ref", token_fields(E, st, args[0])[2]))


# ---- plain values ------------------------------------------------------------
def deep_clone(v):
    return v


@rx(r" as std::clone::Clone>::clone$", r"^std::clone::impls::<impl std::clone::Clone for .*>::clone$",
    r"^core::clone::impls::.*::clone$", r"::to_owned$", r"^std::clone::Clone::clone$", r"^<str as std::borrow::ToOwned>::to_owned")
def clone(E, st, fr, f, args, dty, line):
    if f["crate"] == "hml_rs" or not args:
        raise Unsupported("clone")
    t = E.ty(dty)
    if t["k"] == "adt" and t["path"] == "std::borrow::Cow":
        raise Unsupported("clone of Cow")
    v = args[0]
    v = E.deref(st, v)
    return one(st, v)


@m("std::mem::take")
def mem_take(E, st, fr, f, args, dty, line):
    old = E.deref(st, args[0])
    E.store(st, args[0], default_of(E, dty))
    return one(st, old)


def default_of(E, t):
    x = E.ty(t)
    k = x["k"]
    if k in ("int", "char"):
        return ("int", ZERO)
    if k == "bool":
        return ("bool", False)
    if k == "tuple":
        return ("tup", tuple(default_of(E, f) for f in x["f"]))
    if k == "adt":
        p = x["path"]
        if p == "std::string::String":
            return EMPTYSTR
        if p in ("std::vec::Vec", "std::collections::VecDeque"):
            return ("seq", ())
        if p in MAPS:
            return ("map", None, ())
        if p == "std::option::Option":
            return ("adt", t, 0, ())
        if x["kind"] == "struct" and p.startswith("hml_rs::names::Attributes"):
            return ("adt", t, 0, tuple(default_of(E, f[1]) for f in x["v"][0]["f"]))
        if x["kind"] == "struct" and len(x["v"][0]["f"]) == 1:
            return ("adt", t, 0, tuple(default_of(E, f[1]) for f in x["v"][0]["f"]))
    raise Unsupported("default of %s" % (x.get("path") or k))


MAPS = ("std::collections::HashMap", "std::collections::HashSet",
        "std::collections::BTreeMap", "std::collections::BTreeSet")


@m("std::mem::replace")
def mem_replace(E, st, fr, f, args, dty, line):
    old = E.deref(st, args[0])
    E.store(st, args[0], args[1])
    return one(st, old)


@m("std::mem::swap")
def mem_swap(E, st, fr, f, args, dty, line):
    a, b = E.deref(st, args[0]), E.deref(st, args[1])
    E.store(st, args[0], b)
    E.store(st, args[1], a)
    return one(st, UNIT)


@m("std::mem::drop", "std::mem::forget")
def mem_drop(E, st, fr, f, args, dty, line):
    return one(st, UNIT)


@m("std::hint::must_use", "<T as std::convert::From<T>>::from", "std::convert::identity", "std::hint::black_box")
def ident(E, st, fr, f, args, dty, line):
    return one(st, args[0])


# ---- Vec, VecDeque, slices -----------------------------------------------------
@rx(r"^std::vec::Vec::<T>::(new|with_capacity)$", r"^std::collections::VecDeque::<T>::(new|with_capacity)$",
    r"^<std::vec::Vec<T> as std::default::Default>::default$", r"^<std::collections::VecDeque<T> as std::default::Default>::default$")
def vec_new(E, st, fr, f, args, dty, line):
    return one(st, ("seq", ()))


@rx(r"^std::vec::Vec::<T, A>::push$", r"^std::collections::VecDeque::<T, A>::push_back$")
def vec_push(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    E.store(st, args[0], ("seq", v[1] + (("i", args[1]),)))
    return one(st, UNIT)


@m("std::collections::VecDeque::<T, A>::push_front")
def vd_push_front(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    E.store(st, args[0], ("seq", (("i", args[1]),) + v[1]))
    return one(st, UNIT)


def split_empty(E, st, v):
    """[(state, is empty, sequence)]"""
    if not v[1]:
        return [(st, True, v)]
    if any(s[0] == "i" for s in v[1]):
        return [(st, False, v)]
    out = []
    for t, s in E.branch(st, c_eq(E.seq_len(v), ZERO)):
        out.append((s, t, ("seq", ()) if t else v))
    return out


def drop_empty(E, st, v):
    f = st.facts
    segs = []
    for s in v[1]:
        if s[0] == "fam" and f.ask(c_eq(s[3], s[4])) is True:
            continue
        segs.append(s)
    return ("seq", tuple(segs))


def take_last(E, st, v):
    """[(state, element, rest)] of a sequence that is not empty"""
    v = drop_empty(E, st, v)
    if not v[1]:
        return []
    s = v[1][-1]
    if s[0] == "i":
        return [(st, s[1], ("seq", v[1][:-1]))]
    if s[0] == "fam":
        out = []
        for t, x in E.branch(st, c_lt(s[3], s[4])):
            if t:
                i = x.facts.norm(addk(s[4], -1))
                out.append((x, E.fam_at(x, s, i), ("seq", v[1][:-1] + (s[:4] + (i,),))))
            else:
                out.extend(take_last(E, x, ("seq", v[1][:-1])))
        return out
    raise Unsupported("last of a composite sequence")


def take_first(E, st, v):
    v = drop_empty(E, st, v)
    if not v[1]:
        return []
    s = v[1][0]
    if s[0] == "i":
        return [(st, s[1], ("seq", v[1][1:]))]
    if s[0] == "fam":
        out = []
        for t, x in E.branch(st, c_lt(s[3], s[4])):
            if t:
                i = x.facts.norm(s[3])
                out.append((x, E.fam_at(x, s, i), ("seq", (s[:3] + (x.facts.norm(addk(i, 1)), s[4]),) + v[1][1:])))
            else:
                out.extend(take_first(E, x, ("seq", v[1][1:])))
        return out
    raise Unsupported("first of a composite sequence")


@rx(r"^std::vec::Vec::<T, A>::pop$", r"^std::collections::VecDeque::<T, A>::pop_back$")
def vec_pop(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    out = []
    for s, e, w in split_empty(E, st, v):
        if e:
            E.store(s, args[0], ("seq", ()))
            out.append((s, E.none(dty)))
        else:
            for x, el, rest in take_last(E, s, w):
                E.store(x, args[0], rest)
                out.append((x, E.some(dty, el)))
    return out


@rx(r"^std::collections::VecDeque::<T, A>::pop_front$")
def vd_pop_front(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    out = []
    for s, e, w in split_empty(E, st, v):
        if e:
            E.store(s, args[0], ("seq", ()))
            out.append((s, E.none(dty)))
        else:
            for x, el, rest in take_first(E, s, w):
                E.store(x, args[0], rest)
                out.append((x, E.some(dty, el)))
    return out


@rx(r"^std::cmp::Ordering::is_(eq|ne|lt|le|gt|ge)$")
def ordering_is(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "adt")
    return one(st, ("bool", v[2] in {"eq": (1,), "ne": (0, 2), "lt": (0,), "le": (0, 1), "gt": (2,), "ge": (1, 2)}[f["path"][-2:]]))


@rx(r"^std::vec::Vec::<T, A>::len$", r"^std::collections::VecDeque::<T, A>::len$", r"^core::slice::<impl \[T\]>::len$")
def vec_len(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    return one(st, ("int", st.facts.norm(E.seq_len(v))))


@rx(r"^std::vec::Vec::<T, A>::is_empty$", r"^std::collections::VecDeque::<T, A>::is_empty$", r"^core::slice::<impl \[T\]>::is_empty$")
def vec_is_empty(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    if any(s[0] == "i" for s in v[1]):
        return one(st, ("bool", False))
    return one(st, ("bool", c_eq(E.seq_len(v), ZERO)))


@rx(r"^std::vec::Vec::<T, A>::clear$", r"^std::collections::VecDeque::<T, A>::clear$")
def vec_clear(E, st, fr, f, args, dty, line):
    E.store(st, args[0], ("seq", ()))
    return one(st, UNIT)


@rx(r"^std::vec::Vec::<T, A>::append$", r"^std::collections::VecDeque::<T, A>::append$")
def vec_append(E, st, fr, f, args, dty, line):
    a, b = arg(E, st, args[0], "seq"), arg(E, st, args[1], "seq")
    E.store(st, args[0], ("seq", a[1] + b[1]))
    E.store(st, args[1], ("seq", ()))
    return one(st, UNIT)


@m("std::vec::Vec::<T, A>::extend_from_slice")
def vec_extend_slice(E, st, fr, f, args, dty, line):
    a, b = arg(E, st, args[0], "seq"), arg(E, st, args[1], "seq")
    E.store(st, args[0], ("seq", a[1] + b[1]))
    return one(st, UNIT)


@m("std::collections::VecDeque::<T, A>::split_off", "std::vec::Vec::<T, A>::split_off")
def split_off(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    n = st.facts.norm(args[1][1])
    w = E.where(fr, line)
    out = []
    for s in E.oblige(st, c_le(n, E.seq_len(v)), "panic", w, "split_off beyond the end"):
        if not n.t and n.c == 0:
            a, b = ("seq", ()), v
        else:
            a, b = E.subseq(s, v, ZERO, n), E.subseq(s, v, n, E.seq_len(v))
        E.store(s, args[0], a)
        out.append((s, b))
    return out


@m("std::vec::Vec::<T, A>::truncate")
def vec_truncate(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    out = []
    for t, s in E.branch(st, c_le(args[1][1], E.seq_len(v))):
        if t:
            E.store(s, args[0], E.subseq(s, v, ZERO, args[1][1]))
        out.append((s, UNIT))
    return out


@rx(r"^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::vec::Vec::<T, A>::as_(mut_)?slice$",
    r"^<std::vec::Vec<T, A> as std::(convert::AsRef|borrow::Borrow)<.*>>::", r"^<std::string::String as std::ops::Deref>::deref$",
    r"^std::string::String::as_str$", r"^<std::string::String as std::(convert::AsRef|borrow::Borrow)<str>>::", r"^<str as std::convert::AsRef<str>>::as_ref$",
    r"^<std::boxed::Box<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::option::Option::<T>::as_deref$",
    r"^<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref$", r"^core::slice::<impl .*AsRef<\[T\]> for \[T\]>::as_ref$",
    r"borrow::Borrow<.*> for std::vec::Vec<.*>>::borrow$", r"^<std::vec::Vec<.*> as std::borrow::Borrow<.*>>::borrow$",
    r"^std::string::String::as_mut_str$", r"^core::slice::<impl \[T\]>::as_slice", r"^core::array::<impl \[T; N\]>::as_slice$")
def deref_same(E, st, fr, f, args, dty, line):
    v = args[0]
    if f["path"].startswith("<std::boxed::Box") and v[0] in ("ref", "ptr"):
        if v[0] == "ptr":
            return one(st, ("ptr", v[1], v[2] + (("box",),)))
        return one(st, ("ref", v[1][1]))
    if f["path"].endswith("::as_deref"):
        o = E.deref(st, v)
        out = []
        for s, w in E.variants(st, o):
            out.append((s, E.none(dty) if w[2] == 0 else E.some(dty, ("ref", w[3][0]))))
        return out
    return one(st, v)


@rx(r"^core::slice::<impl \[T\]>::(last|first)(_mut)?$", r"^std::collections::VecDeque::<T, A>::(front|back)(_mut)?$")
def slice_last(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    front = "first" in f["path"] or "front" in f["path"]
    mut = f["path"].endswith("_mut")
    out = []
    for s, e, w in split_empty(E, st, v):
        if e:
            out.append((s, E.none(dty)))
            continue
        for x, el, rest in (take_first if front else take_last)(E, s, w):
            if not mut:
                out.append((x, E.some(dty, ("ref", el))))
                continue
            if args[0][0] != "ptr":
                raise Unsupported("mutable access through %s" % args[0][0])
            # make the element explicit
            segs = rest[1]
            nv = ("seq", ((("i", el),) + segs) if front else (segs + (("i", el),)))
            E.store(x, args[0], nv)
            idx = ZERO if front else x.facts.norm(E.seq_len(rest))
            out.append((x, E.some(dty, ("ptr", args[0][1], args[0][2] + (("I", idx),)))))
    return out


def seq_get(E, st, v, i, fr, line):
    """[(state, element or None)] with a fork on which segment i lies in"""
    i = st.facts.norm(i)
    n = st.facts.norm(E.seq_len(v))
    out = []
    for t, s in E.branch(st, c_lt(i, n)):
        if not t:
            out.append((s, None, i))
            continue
        out.extend(seq_at(E, s, v, i))
    return out


def seq_at(E, st, v, i):
    el, _ = E.index_seq(st, v, i)
    if el is not None:
        return [(st, el, i)]
    off = ZERO
    for n, sg in enumerate(v[1]):
        ln = ONE if sg[0] == "i" else sub(sg[4], sg[3]) if sg[0] == "fam" else None
        if ln is None:
            raise Unsupported("index into a composite sequence")
        end = add(off, ln)
        r = st.facts.ask(c_lt(i, end))
        if r is None:
            out = []
            for t, s in E.branch(st, c_lt(i, end)):
                out.extend(seq_at(E, s, v, i))
            return out
        off = end
    raise Unsupported("index not determined")


def range_of(E, st, v, n):
    """bounds of a range value, None when not a range"""
    if v[0] != "adt":
        return None
    x = E.ty(v[1])
    p = x["path"]
    if p == "std::ops::Range":
        return v[3][0][1], v[3][1][1]
    if p == "std::ops::RangeTo":
        return ZERO, v[3][0][1]
    if p == "std::ops::RangeFrom":
        return v[3][0][1], n
    if p == "std::ops::RangeFull":
        return ZERO, n
    if p == "std::ops::RangeInclusive":
        return v[3][0][1], addk(v[3][1][1], 1)
    if p == "std::ops::RangeToInclusive":
        return ZERO, addk(v[3][0][1], 1)
    return None


@rx(r"^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$", r"^core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$",
    r"^<std::collections::VecDeque<T, A> as std::ops::Index(Mut)?<usize>>::index(_mut)?$", r"^core::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$",
    r"^core::slice::<impl \[T\]>::get_unchecked(_mut)?$")
def index(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    w = E.where(fr, line)
    mut = f["path"].endswith("_mut")
    panics = "C25:read outside a slice" if "unchecked" in f["path"] else "panic"
    ix = args[1]
    n = E.seq_len(v)
    if ix[0] == "int":
        out = []
        i = st.facts.norm(ix[1])
        for s in E.oblige(st, c_lt(i, n), panics, w, "index out of bounds"):
            for x, el, i2 in seq_at(E, s, v, i):
                if mut and args[0][0] == "ptr":
                    out.append((x, ("ptr", args[0][1], args[0][2] + (("I", i2),))))
                else:
                    out.append((x, ("ref", el)))
        return out
    r = range_of(E, st, ix, n)
    if r is None or mut:
        raise Unsupported("index by %s" % ix[0])
    out = []
    for s in E.oblige(st, c_le(r[0], r[1]), panics, w, "slice range ends before it starts"):
        for s in E.oblige(s, c_le(r[1], n), panics, w, "slice range out of bounds"):
            out.append((s, ("ref", E.subseq(s, v, r[0], r[1]))))
    return out


@rx(r"^core::slice::<impl \[T\]>::get$", r"^std::collections::VecDeque::<T, A>::get$", r"^core::slice::<impl \[T\]>::get_mut$")
def slice_get(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    ix = args[1]
    if ix[0] == "int":
        out = []
        for s, el, i in seq_get(E, st, v, ix[1], fr, line):
            if el is None:
                out.append((s, E.none(dty)))
            elif f["path"].endswith("_mut"):
                out.append((s, E.some(dty, ("ptr", args[0][1], args[0][2] + (("I", i),)))))
            else:
                out.append((s, E.some(dty, ("ref", el))))
        return out
    n = E.seq_len(v)
    r = range_of(E, st, ix, n)
    if r is None:
        raise Unsupported("get by %s" % ix[0])
    out = []
    for t, s in E.branch(st, c_and(c_le(r[0], r[1]), c_le(r[1], n))):
        out.append((s, E.some(dty, ("ref", E.subseq(s, v, r[0], r[1]))) if t else E.none(dty)))
    return out


@m("core::slice::<impl [T]>::contains")
def slice_contains(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    x = E.deref(st, args[1])
    cs = []
    for s in v[1]:
        if s[0] != "i":
            raise Unsupported("contains on a sequence of unknown length")
        cs.append(val_eq(E, st, s[1], x))
    if any(c is None for c in cs):
        raise Unsupported("contains")
    return one(st, ("bool", c_or(*cs)))


@m("core::slice::<impl [T]>::to_vec")
def to_vec(E, st, fr, f, args, dty, line):
    return one(st, arg(E, st, args[0], "seq"))


@m("core::slice::<impl [T]>::split_at")
def split_at(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    n = E.seq_len(v)
    out = []
    for s in E.oblige(st, c_le(args[1][1], n), "panic", E.where(fr, line), "split_at"):
        out.append((s, ("tup", (("ref", E.subseq(s, v, ZERO, args[1][1])), ("ref", E.subseq(s, v, args[1][1], n))))))
    return out


@m("std::collections::VecDeque::<T, A>::as_slices")
def as_slices(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    return one(st, ("tup", (("ref", v), ("ref", ("seq", ())))))


@m("core::slice::<impl [T]>::split_first")
def split_first(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    out = []
    for s, e, w in split_empty(E, st, v):
        if e:
            out.append((s, E.none(dty)))
        else:
            for x, el, rest in take_first(E, s, w):
                out.append((x, E.some(dty, ("tup", (("ref", el), ("ref", rest))))))
    return out


@m("core::slice::<impl [T]>::split_last")
def split_last(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    out = []
    for s, e, w in split_empty(E, st, v):
        if e:
            out.append((s, E.none(dty)))
        else:
            for x, el, rest in take_last(E, s, w):
                out.append((x, E.some(dty, ("tup", (("ref", el), ("ref", rest))))))
    return out


# vec![..]
@rx(r"^std::boxed::Box::<T>::new_uninit$")
def new_uninit(E, st, fr, f, args, dty, line):
    return one(st, ("box", ("uninit",)))


@m("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl [T]>::into_vec", "core::slice::<impl [T]>::into_vec")
def into_vec(E, st, fr, f, args, dty, line):
    return one(st, want(args[0][1], "seq"))


@m("std::boxed::Box::<T>::new")
def box_new(E, st, fr, f, args, dty, line):
    return one(st, ("box", args[0]))


# ---- iterators ---------------------------------------------------------------
# ('it', 'seq', sequence, by)  remaining elements; by: ref | val | ptr
# ('it', 'chars', str) ...

@rx(r"^core::slice::<impl \[T\]>::iter$", r"^core::slice::iter::<impl std::iter::IntoIterator for &'a \[T\]>::into_iter$",
    r"^<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"^std::collections::VecDeque::<T, A>::iter$",
    r"^<&'a std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter$", r"^core::array::.*IntoIterator for &'a \[T; N\]>::into_iter$")
def iter_ref(E, st, fr, f, args, dty, line):
    return one(st, ("it", "seq", arg(E, st, args[0], "seq"), "ref"))


@rx(r"^<std::(vec::Vec|collections::VecDeque)<T, A> as std::iter::IntoIterator>::into_iter$",
    r"^core::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter$")
def iter_val(E, st, fr, f, args, dty, line):
    return one(st, ("it", "seq", want(args[0], "seq"), "val"))


@rx(r"^core::slice::<impl \[T\]>::iter_mut$", r"^core::slice::iter::<impl std::iter::IntoIterator for &'a mut \[T\]>::into_iter$",
    r"^<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$")
def iter_mut(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "seq")
    return one(st, ("it", "mut", args[0], ZERO, E.seq_len(v)))


ITER_PATHS = (r"std::slice::Iter<'a, T>", r"std::vec::IntoIter<T, A>", r"std::collections::vec_deque::IntoIter<T, A>",
              r"std::collections::vec_deque::Iter<'a, T>", r"std::array::IntoIter<T, N>", r"std::slice::IterMut<'a, T>",
              r"std::str::Chars<'a>", r"std::str::CharIndices<'a>", r"std::str::Bytes<'_>", r"std::str::Split<'a, P>", r"std::str::SplitN<'a, P>", r"std::vec::Drain<'_, T, A>",
              r"std::collections::hash_map::Iter<'a, K, V>", r"std::collections::hash_set::Iter<'a, K>", r"std::collections::hash_map::Keys<'a, K, V>", r"std::collections::hash_map::Values<'a, K, V>",
              r"std::option::IntoIter<A>", r"std::iter::Take<I>", r"std::iter::Skip<I>")


def wrap_item(it, el):
    return ("ref", el) if it[3] == "ref" else el


def it_next(E, st, it, back=False):
    """[(state, iterator after, item or None)]"""
    k = it[1]
    if k == "seq":
        out = []
        for s, e, w in split_empty(E, st, it[2]):
            if e:
                out.append((s, ("it", "seq", ("seq", ()), it[3]), None))
            else:
                for x, el, rest in (take_last if back else take_first)(E, s, w):
                    out.append((x, ("it", "seq", rest, it[3]), wrap_item(it, el)))
        return out
    if k == "mut":
        out = []
        lo, hi = it[3], it[4]
        for t, s in E.branch(st, c_lt(lo, hi)):
            if not t:
                out.append((s, it, None))
                continue
            i = s.facts.norm(addk(hi, -1) if back else lo)
            p = it[2]
            el = ("ptr", p[1], p[2] + (("I", i),))
            out.append((s, it[:3] + ((lo, i) if back else (s.facts.norm(addk(lo, 1)), hi)), el))
        return out
    if k == "chars":
        if back:
            raise Unsupported("chars from the back")
        out = []
        for s, c, rest in str_first(E, st, it[2]):
            if c is None:
                out.append((s, ("it", "chars", EMPTYSTR, it[3]), None))
            elif it[3] is None:
                out.append((s, ("it", "chars", rest, None), ("int", c)))
            else:
                out.append((s, ("it", "chars", rest, add(it[3], utf8_len(c))), ("tup", (("int", it[3]), ("int", c)))))
        return out
    if k == "split":
        return split_next(E, st, it)
    if k == "pairs":
        if not it[2]:
            return [(st, it, None)]
        kv = it[2][0]
        rest = ("it", "pairs", it[2][1:], it[3])
        item = ("tup", (("ref", kv[0]), ("ref", kv[1]))) if it[3] == "kv" else ("ref", kv[0]) if it[3] == "k" else ("ref", kv[1])
        return [(st, rest, item)]
    raise Unsupported("next of %s" % k)


@rx(r"^std::iter::Iterator::(take|skip)$")
def iter_part(E, st, fr, f, args, dty, line):
    it = args[0]
    if it[0] != "it" or it[1] != "seq":
        return E.enter(st, fr, f, args)
    v = it[2]
    n, ln = args[1][1], E.seq_len(v)
    out = []
    for t, s in E.branch(st, c_le(n, ln)):
        k = s.facts.norm(n) if t else ln
        w = E.subseq(s, v, ZERO, k) if f["path"].endswith("take") else E.subseq(s, v, k, ln)
        out.append((s, ("it", "seq", w, it[3])))
    return out


def item_types(E, dty, how):
    """types of key and value an iterator over a map gives"""
    t = E.ty(dty)["args"][0]
    ts = [E.ty(x)["e"] for x in E.ty(t)["f"]] if how == "kv" else [E.ty(t)["e"]] * 2
    return ts


@rx(*["^<%s as std::iter::Iterator>::next$" % re.escape(p) for p in ITER_PATHS])
def iter_next(E, st, fr, f, args, dty, line):
    it = E.deref(st, args[0])
    if it[0] == "adt" and f.get("body"):
        return E.enter(st, fr, f, args)
    it = arg(E, st, args[0], "it")
    out = []
    if it[1] == "mapw":
        import lists
        got = lists.next_of(E, st, fr, it, item_types(E, dty, it[5]))
    else:
        got = it_next(E, st, it)
    for s, nit, item in got:
        E.store(s, args[0], nit)
        out.append((s, E.none(dty) if item is None else E.some(dty, item)))
    return out


@rx(*["^<%s as std::iter::DoubleEndedIterator>::next_back$" % re.escape(p) for p in ITER_PATHS])
def iter_next_back(E, st, fr, f, args, dty, line):
    it = arg(E, st, args[0], "it")
    out = []
    for s, nit, item in it_next(E, st, it, True):
        E.store(s, args[0], nit)
        out.append((s, E.none(dty) if item is None else E.some(dty, item)))
    return out


@rx(*["^<%s as std::iter::Iterator>::nth$" % re.escape(p) for p in ITER_PATHS])
def iter_nth(E, st, fr, f, args, dty, line):
    it = arg(E, st, args[0], "it")
    if it[1] != "seq":
        raise Unsupported("nth")
    n = st.facts.norm(args[1][1])
    v = it[2]
    ln = E.seq_len(v)
    out = []
    for t, s in E.branch(st, c_lt(n, ln)):
        if not t:
            E.store(s, args[0], ("it", "seq", ("seq", ()), it[3]))
            out.append((s, E.none(dty)))
            continue
        rest = E.subseq(s, v, n, ln)
        for x, el, r2 in take_first(E, s, rest):
            E.store(x, args[0], ("it", "seq", r2, it[3]))
            out.append((x, E.some(dty, wrap_item(it, el))))
    return out


@rx(*["^<%s as std::iter::ExactSizeIterator>::len$" % re.escape(p) for p in ITER_PATHS])
def iter_len(E, st, fr, f, args, dty, line):
    it = arg(E, st, args[0], "it")
    if it[1] != "seq":
        raise Unsupported("len of iterator")
    return one(st, ("int", E.seq_len(it[2])))


@rx(*["^<%s as std::iter::Iterator>::size_hint$" % re.escape(p) for p in ITER_PATHS])
def iter_hint(E, st, fr, f, args, dty, line):
    it = arg(E, st, args[0], "it")
    x = E.ty(dty)
    if it[1] != "seq":
        raise Unsupported("size_hint")
    n = ("int", E.seq_len(it[2]))
    return one(st, ("tup", (n, E.some(x["f"][1], n))))


@m("std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next")
def range_next(E, st, fr, f, args, dty, line):
    r = arg(E, st, args[0], "adt")
    a, b = r[3][0], r[3][1]
    out = []
    for t, s in E.branch(st, c_lt(a[1], b[1])):
        if t:
            E.store(s, args[0], ("adt", r[1], r[2], (("int", s.facts.norm(addk(a[1], 1))), b)))
            out.append((s, E.some(dty, a)))
        else:
            out.append((s, E.none(dty)))
    return out


@m("std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back")
def range_next_back(E, st, fr, f, args, dty, line):
    r = arg(E, st, args[0], "adt")
    a, b = r[3][0], r[3][1]
    out = []
    for t, s in E.branch(st, c_lt(a[1], b[1])):
        if t:
            e = s.facts.norm(addk(b[1], -1))
            E.store(s, args[0], ("adt", r[1], r[2], (a, ("int", e))))
            out.append((s, E.some(dty, ("int", e))))
        else:
            out.append((s, E.none(dty)))
    return out


@rx(r"^std::ops::RangeInclusive::<Idx>::contains$", r"^std::ops::Range::<Idx>::contains$", r"^std::ops::RangeFrom::<Idx>::contains$",
    r"^std::ops::RangeTo::<Idx>::contains$", r"^std::ops::RangeToInclusive::<Idx>::contains$")
def range_contains(E, st, fr, f, args, dty, line):
    r = arg(E, st, args[0], "adt")
    x = E.deref(st, args[1])
    while x[0] == "ref":
        x = x[1]
    want(x, "int")
    b = range_of(E, st, r, K(INF))
    if b is None:
        raise Unsupported("contains")
    return one(st, ("bool", c_and(c_le(b[0], x[1]), c_lt(x[1], b[1]))))


@m("std::ops::RangeInclusive::<Idx>::new")
def ri_new(E, st, fr, f, args, dty, line):
    return one(st, ("adt", dty, 0, (args[0], args[1], ("bool", False))))


# ---- strings -----------------------------------------------------------------
@m("std::string::String::new", "<std::string::String as std::default::Default>::default", "std::string::String::with_capacity",
   "<&str as std::default::Default>::default")
def string_new(E, st, fr, f, args, dty, line):
    return one(st, EMPTYSTR)


@m("core::str::<impl str>::is_empty", "std::string::String::is_empty")
def str_is_empty(E, st, fr, f, args, dty, line):
    return one(st, ("bool", c_empty(arg(E, st, args[0], "str"))))


@m("core::str::<impl str>::len", "std::string::String::len")
def str_len_(E, st, fr, f, args, dty, line):
    return one(st, ("int", st.facts.norm(str_len(arg(E, st, args[0], "str")))))


@m("std::string::String::push")
def string_push(E, st, fr, f, args, dty, line):
    s = arg(E, st, args[0], "str")
    E.store(st, args[0], strv(s[1] + (("c", args[1][1]),)))
    return one(st, UNIT)


@m("std::string::String::push_str", "<std::string::String as std::ops::AddAssign<&str>>::add_assign")
def string_push_str(E, st, fr, f, args, dty, line):
    s = arg(E, st, args[0], "str")
    t = arg(E, st, args[1], "str")
    E.store(st, args[0], strv(s[1] + t[1]))
    return one(st, UNIT)


@m("<std::string::String as std::ops::Add<&str>>::add")
def string_add(E, st, fr, f, args, dty, line):
    return one(st, strv(want(args[0], "str")[1] + arg(E, st, args[1], "str")[1]))


@m("std::string::String::clear")
def string_clear(E, st, fr, f, args, dty, line):
    E.store(st, args[0], EMPTYSTR)
    return one(st, UNIT)


@rx(r"^<std::string::String as std::convert::From<&(mut )?str>>::from$", r"^<std::string::String as std::convert::From<&std::string::String>>::from$",
    r"^std::str::<impl str>::to_owned$", r"^std::str::<impl std::borrow::ToOwned for str>::to_owned$", r"^<std::string::String as std::str::FromStr>", r"^std::str::<impl str>::into_string$",
    r"^<str as std::string::SpecToString>::spec_to_string$", r"^<std::string::String as std::string::SpecToString>::spec_to_string$", r"^<char as std::string::SpecToString>::spec_to_string$",
    r"^<std::string::String as std::convert::From<char>>::from$")
def string_from(E, st, fr, f, args, dty, line):
    v = args[0]
    if v[0] == "int":
        return one(st, strv([("c", v[1])]))
    v = arg(E, st, v)
    while v[0] == "ref":
        v = v[1]
    if v[0] == "int":
        return one(st, strv([("c", v[1])]))
    return one(st, want(v, "str"))


@m("<T as std::string::ToString>::to_string")
def to_string(E, st, fr, f, args, dty, line):
    v = E.deref(st, args[0])
    while v[0] == "ref":
        v = v[1]
    if v[0] == "str":
        return one(st, v)
    t = E.ty(E.p.types[0] and 0) if False else None
    if v[0] == "int" and "char as" in f["name"]:
        return one(st, strv([("c", v[1])]))
    # Display of a library type: interpret its fmt with a string as the sink
    raise Unsupported("to_string of %s" % v[0])


@rx(r"PartialEq<?.*>?::(eq|ne)$", r"^std::cmp::PartialEq::ne$", r"SpecArrayEq", r"^<\[A\] as core::slice::cmp::SlicePartialEq<B>>::equal")
def generic_eq(E, st, fr, f, args, dty, line):
    if f["crate"] in ("hml_rs", "probe"):
        if f.get("body"):
            return E.enter(st, fr, f, args)
    a, b = args
    a = strip(E, st, a)
    b = strip(E, st, b)
    ne = f["path"].endswith("::ne")
    c = val_eq(E, st, a, b)
    if c is None:
        if f.get("body"):
            return E.enter(st, fr, f, args)
        raise Unsupported("comparison of %s and %s" % (a[0], b[0]))
    return one(st, ("bool", c_not(c) if ne else c))


def strip(E, st, v):
    while v[0] in ("ref", "ptr", "box"):
        v = E.deref(st, v)
    return v


def user_eq(E, t):
    """does the type's equality have a hand-written body that must be looked at"""
    return False


def val_eq(E, st, a, b):
    """condition that two values are equal by structure, None when not known"""
    a, b = strip(E, st, a), strip(E, st, b)
    if a[0] == "int" and b[0] == "int":
        return c_eq(a[1], b[1])
    if a[0] == "bool" and b[0] == "bool":
        return c_or(c_and(a[1], b[1]), c_and(c_not(a[1]), c_not(b[1])))
    if a[0] == "str" and b[0] == "str":
        f = st.facts
        return c_streq(f.norm_str(a), f.norm_str(b))
    if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
        return _all(val_eq(E, st, x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "seq" and b[0] == "seq":
        x, y = a[1], b[1]
        if x == y:
            return True
        if all(s[0] == "i" for s in x) and all(s[0] == "i" for s in y):
            if len(x) != len(y):
                return False
            return _all(val_eq(E, st, p[1], q[1]) for p, q in zip(x, y))
        return None
    if a[0] == "adt" and b[0] == "adt" and a[1] == b[1]:
        if a[2] != b[2]:
            return False
        return _all(val_eq(E, st, x, y) for x, y in zip(a[3], b[3]))
    for x, y in ((a, b), (b, a)):
        if x[0] == "sym" and y[0] == "adt" and x[2] == y[1]:
            d = E.ty(x[2])["v"][y[2]]["d"]
            ds = c_eq(E.discr(st, x), K(d))
            if not y[3]:
                return ds
            r = st.facts.ask(ds)
            if r is False:
                return False
            sub_ = val_eq(E, st, E.materialise(x, y[2]), y)
            return None if sub_ is None else c_and(ds, sub_)
    if a[0] == "sym" and b[0] == "sym" and a[1] == b[1]:
        return True
    if a[0] == "sym" and b[0] == "sym" and a[2] == b[2] and all(not v["f"] for v in E.ty(a[2])["v"]):
        return c_eq(E.discr(st, a), E.discr(st, b))
    if a == b and a[0] in ("zst", "fn"):
        return True
    return None


def _all(cs):
    out = []
    for c in cs:
        if c is None:
            return None
        out.append(c)
    return c_and(*out)


def str_first(E, st, s):
    """[(state, first char or None, rest)]"""
    s = st.facts.norm_str(s)
    if not s[1]:
        return [(st, None, s)]
    p = s[1][0]
    rest = s[1][1:]
    if p[0] == "l":
        return [(st, K(ord(p[1][0])), strv((("l", p[1][1:]),) + rest))]
    if p[0] == "c":
        return [(st, p[1], strv(rest))]
    if p[0] == "tx":
        out = []
        for t, x in E.branch(st, c_lt(p[1], p[2])):
            if t:
                a = x.facts.norm(p[1])
                out.append((x, text_char(a), strv((("tx", x.facts.norm(addk(a, 1)), p[2]),) + rest)))
            else:
                out.extend(str_first(E, x, strv(rest)))
        return out
    raise Unsupported("characters of an unknown string")


@m("core::str::<impl str>::chars")
def str_chars(E, st, fr, f, args, dty, line):
    return one(st, ("it", "chars", arg(E, st, args[0], "str"), None))


@m("core::str::<impl str>::char_indices")
def str_char_indices(E, st, fr, f, args, dty, line):
    return one(st, ("it", "chars", arg(E, st, args[0], "str"), ZERO))


def one_char(E, st, v):
    """the pattern when it is one known character"""
    v = strip(E, st, v)
    if v[0] == "int" and not v[1].t:
        return v[1].c
    if v[0] == "str" and len(v[1]) == 1:
        p = v[1][0]
        if p[0] == "l" and len(p[1]) == 1:
            return ord(p[1])
        if p[0] == "c" and not p[1].t:
            return p[1].c
    raise Unsupported("pattern")


def split_at_char(E, st, s, ch):
    """[(state, string before the first such character, string after it)], (state, string, None) where there is none"""
    todo = [(st, (), st.facts.norm_str(s)[1])]
    out = []
    while todo:
        st, head, tail = todo.pop()
        if not tail:
            out.append((st, strv(head), None))
            continue
        p, rest = tail[0], tail[1:]
        if p[0] == "l":
            i = p[1].find(chr(ch))
            if i >= 0:
                out.append((st, strv(head + (("l", p[1][:i]),)), strv((("l", p[1][i + 1:]),) + rest)))
            else:
                todo.append((st, head + (p,), rest))
            continue
        for t, x in E.branch(st, c_hasch(("str", (p,)), ch)):
            if not t:
                todo.append((x, head + (p,), rest))
            elif p[0] == "c":
                out.append((x, strv(head), strv(rest)))
            elif p[0] == "t":
                a = ("v", "upto%d_%d" % (tid(p[1]), ch), x.iota)
                b = ("v", "past%d_%d" % (tid(p[1]), ch), x.iota)
                w = strv((("t", a), ("l", chr(ch)), ("t", b)))
                c = c_and(c_streq(("str", (p,)), w), c_not(c_hasch(("str", (("t", a),)), ch)))
                for g in x.facts.assume(c):
                    y = x.fork()
                    y.facts = g
                    out.append((y, strv(head + (("t", a),)), strv((("t", b),) + rest)))
            else:
                raise Unsupported("splitting %s" % p[0])
    return out


@rx(r"^core::str::<impl str>::contains$")
def str_contains(E, st, fr, f, args, dty, line):
    return one(st, ("bool", c_hasch(st.facts.norm_str(arg(E, st, args[0], "str")), one_char(E, st, args[1]))))


@rx(r"^core::str::<impl str>::split$")
def str_split(E, st, fr, f, args, dty, line):
    return one(st, ("it", "split", arg(E, st, args[0], "str"), one_char(E, st, args[1]), None))


@rx(r"^core::str::<impl str>::splitn$")
def str_splitn(E, st, fr, f, args, dty, line):
    n = args[1][1]
    if n.t:
        raise Unsupported("splitn")
    return one(st, ("it", "split", arg(E, st, args[0], "str") if n.c else None, one_char(E, st, args[2]), n.c))


def split_next(E, st, it):
    if it[2] is None:
        return [(st, it, None)]
    if it[4] == 1:
        return [(st, ("it", "split", None, it[3], 0), ("ref", it[2]))]
    n = it[4] - 1 if it[4] else None
    return [(x, ("it", "split", b, it[3], n), ("ref", a)) for x, a, b in split_at_char(E, st, it[2], it[3])]


@rx(r"^core::str::<impl str>::split_once$")
def str_split_once(E, st, fr, f, args, dty, line):
    s = arg(E, st, args[0], "str")
    return [(x, E.none(dty) if b is None else E.some(dty, ("tup", (("ref", a), ("ref", b)))))
            for x, a, b in split_at_char(E, st, s, one_char(E, st, args[1]))]


@rx(r"^core::str::<impl str>::find$")
def str_find(E, st, fr, f, args, dty, line):
    s = arg(E, st, args[0], "str")
    return [(x, E.none(dty) if b is None else E.some(dty, ("int", x.facts.norm(str_len(a)))))
            for x, a, b in split_at_char(E, st, s, one_char(E, st, args[1]))]


def str_cut(E, st, s, n):
    """the string up to a byte offset and from there on"""
    s = st.facts.norm_str(s)
    n = st.facts.norm(n)
    head, tail = (), s[1]
    while True:
        d = st.facts.norm(sub(n, str_len(strv(head))))
        if not d.t and d.c == 0:
            return strv(head), strv(tail)
        if not tail:
            raise Unsupported("offset in a string")
        p, tail = tail[0], tail[1:]
        if p[0] == "l" and not d.t and 0 < d.c < len(p[1].encode("utf8")):
            b = p[1].encode("utf8")
            try:
                return strv(head + (("l", b[:d.c].decode("utf8")),)), strv((("l", b[d.c:].decode("utf8")),) + tail)
            except UnicodeDecodeError:
                raise Unsupported("offset in a string")
        head = head + (p,)


@rx(r"^core::str::traits::<impl std::ops::Index<I> for str>::index$", r"^<std::string::String as std::ops::Index<I>>::index$")
def str_index(E, st, fr, f, args, dty, line):
    s = arg(E, st, args[0], "str")
    b = range_of(E, st, args[1], str_len(s))
    if b is None:
        raise Unsupported("string index")
    h, _ = str_cut(E, st, s, b[1])
    _, t = str_cut(E, st, h, b[0])
    return one(st, ("ref", t))


@rx(r"^core::str::<impl str>::split_at$")
def str_split_at(E, st, fr, f, args, dty, line):
    a, b = str_cut(E, st, arg(E, st, args[0], "str"), args[1][1])
    return one(st, ("tup", (("ref", a), ("ref", b))))


@m("probe::v::has_char")
def v_has_char(E, st, fr, f, args, dty, line):
    return str_contains(E, st, fr, f, args, dty, line)


def str_bytes(E, st, s):
    """the bytes as a sequence"""
    s = st.facts.norm_str(s)
    segs = []
    for p in s[1]:
        if p[0] == "l":
            segs.extend(("i", ("int", K(b))) for b in p[1].encode("utf8"))
        elif p[0] == "t":
            bv = V(("bv", 0))
            segs.append(("fam", ("int", V(("byte", p[1], bv), U8)), bv.t[0][0], ZERO, V(("len", p[1]), NONNEG)))
        elif p[0] == "b":
            segs.extend(p[1])
        elif p[0] == "c" and subset(st.facts.rng(p[1]), ((0, 127),)):
            segs.append(("i", ("int", p[1])))
        elif p[0] == "c":
            segs.append(("u8", p[1]))
        else:
            raise Unsupported("bytes of %s" % p[0])
    return ("seq", tuple(segs))


def bytes_str(E, st, v):
    """the string these bytes are, None when they are none"""
    f = st.facts
    parts = []
    lit = b""
    for s in v[1]:
        if s[0] == "u8" and not lit:
            parts.append(("c", s[1]))
            continue
        if s[0] == "fam" and not lit and whole(E, st, s):
            parts.append(("t", s[1][1].t[0][0] and TERMS[s[1][1].t[0][0]][1]))
            continue
        if s[0] != "i":
            raise Unsupported("string from bytes")
        x = f.norm(s[1][1])
        if not x.t:
            lit += bytes([x.c])
            try:
                parts.append(("l", lit.decode("utf8")))
                lit = b""
            except UnicodeDecodeError as e:
                if e.reason != "unexpected end of data":
                    return None
            continue
        if not subset(f.rng(x), ((0, 127),)):
            raise Unsupported("string from bytes")
        if lit:
            return None
        parts.append(("c", x))
    return None if lit else strv(parts)


def whole(E, st, s):
    """are these all the bytes of a string"""
    x = s[1]
    if x[0] != "int" or len(x[1].t) != 1 or x[1].c or x[1].t[0][1] != 1:
        return False
    t = TERMS[x[1].t[0][0]]
    if t[0] != "byte" or t[2] != Lin(0, ((s[2], 1),)):
        return False
    return st.facts.ask(c_eq(s[3], ZERO)) is True and st.facts.ask(c_eq(s[4], V(("len", t[1]), NONNEG))) is True


@m("std::string::String::from_utf8")
def from_utf8(E, st, fr, f, args, dty, line):
    s = bytes_str(E, st, want(args[0], "seq"))
    if s is None:
        return one(st, E.enum(dty, "Err", (("opq", ("utf8 error",), 0),)))
    return one(st, E.enum(dty, "Ok", (s,)))


@m("core::str::<impl str>::as_bytes", "std::string::String::into_bytes", "std::string::String::as_bytes")
def as_bytes(E, st, fr, f, args, dty, line):
    s = arg(E, st, args[0], "str")
    b = str_bytes(E, st, s)
    return one(st, b if "into" in f["path"] else ("ref", b))


# ---- characters ----------------------------------------------------------------
WS = norm([(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
           (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])
DIGIT = ((48, 57),)
UPPER = ((65, 90),)
LOWER = ((97, 122),)
CLASSES = {
    "is_whitespace": WS,
    "is_ascii": ((0, 127),),
    "is_ascii_digit": DIGIT,
    "is_ascii_uppercase": UPPER,
    "is_ascii_lowercase": LOWER,
    "is_ascii_alphabetic": norm(UPPER + LOWER),
    "is_ascii_alphanumeric": norm(DIGIT + UPPER + LOWER),
    "is_ascii_hexdigit": norm(DIGIT + ((65, 70), (97, 102))),
    "is_ascii_whitespace": iset(9, 10, 12, 13, 32),
    "is_ascii_punctuation": norm([(33, 47), (58, 64), (91, 96), (123, 126)]),
    "is_ascii_control": norm([(0, 31), (127, 127)]),
    "is_ascii_graphic": ((33, 126),),
    "is_control": norm([(0, 31), (127, 159)]),
}


@rx(r"^(std::char::methods|core::char::methods)::<impl char>::(%s)$" % "|".join(CLASSES), r"^core::num::<impl u8>::(%s)$" % "|".join(CLASSES))
def char_class(E, st, fr, f, args, dty, line):
    v = args[0]
    while v[0] in ("ref", "ptr"):
        v = E.deref(st, v)
    want(v, "int")
    return one(st, ("bool", c_in(v[1], CLASSES[f["path"].split("::")[-1]])))


@rx(r"^(std::char::methods|core::char::methods)::<impl char>::len_utf8$")
def len_utf8(E, st, fr, f, args, dty, line):
    return one(st, ("int", utf8_len(st.facts.norm(args[0][1]))))


@rx(r"^std::char::from_u32$", r"^std::char::convert::<impl std::convert::TryFrom<u32> for char>::try_from$",
    r"^(std::char::methods|core::char::methods)::<impl char>::from_u32$", r"^core::char::convert::from_u32$")
def char_from_u32(E, st, fr, f, args, dty, line):
    l = st.facts.norm(args[0][1])
    out = []
    x = E.ty(dty)
    for t, s in E.branch(st, c_in(l, CHAR)):
        if x["path"] == "std::option::Option":
            out.append((s, E.some(dty, ("int", l)) if t else E.none(dty)))
        else:
            out.append((s, ("adt", dty, 0, (("int", l),)) if t else ("adt", dty, 1, (ZST,))))
    return out


@rx(r"^(std::char::methods|core::char::methods)::<impl char>::encode_utf8$")
def encode_utf8(E, st, fr, f, args, dty, line):
    l = st.facts.norm(args[0][1])
    buf = arg(E, st, args[1], "seq")
    out = []
    n = E.seq_len(buf)
    for s in E.oblige(st, c_le(utf8_len(l), n), "panic", E.where(fr, line), "encode_utf8 into a short buffer"):
        out.append((s, ("ref", strv([("c", l)]))))
    return out


@rx(r"^core::num::<impl u32>::wrapping_add$", r"^core::num::<impl usize>::wrapping_add$", r"^core::num::<impl u8>::wrapping_(add|sub)$", r"^core::num::<impl u32>::wrapping_(sub|mul|shl)$")
def wrapping_add(E, st, fr, f, args, dty, line):
    op = f["path"].rsplit("_", 1)[1]
    r = E.binop(st, fr, {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl"}[op], args[0], args[1], dty, line, False)
    return r


@rx(r"^core::num::<impl (u32|usize|u8)>::checked_(add|sub|mul)$")
def checked(E, st, fr, f, args, dty, line):
    op = f["path"].rsplit("_", 1)[1]
    a, b = args[0][1], args[1][1]
    x = E.ty(dty)
    ity = x["args"][0]
    base = E.int_base(ity)
    if op == "add":
        r = add(a, b)
    elif op == "sub":
        r = sub(a, b)
    else:
        b = st.facts.norm(b)
        a = st.facts.norm(a)
        if b.t and a.t:
            raise Unsupported("product of two unknowns")
        r = mulk(a, b.c) if not b.t else mulk(b, a.c)
    out = []
    for t, s in E.branch(st, c_in(r, base)):
        out.append((s, E.some(dty, ("int", r)) if t else E.none(dty)))
    return out


@rx(r"^core::num::<impl (u32|usize|u8)>::saturating_sub$")
def saturating_sub(E, st, fr, f, args, dty, line):
    d = sub(args[0][1], args[1][1])
    return [(s, ("int", d if t else ZERO)) for t, s in E.branch(st, c_le(ZERO, d))]


@rx(r"^std::cmp::(min|max)$", r"^std::cmp::Ord::(min|max)$", r"Ord for usize>::(min|max)$")
def minmax(E, st, fr, f, args, dty, line):
    a, b = want(args[0], "int"), want(args[1], "int")
    mn = f["path"].endswith("min")
    return [(s, a if t == mn else b) for t, s in E.branch(st, c_le(a[1], b[1]))]


# ---- maps ----------------------------------------------------------------------
@rx(r"^std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)::<.*>::(new|with_capacity)$",
    r"^<std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)<.*> as std::default::Default>::default$")
def map_new(E, st, fr, f, args, dty, line):
    if E.watch and "Set" in E.ty(dty)["path"] and E.ty(dty)["args"][0] == E.watch.kty:
        return one(st, ("wset", ("bool", False)))
    return one(st, ("map", None, ()))


def key_term(k):
    return k


def map_find(E, st, mp, key):
    """[(state, value or None, index)] - index of the entry, 'base' or None"""
    out = []
    rest = [st]
    key = strip(E, st, key)
    for i, (k, v) in enumerate(mp[2]):
        nxt = []
        for s in rest:
            c = val_eq(E, s, k, key)
            if c is None:
                raise Unsupported("map key")
            for t, x in E.branch(s, c):
                if t:
                    out.append((x, v, i))
                else:
                    nxt.append(x)
        rest = nxt
    if mp[1] is None:
        return out + [(s, None, None) for s in rest]
    if E.watch and ("nop",) in _parts(mp[1]):
        nxt = []
        for s in rest:
            c = val_eq(E, s, key, E.watch.value)
            if c is None:
                raise Unsupported("map key")
            for t, x in E.branch(s, c):
                if t:
                    out.append((x, None, None))
                else:
                    nxt.append(x)
        rest = nxt
    for s in rest:
        kt = norm_key(s, key)
        for t, x in E.branch(s, ("p", ("has", mp[1], kt))):
            out.append((x, ("base", mp[1], kt) if t else None, "base" if t else None))
    return out


def _parts(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from _parts(x)


def norm_key(st, v):
    """a term that identifies a key"""
    f = st.facts
    if v[0] == "int":
        return ("k", f.norm(v[1]))
    if v[0] == "str":
        return f.norm_str(v)
    if v[0] == "adt":
        return ("k",) + (v[2],) + tuple(norm_key(st, x) for x in v[3])
    if v[0] == "tup":
        return ("k",) + tuple(norm_key(st, x) for x in v[1])
    if v[0] == "bool":
        return ("k", v[1])
    if v[0] == "seq":
        return ("k", "seq") + tuple(
            norm_key(st, s[1]) if s[0] == "i" else ("fam", s[1], f.norm(s[3]), f.norm(s[4])) for s in v[1] if s[0] in ("i", "fam"))
    raise Unsupported("key %s" % v[0])


def map_value(E, st, v, ty):
    if v[0] == "base":
        return E.mk_sym(("at", v[1], v[2]), ty)
    return v


def is_set(f):
    return "Set" in f["path"].split("::<")[0]


@rx(r"^std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)::<.*>::insert$")
def map_insert(E, st, fr, f, args, dty, line):
    if E.watch and E.deref(st, args[0])[0] == "wset":
        import lists
        out = []
        for h, s, it in lists.set_has(E, st, fr, E.deref(st, args[0]), args[1]):
            if it:
                E.store(s, args[0], ("wset", ("bool", True)))
            out.append((s, ("bool", not h)))
        return out
    mp = arg(E, st, args[0], "map")
    key = args[1]
    st_ = is_set(f)
    val = UNIT if st_ else args[2]
    out = []
    for s, v, i in map_find(E, st, mp, key):
        ents = mp[2]
        if isinstance(i, int):
            if not st_:
                ents = ents[:i] + ((ents[i][0], val),) + ents[i + 1:]
        elif i == "base" and st_:
            pass
        else:
            ents = ents + ((key, val),)
        E.store(s, args[0], ("map", mp[1], ents))
        if st_:
            out.append((s, ("bool", v is None)))
        elif v is None:
            out.append((s, E.none(dty)))
        else:
            out.append((s, E.some(dty, map_value(E, s, v, E.ty(dty)["args"][0]))))
    return out


@rx(r"^std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)::<.*>::(get|contains_key|contains)$")
def map_get(E, st, fr, f, args, dty, line):
    if E.watch and f["path"].endswith("::contains") and strip(E, st, args[0])[0] == "wset":
        import lists
        return [(s, ("bool", h)) for h, s, _ in lists.set_has(E, st, fr, strip(E, st, args[0]), args[1])]
    mp = arg(E, st, args[0], "map")
    out = []
    get = f["path"].endswith("::get")
    for s, v, i in map_find(E, st, mp, args[1]):
        if not get:
            out.append((s, ("bool", v is not None)))
        elif v is None:
            out.append((s, E.none(dty)))
        else:
            rt = E.ty(E.ty(dty)["args"][0])["e"]
            out.append((s, E.some(dty, ("ref", map_value(E, s, v, rt)))))
    return out


@rx(r"^std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)::<.*>::len$")
def map_len(E, st, fr, f, args, dty, line):
    mp = arg(E, st, args[0], "map")
    if mp[1] is not None:
        raise Unsupported("length of an unknown map")
    return one(st, ("int", K(len(mp[2]))))


@rx(r"^std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)::<.*>::is_empty$")
def map_is_empty(E, st, fr, f, args, dty, line):
    mp = arg(E, st, args[0], "map")
    if mp[2]:
        return one(st, ("bool", False))
    if mp[1] is not None:
        raise Unsupported("emptiness of an unknown map")
    return one(st, ("bool", True))


@rx(r"^std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)::<.*>::clear$")
def map_clear(E, st, fr, f, args, dty, line):
    E.store(st, args[0], ("map", None, ()))
    return one(st, UNIT)


@rx(r"^std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)::<.*>::remove$")
def map_remove(E, st, fr, f, args, dty, line):
    mp = arg(E, st, args[0], "map")
    if mp[1] is not None:
        raise Unsupported("removal from an unknown map")
    out = []
    for s, v, i in map_find(E, st, mp, args[1]):
        if v is not None:
            E.store(s, args[0], ("map", None, mp[2][:i] + mp[2][i + 1:]))
        if is_set(f):
            out.append((s, ("bool", v is not None)))
        else:
            out.append((s, E.none(dty) if v is None else E.some(dty, v)))
    return out


@rx(r"^std::collections::(HashMap|BTreeMap)::<.*>::(iter|keys|values)$", r"^std::collections::(HashSet|BTreeSet)::<.*>::iter$",
    r"^<&'a std::collections::(HashMap|HashSet)<.*> as std::iter::IntoIterator>::into_iter$")
def map_iter(E, st, fr, f, args, dty, line):
    mp = arg(E, st, args[0], "map")
    how = "k" if is_set(f) or f["path"].endswith("keys") or "HashSet" in f["path"] else "v" if f["path"].endswith("values") else "kv"
    if E.watch and mp[1] is not None:
        import lists
        return one(st, lists.iter_of(E, mp, how))
    if mp[1] is not None:
        return one(st, ("it", "mapit", mp[1], mp[2], how, V(("iterpos", mp[1]), NONNEG)))
    return one(st, ("it", "pairs", mp[2], how))


# ---- functions and closures ------------------------------------------------------
@m("<std::boxed::Box<F, A> as std::ops::Fn<Args>>::call", "<std::boxed::Box<F, A> as std::ops::FnMut<Args>>::call_mut")
def box_call(E, st, fr, f, args, dty, line):
    b = E.deref(st, args[0])
    inner = want(b, "box")[1]
    while inner[0] == "box":
        inner = inner[1]
    return call_value(E, st, fr, inner, args[1][1], dty, line)


def call_value(E, st, fr, fv, args, dty, line):
    """call a closure or function value with untupled arguments"""
    while fv[0] in ("ref", "ptr", "box"):
        fv = E.deref(st, fv)
    if fv[0] == "dyn":
        return call_value(E, st, fr, fv[2], args, dty, line)
    if fv[0] == "fn":
        return E.call(st, fr, fv[1], list(args), dty, line)
    if fv[0] == "clo":
        fid = E.closure_body(fv)
        if fid is None:
            raise Unsupported("closure body")
        return E.enter(st, fr, E.p.fns[fid], [("ref", fv)] + list(args))
    raise Unsupported("call of %s" % fv[0])


# ---- formatting ------------------------------------------------------------------
@rx(r"^core::fmt::rt::Argument::<'_>::new_(display|debug)$")
def fmt_arg(E, st, fr, f, args, dty, line):
    return one(st, ("fmtarg", f["path"].rsplit("_", 1)[1], args[0], f["id"]))


@rx(r"^std::fmt::Arguments::<'a>::new$")
def fmt_args(E, st, fr, f, args, dty, line):
    tpl = arg(E, st, args[0], "seq")
    av = arg(E, st, args[1], "seq")
    bs = bytes(s[1][1].c for s in tpl[1])
    return one(st, ("fmtargs", parse_template(bs), tuple(s[1] for s in av[1])))


@rx(r"^std::fmt::Arguments::<'a>::(from_str|new_const|from_str_nonconst)$")
def fmt_from_str(E, st, fr, f, args, dty, line):
    return one(st, ("fmtargs", (("lit", arg(E, st, args[0], "str")),), ()))


def parse_template(bs):
    """pieces of core::fmt's template encoding"""
    out = []
    i = 0
    argn = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("lit", lit(bs[i:i + n].decode())))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("lit", lit(bs[i:i + ln].decode())))
            i += ln
        else:
            plain = True
            if n & 1:
                i += 4
                plain = False
            if n & 2:
                i += 2
                plain = False
            if n & 4:
                i += 2
                plain = False
            if n & 8:
                argn = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(("arg", argn, plain))
            argn += 1
    return tuple(out)


def render(E, st, fa):
    """string denoted by format arguments, as far as they are strings"""
    parts = []
    for p in fa[1]:
        if p[0] == "lit":
            parts.extend(p[1][1])
        else:
            a = fa[2][p[1]]
            v = a[2]
            while v[0] in ("ref", "ptr", "box"):
                v = E.deref(st, v)
            if a[1] == "display" and v[0] == "str" and p[2]:
                parts.extend(v[1])
            elif a[1] == "display" and v[0] == "int" and p[2] and "char" in E.p.fns[a[3]]["name"]:
                parts.append(("c", v[1]))
            else:
                parts.append(("t", ("fmt", a[1], p[2], norm_fmt(st, v))))
    return strv(parts)


def norm_fmt(st, v):
    return v


@m("std::fmt::format")
def fmt_format(E, st, fr, f, args, dty, line):
    return one(st, render(E, st, want(args[0], "fmtargs")))


@m("std::fmt::Write::write_fmt", "<std::string::String as std::fmt::Write>::write_fmt")
def write_fmt(E, st, fr, f, args, dty, line):
    v = E.deref(st, args[0])
    want(v, "str")
    s = render(E, st, want(args[1], "fmtargs"))
    E.store(st, args[0], strv(v[1] + s[1]))
    return one(st, ("adt", dty, 0, (UNIT,)))


@m("<std::string::String as std::fmt::Write>::write_str")
def string_write_str(E, st, fr, f, args, dty, line):
    v = arg(E, st, args[0], "str")
    E.store(st, args[0], strv(v[1] + arg(E, st, args[1], "str")[1]))
    return one(st, ("adt", dty, 0, (UNIT,)))


# ---- intrinsics --------------------------------------------------------------------
def i_unreachable(E, st, fr, f, args, dty, line):
    return []


def i_unit(E, st, fr, f, args, dty, line):
    return one(st, UNIT)


def i_arg0(E, st, fr, f, args, dty, line):
    return one(st, args[0])


def i_likely(E, st, fr, f, args, dty, line):
    return one(st, args[0])


def i_discr(E, st, fr, f, args, dty, line):
    v = E.deref(st, args[0])
    d = E.discr(st, v)
    if d is None:
        raise Unsupported("discriminant")
    return one(st, ("int", d))


def i_read(E, st, fr, f, args, dty, line):
    return one(st, E.deref(st, args[0]))


def i_write(E, st, fr, f, args, dty, line):
    E.store(st, args[0], args[1])
    return one(st, UNIT)


INTRINSIC = {
    "unreachable": i_unreachable,
    "assume": i_unit,
    "likely": i_likely,
    "unlikely": i_likely,
    "black_box": i_arg0,
    "transmute": i_arg0,
    "discriminant_value": i_discr,
    "read_via_copy": i_read,
    "write_via_move": i_write,
    "assert_inhabited": i_unit,
    "cold_path": i_unit,
}
