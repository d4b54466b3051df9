"""The converter: what its main function does with its options, the events and
the writer, everything outside it by what it is documented to do."""
import math
import re
import struct

from engine import *
import models
from models import one, strip, want

PENDING = ("g", "pending")   # event not written yet
ENDED = ("g", "ended")       # EndDocument delivered
ERROR = ("g", "error")       # an error was returned
TOLD = ("g", "told")         # something written to standard error since
VERSION = ("g", "version")   # the version was set
LOST = ("g", "lost")         # the writer reported a failure
NOTHING = ("opq", ("no event",), 0)
FIRST_PARTY = ("hmlconvert",)
EFFECTS = re.compile(r"^(clap|clap_builder|xml|lexer_rs|hml_rs|lexer_rs|std::fs|std::io|std::process|std::env|std::path|std::ffi)::"
                     r"|^<(clap|xml|lexer_rs|hml_rs|std::fs|std::io|std::process|std::path|std::ffi)::| (as|for) (clap|std::io|xml)::")
OWN = re.compile(r"^<?hml_rs::(markup|names::Tag|names::Attribute)")
FLOATS = re.compile(r"<impl f(32|64)>::|^<&?f(32|64) as ")


def terms(v):
    """every tuple in a value"""
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Lin):
            todo += [TERMS[i] for i, _ in x.t]
        elif isinstance(x, tuple):
            yield x
            todo += x


def has(v, what):
    return any(x[:len(what)] == what for x in terms(v) if x)


def deep(E, st, v, n=0):
    """the value with what it points to"""
    if n > 8 or not isinstance(v, tuple) or not v:
        return v
    if v[0] == "ptr":
        try:
            return ("ref", deep(E, st, E.deref(st, v), n + 1))
        except Unsupported:
            return v
    return tuple(deep(E, st, x, n + 1) if isinstance(x, tuple) else x for x in v)


def result(E, st, dty, ok, err=None, fail=None):
    """both outcomes"""
    x = st.fork()
    if fail is not None:
        x.mem[fail] = ("bool", True)
    return [(st, E.enum(dty, "Ok", (ok,))), (x, E.enum(dty, "Err", (err or ("opq", ("failure",), 0),)))]


def by_long(E, name):
    return next((i for i, l in E.longs.items() if l == name), name)


def literal(v):
    while v[0] == "ref":
        v = v[1]
    if v[0] == "str" and len(v[1]) == 1 and v[1][0][0] == "l":
        return v[1][0][1]
    if v[0] == "opq" and v[1][0] == "call" and len(v[1]) > 2:
        return literal(v[1][2])
    return None


def opaque(E, st, fr, f, args, dty, line):
    t = E.ty(dty)
    v = tuple(deep(E, st, a) for a in args)
    if t["k"] == "tuple" and not t["f"]:
        return one(st, UNIT)
    if t["k"] == "never":
        return []
    for a in args:
        if a[0] == "ptr":
            E.store(st, a, ("opq", ("changed", f["path"], E.fresh(st, fr, "changed")), 0))
    term = ("call", f["path"]) + v
    if t["k"] == "adt" and t["path"] in ("std::result::Result", "std::option::Option", "core::result::Result"):
        ns = [x["n"] for x in t["v"]]
        out = []
        for n, x in zip(ns, t["v"]):
            fs = t["args"] if n in ("Ok", "Some") else t["args"][1:] if n == "Err" else []
            out.append((st.fork(), E.enum(dty, n, tuple(thing(E, term + (n,), a) for a in fs[:1]))))
        return out
    if t["k"] in ("int", "char", "bool"):
        return one(st, E.any("result of " + f["path"], st))
    return one(st, thing(E, term, dty))


def thing(E, term, ty):
    t = E.ty(ty)
    if t["k"] == "ref":
        return ("ref", thing(E, term, t["e"]))
    if t["k"] == "tuple" and not t["f"]:
        return UNIT
    return ("opq", term, ty)


def arg_new(E, st, fr, f, args, dty, line):
    name = literal(strip(E, st, args[0]))
    if name not in E.ids:
        E.ids.append(name)
    return one(st, ("opq", ("option", name), dty))


def arg_long(E, st, fr, f, args, dty, line):
    for x in terms(args[0]):
        if x[:1] == ("option",):
            E.longs[x[1]] = literal(strip(E, st, args[1]))
    return one(st, args[0])


def arg_same(E, st, fr, f, args, dty, line):
    return one(st, args[0])


def get_one(E, st, fr, f, args, dty, line):
    name = literal(strip(E, st, args[1]))
    if name is None:
        raise Unsupported("option of unknown name")
    key = ("g", "option", name)
    inner = E.ty(E.ty(dty)["args"][0])
    out = []
    got = st.mem.get(key)
    for has_it in (False, True):
        if got is not None and got != ("bool", has_it):
            continue
        s = st.fork()
        s.mem[key] = ("bool", has_it)
        if has_it:
            e = inner["e"] if inner["k"] == "ref" else inner
            v = E.mk_sym(("given", name), e, s) if isinstance(e, int) else ("opq", ("given", name), 0)
            out.append((s, E.some(dty, ("ref", v) if inner["k"] == "ref" else v)))
        else:
            out.append((s, E.none(dty)))
    return out


def get_matches(E, st, fr, f, args, dty, line):
    return one(st, ("opq", ("matches",), dty))


def file_open(E, st, fr, f, args, dty, line):
    v = deep(E, st, args[0])
    return result(E, st, dty, ("opq", ("file", f["path"].split("::")[-1], v), 0))


def read_all(E, st, fr, f, args, dty, line):
    src = deep(E, st, args[0])
    for out in result(E, st, dty, ("int", V(("v", "read", None), NONNEG))):
        s, r = out
        E.store(s, args[1], ("str", (("t", ("read", src)),)))
        yield s, r


def reads(E, st, fr, f, args, dty, line):
    return list(read_all(E, st, fr, f, args, dty, line))


def read_whole(E, st, fr, f, args, dty, line):
    """std::fs::read_to_string, std::io::read_to_string"""
    v = deep(E, st, args[0])
    if "fs::" in f["path"]:
        v = ("file", "open", v)
    return result(E, st, dty, ("str", (("t", ("read", v)),)))


def chosen(E, st, name):
    got = st.mem.get(("g", "option", by_long(E, name)))
    return None if got is None else got[1]


def set_text(E, st, fr, f, args, dty, line):
    v = deep(E, st, args[-1])
    w = E.where(fr, line)
    pos = [i for i in E.ids if i not in E.longs]
    given = None
    if len(pos) == 1:
        got = st.mem.get(("g", "option", pos[0]))
        given = None if got is None else got[1]
    if given is None:
        ok = None
    elif given:
        ok = has(v, ("given", pos[0]))
    else:
        ok = has(v, ("call", "std::io::stdin"))
    if not has(v, ("read",)):
        ok = False if v[0] == "str" and all(p[0] == "l" for p in v[1]) else None
    out = []
    for s in E.oblige(st, ok, "C27:text of the requested document", w, "other text parsed"):
        out.append((s, ("opq", ("call", f["path"], v), dty)))
    return out


def number(v, x, single=True):
    """the value of a floating point expression over the option's value"""
    def go(v):
        while v[0] == "ref":
            v = v[1]
        if v[0] != "opq":
            raise ValueError
        t = v[1]
        if t[0] == "given":
            return r32(x)
        if t[0] == "float" and len(t) == 2:
            bits = int(re.search(r"\d+", t[1]).group())
            return struct.unpack("<f", struct.pack("<I", bits))[0] if bits < 1 << 32 else struct.unpack("<d", struct.pack("<Q", bits))[0]
        if t[0] == "float":
            op, args = t[1].lower(), t[2:]
        elif t[0] == "call":
            op, args = t[1].split("::")[-1], t[2:]
        else:
            raise ValueError
        a = [go(y) for y in args]
        return r32({"mul": lambda: a[0] * a[1], "add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1],
                    "div": lambda: a[0] / a[1], "floor": lambda: math.floor(a[0]), "ceil": lambda: math.ceil(a[0]),
                    "trunc": lambda: math.trunc(a[0]), "round": lambda: math.floor(a[0] + 0.5),
                    "clone": lambda: a[0], "from": lambda: a[0]}[op]())
    n = v.c
    for i, k in v.t:
        t = TERMS[i]
        if t[0] != "float":
            raise ValueError
        n += k * int(go(t[1]))
    return n


def r32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def set_version(E, st, fr, f, args, dty, line):
    x = st.facts.norm(args[1][1]) if args[1][0] == "int" else None
    given = chosen(E, st, "xml_version")
    if x is None:
        ok = None
    elif given is None:
        ok = None
    elif given:
        try:
            ok = number(x, 1.0) == 100 and number(x, 1.1) == 110
        except (ValueError, KeyError, IndexError, OverflowError, struct.error):
            ok = None
    else:
        ok = st.facts.ask(c_eq(x, K(100)))
    out = []
    for s in E.oblige(st, ok, "C27:version asked for", E.where(fr, line), "other version used"):
        s.mem[VERSION] = ("bool", True)
        out.append((s, ("opq", ("call", f["path"]), dty)))
    return out


def create_writer(E, st, fr, f, args, dty, line):
    v = deep(E, st, tuple(args))
    given = chosen(E, st, "output")
    if given is None:
        ok = False if "output" in E.longs.values() else None
    elif given:
        ok = has(v, ("file", "create")) and has(v, ("given", by_long(E, "output")))
    else:
        ok = has(v, ("call", "std::io::stdout"))
    if not any(has(v, x) for x in (("file",), ("call", "std::io::stdout"), ("call", "std::io::stderr"))):
        ok = None
    return [(s, ("opq", ("writer",), dty)) for s in
            E.oblige(st, ok, "C27:output asked for", E.where(fr, line), "written elsewhere")]


def next_event(E, st, fr, f, args, dty, line):
    w = E.where(fr, line)
    out = []
    given = chosen(E, st, "xml_version")
    if given is None and "xml_version" in E.longs.values():
        given = True
    good = []
    for s in E.oblige(st, st.mem[PENDING] == NOTHING, "C27:event not written", w, "next event asked for"):
        good += E.oblige(s, c_or(st.mem[VERSION][1], given is False), "C27:version asked for", w, "version not set")
    for s in good:
        rt = E.ty(dty)
        et = next(x["f"][0][1] for x in rt["v"] if x["n"] == "Ok")
        kinds = E.ty(et)["v"]
        for end in (False, True):
            x = s.fork()
            if end:
                i = next(i for i, k in enumerate(kinds) if k["n"] == "EndDocument")
                ev = ("adt", et, i, tuple(E.mk_sym(("end", n), g[1], x) for n, g in enumerate(kinds[i]["f"])))
                x.mem[ENDED] = ("bool", True)
                out.append((x, E.enum(dty, "Ok", (ev,))))
            else:
                t = E.fresh(x, fr, "event")
                ev = ("sym", t, et)
                d = E.discr(x, ev)
                x.mem[PENDING] = ev
                for y in E.assume(x, c_not(c_in(d, iset(*(k["d"] for k in kinds if k["n"] == "EndDocument"))))):
                    out.append((y, E.enum(dty, "Ok", (ev,))))
        x = s.fork()
        x.mem[ERROR] = ("bool", True)
        x.mem[TOLD] = ("bool", False)
        errt = next(y["f"][0][1] for y in rt["v"] if y["n"] == "Err")
        out.append((x, E.enum(dty, "Err", (("opq", ("parse error",), errt),))))
    return out


def as_writer(E, st, fr, f, args, dty, line):
    ev = strip(E, st, args[0])
    if ev[0] == "adt":
        return one(st, E.none(dty))
    return one(st, E.some(dty, ("opq", ("xml", ev), 0)))


def write_event(E, st, fr, f, args, dty, line):
    v = deep(E, st, args[1])
    p = st.mem[PENDING]
    ok = True if p != NOTHING and has(v, ("xml", p)) else False if has(v, ("xml",)) else None
    out = []
    for s in E.oblige(st, ok, "C27:event written", E.where(fr, line), "not the event delivered"):
        s.mem[PENDING] = NOTHING
        out += result(E, s, dty, UNIT, fail=LOST)
    return out


def told(E, st, fr, f, args, dty, line):
    st.mem[TOLD] = ("bool", True)
    t = E.ty(dty)
    if t["k"] == "tuple":
        return one(st, UNIT)
    return result(E, st, dty, UNIT)


def write_fmt(E, st, fr, f, args, dty, line):
    if "Stderr" in f["name"] or has(deep(E, st, args[0]), ("call", "std::io::stderr")):
        return told(E, st, fr, f, args, dty, line)
    return result(E, st, dty, UNIT)


def flag(st, k):
    v = st.mem[k][1]
    return v


def leave(E, st, w, code):
    """code: condition of a status other than 0"""
    err, ended, lost = st.mem[ERROR][1], st.mem[ENDED][1], st.mem[LOST][1]
    for s in E.oblige(st, c_or(c_not(err), code), "C27:status after a parse error", w, "0"):
        for s in E.oblige(s, c_or(c_not(err), s.mem[TOLD][1]), "C27:parse error reported", w, "nothing on standard error"):
            for s in E.oblige(s, c_or(c_not(lost), code), "C27:status after a write failed", w, "0"):
                ok = s.mem[PENDING] == NOTHING
                for s in E.oblige(s, c_or(err, c_or(code, c_and(ended, ok))), "C27:every event written", w, "left before the end"):
                    pass


def exit_(E, st, fr, f, args, dty, line):
    leave(E, st, E.where(fr, line), c_not(c_eq(args[0][1], ZERO)))
    return []


def exit_code(E, st, fr, f, args, dty, line):
    return one(st, ("adt", dty, 0, (args[0],)))


def after(E, out):
    """what main returns"""
    for st, v in out:
        code = False
        if v[0] == "adt" and E.ty(v[1])["path"].endswith("Result"):
            code = E.ty(v[1])["v"][v[2]]["n"] == "Err"
            if code:
                st.mem[TOLD] = ("bool", True)
        elif v[0] == "sym" and E.ty(v[2])["path"].endswith("Result"):
            d = next(x["d"] for x in E.ty(v[2])["v"] if x["n"] == "Err")
            code = c_in(E.discr(st, v), iset(d))
        elif v[0] not in ("tup", "zst"):
            n = next((x for x in terms(v) if x[:1] == ("int",)), None)
            if v[0] == "adt" and n:
                code = c_not(c_eq(n[1], ZERO))
            else:
                E.any("status returned", st)
                code = None
        if code is None:
            continue
        leave(E, st, "hmlconvert::main", code)


EXACT = {
    "clap::Arg::new": arg_new, "clap::Arg::long": arg_long, "clap::ArgMatches::get_one": get_one,
    "clap::Command::get_matches": get_matches, "clap::Command::get_matches_mut": get_matches,
    "std::fs::File::open": file_open, "std::fs::File::create": file_open,
    "std::fs::read_to_string": read_whole, "std::io::read_to_string": read_whole,
    "std::io::_eprint": told, "std::process::exit": exit_,
}
PATTERNS = [
    (r"^<std::process::ExitCode as std::convert::From<u8>>::from$", exit_code),
    (r"^clap::Arg::", arg_same), (r"::read_to_string$", reads), (r"^lexer_rs::LexerOf\w+.*::set_text$", set_text),
    (r"^hml_rs::hml_reader::Parser::<P>::set_version$", set_version),
    (r"^xml::EmitterConfig::create_writer$|^xml::EventWriter::<W>::new(_with_config)?$", create_writer),
    (r"^hml_rs::hml_reader::Parser::<P>::next_event$", next_event),
    (r"^hml_rs::markup::Event::<P>::as_xml_writer$", as_writer), (r"^xml::EventWriter::<W>::write$", write_event),
    (r"::write_(fmt|all)$", write_fmt),
]


def setup(E, st):
    st.mem[PENDING] = NOTHING
    for k in (ENDED, ERROR, TOLD, LOST, VERSION):
        st.mem[k] = ("bool", False)
    E.longs = {}
    E.ids = []
    for f in E.p.fns:
        p = f["path"]
        if f["crate"] in FIRST_PARTY:
            continue
        if p in EXACT:
            E.stubs[p] = EXACT[p]
            continue
        for pat, g in PATTERNS:
            if re.search(pat, p):
                E.stubs[p] = g
                break
        else:
            if EFFECTS.search(p) and not OWN.search(p) or FLOATS.search(p):
                E.stubs[p] = opaque
