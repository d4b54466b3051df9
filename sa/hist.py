"""Histories of the reader: arbitrary tokens, the namespace stack by its
contract, and the loops that live as long as the history."""
from engine import *
import models
from models import m, one, strip, token_fields, TOKENKINDS
import loops

G_DEPTH = ("g", "depth")      # scopes added by the reader
G_EXPECT = ("g", "expect")    # elements open
G_NSERR = ("g", "nserr")      # a name did not resolve
G_TOKERR = ("g", "tokerr")    # last error token
G_LIVE = ("g", "live")        # no error has been returned
G_NONE = ("g", "none")
G_LINES = ("g", "lines")      # lines of the last comment token
KEYS = {v: k for k, v in TOKENKINDS.items()}
NS = "hml_rs::names::NamespaceStack::<'ns>::"


def type_of(E, path):
    c = E.__dict__.setdefault("_types", {})
    if path not in c:
        c[path] = next((i for i, t in enumerate(E.p.types) if t.get("path") == path), None)
        if c[path] is None:
            raise Unsupported("no type " + path)
    return c[path]


def setup(E, st):
    """ghost state and contracts"""
    for k in (G_DEPTH, G_EXPECT):
        st.mem[k] = ("int", ZERO)
    st.mem[G_NSERR] = ("bool", False)
    st.mem[G_LIVE] = ("bool", True)
    et = next(i for i, t in enumerate(E.p.types) if t.get("path") == "hml_rs::HmlError")
    st.mem[G_TOKERR] = ("sym", ("no error",), et)
    st.mem[G_LINES] = ("seq", ())
    if E.only == "C23":
        st.mem[G_NONE] = ("bool", False)
    E.stubs.update({NS + k: v for k, v in STUBS.items()})
    live = reaching(E, "probe::v::token")

    def is_global(E, fr, head):
        inside = fr.body.loops[head]
        for b in inside:
            t = fr.body.blocks[b][2]
            if t[0] == "call" and t[1].get("inst") in live:
                return True
        return False

    memo = {}

    def glob(fr, head):
        k = (fr.fn["id"], head)
        if k not in memo:
            memo[k] = is_global(E, fr, head)
        return memo[k]
    E.is_global = glob
    E.live_history = lambda E, fr, b: glob(fr, b)
    E.gtab = None
    E.gfailed = None


def comment_setup(E, st):
    """comment tokens only, their lines kept apart"""
    setup(E, st)
    E.is_global = E.live_history = None
    E.token_kinds = ("Comment",)
    E.comment_lines = 4


def reaching(E, path):
    """functions from which path is called"""
    rev = {}
    for f in E.p.fns:
        b = f.get("body")
        if not b:
            continue
        for blk in b["blocks"]:
            t = blk[2]
            if t[0] == "call" and "inst" in t[1]:
                rev.setdefault(t[1]["inst"], set()).add(f["id"])
    work = [f["id"] for f in E.p.fns if f["path"] == path]
    seen = set(work)
    while work:
        i = work.pop()
        for j in rev.get(i, ()):
            if j not in seen:
                seen.add(j)
                work.append(j)
    return seen


def run_global(E, f, st, args):
    """all histories: classes of states at the heads of the long loops until
    nothing new arrives, then once more recording the obligations"""
    E.recording = False
    tries = 0
    E.gphase = 1
    rounds = 0
    while True:
        try:
            E.gfirst = True
            n = changes(E)
            E.gchanged = 0
            E.enter(st.fork(), None, f, args)
            rounds += 1
            if E.gfailed:
                raise Unsupported(E.gfailed)
            if E.gchanged == 0:
                break
            if rounds > 60:
                raise Unsupported("histories do not settle")
        except loops.Restart:
            tries += 1
            if tries > 40:
                raise Unsupported("history sequences do not settle")
            E.gtab.reset()
            E.gtab.lastfacts = {}
    for c in E.gtab.classes.values():
        c.visited = False
    E.recording = True
    E.gphase = 2
    E.gfirst = True
    E.gunstable = 0
    E.enter(st.fork(), None, f, args)
    E.ground = rounds


def changes(E):
    return 0 if E.gtab is None else len(E.gtab.classes)


# ---- tokens ------------------------------------------------------------------
def build_token(E, st, fr, ty, kind):
    """[(state, token)] of one kind"""
    x = E.ty(ty)
    fs = x["v"][0]["f"]
    a = V(E.fresh(st, fr, "ts"), NONNEG)
    b = V(E.fresh(st, fr, "te"), NONNEG)
    depth = ZERO
    boxed = ("bool", False)
    f = st.facts.assume(c_le(a, b))[0]
    strs = ()
    names = {"Open": ("tp", "tn"), "Close": ("tp", "tn"), "Attr": ("tp", "tn", "tv"), "Chars": ("tv",), "Raw": ("tv",)}
    if kind in names:
        strs = []
        for n in names[kind]:
            s = ("str", (("t", E.fresh(st, fr, n)),))
            strs.append(("i", s))
            if n == "tn":
                f = f.assume(c_not(c_streq(s, EMPTYSTR)))[0]
        strs = tuple(strs)
    if kind in ("Open", "Close"):
        depth = V(E.fresh(st, fr, "td"), ((1, INF),))
        if kind == "Open":
            boxed = ("bool", ("p", E.fresh(st, fr, "tb")))
    states = [(st.fork(f), ("seq", strs))]
    if kind == "Comment":
        states = comment_lines(E, st.fork(f), fr)
    out = []
    for s, seq in states:
        fields = []
        for name, t in fs:
            y = E.ty(t)
            if y["k"] == "int":
                fields.append(("int", depth))
            elif y["k"] == "bool":
                fields.append(boxed)
            elif y["k"] == "adt" and y["path"] in ("std::collections::VecDeque", "std::vec::Vec"):
                fields.append(seq)
            elif y["k"] == "adt" and "StreamCharSpan" in y["path"]:
                fields.append(span_of(E, t, a, b))
            elif y["k"] == "adt" and y["kind"] == "enum":
                names_ = [v["n"] for v in y["v"]]
                if set(names_) != set(KEYS.values()):
                    raise Unsupported("kinds of token")
                fields.append(("adt", t, names_.index(KEYS[kind]), ()))
            else:
                raise Unsupported("token field " + name)
        if kind == "Comment" and hasattr(E, "comment_lines"):
            s.mem[G_LINES] = seq
        out.append((s, ("adt", ty, 0, tuple(fields))))
    return out


def span_of(E, t, a, b):
    fs = E.ty(t)["v"][0]["f"]
    return ("adt", t, 0, tuple(("adt", ft, 0, (("int", p),)) for (_, ft), p in zip(fs, (a, b))))


def comment_lines(E, st, fr):
    """the lines of a comment token"""
    if E.mode == "B" or hasattr(E, "comment_lines"):
        out = []
        for n in range(0, getattr(E, "comment_lines", 1) + 1):
            s = st.fork()
            out.append((s, ("seq", tuple(("i", ("str", (("t", E.fresh(s, fr, "tl")),))) for _ in range(n)))))
        return out
    n = V(E.fresh(st, fr, "tl"), NONNEG)
    bv = V(("bv", 0))
    t = E.fresh(st, fr, "ts")
    tm = ("str", (("t", ("el", t, bv)),))
    return [(st, ("seq", (("fam", tm, bv.t[0][0], ZERO, n),)))]


@m("probe::v::token")
def v_token(E, st, fr, f, args, dty, line):
    again = st.mem.get(G_NONE, ("bool", False))[1]
    if G_NONE in st.mem and E.mode == "A":
        E.oblige(st.fork(), None if again else True, loops.PROGRESS, E.caller_site(st, ""))
    if E.mode == "B":
        used = st.its.get("tokens", 0) + (0 if again is True else 1)
        if used > E.unroll:
            E.truncated += 1
            return []
        st.its = dict(st.its)
        st.its["tokens"] = used
        states = [st]
    elif E.gtab is None:
        states = [st]
    else:
        states = loops.cut(E, st, addk(E.gtab.iota, 1), "token")
    out = []
    for st in states:
        out.extend(tokens(E, st, fr, dty, line))
    return out


def tokens(E, st, fr, dty, line):
    rt = E.ty(dty)["args"][0]
    tt, et = E.ty(rt)["args"][:2]
    out = []
    kinds = getattr(E, "token_kinds", None) or (None, "Error", "Open", "Close", "Attr", "Chars", "Raw", "Comment", "White", "End")
    if callable(kinds):
        kinds = kinds(st.its.get("tokens", 0))
    for k in kinds:
        s = st.fork()
        if k is None:
            E.note(s, fr, line, "-> no more tokens")
            if G_NONE in s.mem:
                s.mem[G_NONE] = ("bool", True)
            out.append((s, E.none(dty)))
        elif k == "Error":
            e = ("sym", E.fresh(s, fr, "terr"), et)
            s.mem[G_TOKERR] = e
            E.note(s, fr, line, "-> error token")
            out.append((s, E.some(dty, E.enum(rt, "Err", (e,)))))
        else:
            for x, t in build_token(E, s, fr, tt, k):
                E.note(x, fr, line, "-> token %s" % k)
                out.append((x, E.some(dty, E.enum(rt, "Ok", (t,)))))
    return out


@m("probe::v::is_token_error")
def v_is_token_error(E, st, fr, f, args, dty, line):
    v = strip(E, st, args[0])
    if v[0] != "adt":
        return one(st, ("bool", None))
    if E.ty(v[1])["v"][v[2]]["n"] != "Err":
        return one(st, ("bool", False))
    e = v[3][0]
    g = st.mem[G_TOKERR]
    if e[0] == "sym" and g[0] == "sym" and e[1] == g[1]:
        return one(st, ("bool", True))
    if e[0] in ("adt", "sym"):
        return one(st, ("bool", False))
    return one(st, ("bool", None))


def explicit_lines(st):
    v = st.mem[G_LINES]
    if any(sg[0] != "i" for sg in v[1]):
        return None
    return [sg[1] for sg in v[1]]


@m("probe::v::comment_text")
def v_comment_text(E, st, fr, f, args, dty, line):
    ls = explicit_lines(st)
    v = strip(E, st, args[0])
    if ls is None or v[0] != "str":
        return one(st, ("bool", None))
    parts = ()
    for n, x in enumerate(ls):
        parts += ((("l", "\n"),) if n else ()) + x[1]
    return one(st, ("bool", c_streq(st.facts.norm_str(v), st.facts.norm_str(strv(parts)))))


@m("probe::v::comment_lengths")
def v_comment_lengths(E, st, fr, f, args, dty, line):
    ls = explicit_lines(st)
    v = strip(E, st, args[0])
    if ls is None or v[0] != "seq" or any(sg[0] != "i" for sg in v[1]):
        return one(st, ("bool", None))
    if len(v[1]) != len(ls):
        return one(st, ("bool", False))
    return one(st, ("bool", c_and(*[c_eq(sg[1][1], str_len(x)) for sg, x in zip(v[1], ls)])))


# ---- identifiers -------------------------------------------------------------
def ident(E, kind, s):
    path = {"pid": "hml_rs::names::NSPrefixId", "nid": "hml_rs::names::NSNameId"}[kind]
    t = type_of(E, path)
    return E.mk_sym((kind, s), t)


def id_lin(v):
    while v[0] == "adt" and len(v[3]) == 1:
        v = v[3][0]
    if v[0] == "int":
        return v[1]
    raise Unsupported("identifier %s" % v[0])


@m("probe::v::pid", "probe::v::nid")
def v_pid(E, st, fr, f, args, dty, line):
    s = st.facts.norm_str(strip(E, st, args[0]))
    return one(st, ("int", id_lin(ident(E, f["path"][-3:], s))))


@m("probe::v::id_of")
def v_id_of(E, st, fr, f, args, dty, line):
    return one(st, ("int", id_lin(strip(E, st, args[0]))))


@m("probe::v::ns_depth")
def v_ns_depth(E, st, fr, f, args, dty, line):
    return one(st, st.mem[G_DEPTH])


@m("probe::v::expect_depth")
def v_expect_depth(E, st, fr, f, args, dty, line):
    st.mem[G_EXPECT] = args[0]
    return one(st, UNIT)


@m("probe::v::ns_err")
def v_ns_err(E, st, fr, f, args, dty, line):
    return one(st, st.mem[G_NSERR])


@m("probe::v::ns_err_clear")
def v_ns_err_clear(E, st, fr, f, args, dty, line):
    st.mem[G_NSERR] = ("bool", False)
    if G_NONE in st.mem:
        st.mem[G_NONE] = ("bool", False)
    return one(st, UNIT)


@m("probe::v::failed")
def v_failed(E, st, fr, f, args, dty, line):
    st.mem[G_LIVE] = ("bool", False)
    st.mem[G_EXPECT] = ("int", ZERO)
    return one(st, UNIT)


@m("probe::v::xmlns")
def v_xmlns(E, st, fr, f, args, dty, line):
    return one(st, ("bool", ("p", ("xmlns",))))


# ---- namespace stack by its contract -------------------------------------------
def wanted(E, prop):
    return E.only is None or E.only == prop


def push_frame(E, st, fr, f, args, dty, line):
    st.mem[G_DEPTH] = ("int", addk(st.mem[G_DEPTH][1], 1))
    return one(st, UNIT)


def pop_frame(E, st, fr, f, args, dty, line):
    d = st.mem[G_DEPTH][1]
    ss = [st]
    if wanted(E, "C02"):
        ss = E.oblige(st, c_le(ONE, d), "C02:scope removed that the reader did not add", E.where(fr, line))
    for s in ss:
        s.mem[G_DEPTH] = ("int", addk(d, -1))
    return [(s, UNIT) for s in ss]


def uses_xmlns(E, st, fr, f, args, dty, line):
    return one(st, ("bool", ("p", ("xmlns",))))


def in_scope(E, st, fr, line, what):
    if not wanted(E, "C02") or st.mem[G_LIVE] != ("bool", True):
        return [st]
    c = None
    if st.mem[G_DEPTH][0] == "int" and st.mem[G_EXPECT][0] == "int":
        c = c_eq(st.mem[G_DEPTH][1], st.mem[G_EXPECT][1])
    return E.oblige(st, c, "C02:" + what, E.where(fr, line))


def find_prefix_id(E, st, fr, f, args, dty, line):
    s = st.facts.norm_str(strip(E, st, args[1]))
    a, b = st.fork(), st.fork()
    b.mem[G_NSERR] = ("bool", True)
    E.note(b, fr, line, "-> prefix not known")
    return [(a, E.some(dty, ident(E, "pid", s))), (b, E.none(dty))]


def find_mapping(E, st, fr, f, args, dty, line):
    out = []
    for s in in_scope(E, st, fr, line, "name resolved in the scope of its element"):
        a, b = s.fork(), s.fork()
        b.mem[G_NSERR] = ("bool", True)
        E.note(b, fr, line, "-> prefix not mapped")
        u = E.mk_sym(E.fresh(a, fr, "uri"), E.ty(dty)["args"][0])
        out += [(a, E.some(dty, u)), (b, E.none(dty))]
    return out


def add_name(E, st, fr, f, args, dty, line):
    s = st.facts.norm_str(strip(E, st, args[1]))
    return one(st, ident(E, "nid", s))


def add_ns(E, st, fr, f, args, dty, line):
    return [(s, E.mk_sym(E.fresh(s, fr, "map"), dty)) for s in in_scope(E, st, fr, line, "namespace declared in the scope of its element")]


STUBS = {"push_frame": push_frame, "pop_frame": pop_frame, "uses_xmlns": uses_xmlns, "find_prefix_id": find_prefix_id,
         "find_mapping": find_mapping, "add_name": add_name, "add_ns": add_ns}


# ---- states up to names --------------------------------------------------------
def canonical(E, s):
    names = {}
    f = s.facts

    def go(x):
        if isinstance(x, Lin):
            x = f.norm(x)
            return ("L", x.c, tuple(sorted((go(TERMS[i]), k) for i, k in x.t)))
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "v" and isinstance(x[1], str):
                return ("#", names.setdefault(x, len(names)))
            if x and x[0] == "str" and len(x) == 2:
                x = f.norm_str(x)
            return tuple(go(y) for y in x)
        return repr(x)
    mem = tuple((repr(l), go(loops.norm_val(f, s.mem[l]))) for l in sorted(s.mem, key=repr))
    ks = set(names)

    def known(x):
        if isinstance(x, Lin):
            return all(known(TERMS[i]) for i, _ in x.t)
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "v" and isinstance(x[1], str):
                return x in ks
            return all(known(y) for y in x)
        return True
    fs = []
    for form, st_ in f.dom.items():
        l = Lin(0, form)
        if known(l):
            fs.append(repr((go(l), st_)))
    for t, v in f.preds.items():
        if known(t):
            fs.append(repr((go(t), v)))
    return hash((mem, tuple(sorted(fs)), s.cs, bool(s.taint)))


# ---- strings of identifiers, by the interning contract -------------------------
def id_str(kind):
    def stub(E, st, fr, f, args, dty, line):
        i = id_lin(strip(E, st, args[1]))
        return one(st, ("ref", ("str", (("t", (kind, i)),))))
    return stub


def names_setup(E, st):
    for k in ("name_str", "prefix_str", "uri_str"):
        E.stubs[NS + k] = id_str(k)
