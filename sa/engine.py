"""Abstract interpretation of MIR.

A state maps locals (frame, local) and heap cells to symbolic values and
carries facts (facts.py).  Branches are followed on both sides unless the
facts exclude one; states that meet again are merged when nothing is lost by
it.  Loops are handled by loops.py (invariants) or, when an alarm is being
confirmed, by following the first few iterations separately.

Values (tuples):
  ('int', Lin)                 integers and characters
  ('bool', cond)
  ('adt', type, variant, fields)
  ('tup', fields)
  ('sym', term, type)          enum value about which nothing is known yet
  ('ref', value)               shared reference, holding what it refers to
  ('ptr', cell, path)          mutable reference
  ('str', parts)               str and String
  ('seq', segments)            arrays, slices, Vec, VecDeque
  ('map', base, entries)       HashMap, HashSet
  ('box', value) ('dyn', vtable, value) ('fn', id) ('clo', type, captures)
  ('zst',)  ('it', ...)        iterators of the standard library
  ('any', why)                 nothing known, result of something not modelled
"""
import re
from lin import *
from facts import *

sys_limit = 20000


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "ghost", "taint", "cs", "iota", "trace", "cnt", "its")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.ghost = {}
        self.taint = ()
        self.cs = ()
        self.iota = None
        self.trace = None
        self.cnt = 0
        self.its = {}

    def fork(self, facts=None):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts if facts is None else facts
        s.ghost = self.ghost
        s.taint = self.taint
        s.cs = self.cs
        s.iota = self.iota
        s.trace = self.trace
        s.cnt = self.cnt
        s.its = self.its
        return s

    def gset(self, k, v):
        g = dict(self.ghost)
        g[k] = v
        self.ghost = g


UNIT = ("tup", ())
ZST = ("zst",)


class Body:
    """control flow of one function body"""

    def __init__(self, f):
        b = f["body"]
        self.f = f
        self.blocks = b["blocks"]
        self.locals = b["locals"]
        self.argc = b["argc"]
        self.spread = b.get("spread")
        n = len(self.blocks)
        self.succ = [self._succ(t[2]) for t in self.blocks]
        # reverse postorder
        seen = set()
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onpath = {0}
        self.back = set()
        while stack:
            x, it = stack[-1]
            for y in it:
                if y in onpath:
                    self.back.add((x, y))
                if y not in seen:
                    seen.add(y)
                    onpath.add(y)
                    stack.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                onpath.discard(x)
                stack.pop()
        order.reverse()
        self.rpo = {x: i for i, x in enumerate(order)}
        pred = {}
        for x in order:
            for y in self.succ[x]:
                pred.setdefault(y, []).append(x)
        self.loops = {}
        for x, h in self.back:
            s = self.loops.setdefault(h, {h})
            work = [x]
            while work:
                y = work.pop()
                if y in s:
                    continue
                s.add(y)
                work.extend(pred.get(y, ()))
        # address taken
        self.borrowed = set()
        uses, defs = [], []
        for blk in self.blocks:
            u, d = set(), set()
            for _, st in blk[0]:
                self._stmt(st, u, d)
            self._term(blk[2], u, d)
            uses.append(u)
            defs.append(d)
        # locals assigned in several blocks
        self.again = set(l for d in defs for l in d if sum(l in e for e in defs) > 1)
        live = [set() for _ in range(n)]
        change = True
        while change:
            change = False
            for x in reversed(order):
                o = set()
                for y in self.succ[x]:
                    o |= live[y]
                i = uses[x] | (o - defs[x])
                if i != live[x]:
                    live[x] = i
                    change = True
        self.live = [l | self.borrowed for l in live]
        self.dead = [[l for l in range(len(self.locals)) if l not in self.live[x] and l != 0] for x in range(n)]

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[3]]
        return []

    def _place(self, p, u):
        if p[0] is not None:
            u.add(p[0])
        for e in p[1]:
            if e[0] == "i":
                u.add(e[1])

    def _op(self, o, u, d):
        if o[0] in ("c", "m"):
            s = set()
            self._place(o[1], s)
            u |= s - d

    def _write(self, p, u, d):
        if p[1]:
            s = set()
            self._place(p, s)
            u |= s - d
        else:
            d.add(p[0])

    def _stmt(self, st, u, d):
        k = st[0]
        if k == "=":
            rv = st[2]
            r = rv[0]
            if r in ("use", "rep"):
                self._op(rv[1], u, d)
            elif r in ("ref", "reb", "len", "discr"):
                s = set()
                self._place(rv[1], s)
                u |= s - d
                if r in ("ref", "reb") and not any(e[0] == "*" for e in rv[1][1]):
                    self.borrowed.add(rv[1][0])
            elif r == "cast":
                self._op(rv[2], u, d)
            elif r in ("bin", "cbin"):
                self._op(rv[2], u, d)
                self._op(rv[3], u, d)
            elif r == "un":
                self._op(rv[2], u, d)
            elif r == "agg":
                for o in rv[4]:
                    self._op(o, u, d)
            self._write(st[1], u, d)
        elif k == "sd":
            self._write(st[1], u, d)
        elif k == "assume":
            self._op(st[1], u, d)

    def _term(self, t, u, d):
        k = t[0]
        if k == "switch":
            self._op(t[1], u, d)
        elif k == "call":
            if "op" in t[1]:
                self._op(t[1]["op"], u, d)
            for o in t[2]:
                self._op(o, u, d)
            self._write(t[3], u, d)
        elif k == "assert":
            self._op(t[1], u, d)
        elif k == "return":
            if 0 not in d:
                u.add(0)


class Frame:
    __slots__ = ("fid", "fn", "body", "stub")

    def __init__(self, fid, fn, body):
        self.fid = fid
        self.fn = fn
        self.body = body


class Engine:
    def __init__(self, prog, mode="A", unroll=4):
        self.p = prog
        self.mode = mode
        self.unroll = unroll
        self.bodies = {}
        self.stubs = {}
        self.natives = {}
        self.obl = {}        # tag -> [proved, failed]
        self.fails = {}      # key -> record
        self.reached = set()
        self.sites = {}
        self.recording = True
        self.truncated = 0
        self.unmodelled = {}
        self.loopinfo = {}
        self.steps = 0
        self.max_steps = None
        self.deadline = None
        self.single = False
        self.explicit = None # rounds after which loops over values known one by one are given up
        self.watch = None    # prefix whose listing is followed
        self.only = None     # property whose stated obligations are looked at
        self.live_history = None
        self.coarse = None
        self.is_global = None
        import models
        models.install(self)

    # ---- types -----------------------------------------------------------
    def ty(self, i):
        return self.p.types[i]

    def int_base(self, t):
        t = self.ty(t) if isinstance(t, int) else t
        if t["k"] == "char":
            return CHAR
        if t["k"] == "int":
            n = t["bits"] if "bits" in t else t["size"] * 8
            if t.get("signed"):
                return ((-(1 << (n - 1)), (1 << (n - 1)) - 1),)
            if n >= 64:
                return NONNEG
            return ((0, (1 << n) - 1),)
        return None

    def place_ty(self, fr, place):
        t = fr.body.locals[place[0]]
        v = None
        for e in place[1]:
            if e[0] == "f":
                t = e[2]
            elif e[0] == "*":
                x = self.ty(t)
                if x["k"] in ("ref", "ptr"):
                    t = x["e"]
                elif x["k"] == "adt":
                    t = x["args"][0] if x.get("args") else t
            elif e[0] in ("i", "ci"):
                t = self.ty(t).get("e", t)
            elif e[0] == "oc":
                t = e[1]
        return t

    # ---- symbolic values -------------------------------------------------
    def mk_sym(self, term, t, st=None, depth=0):
        x = self.ty(t)
        k = x["k"]
        if k in ("int", "char"):
            return ("int", V(term, self.int_base(x)))
        if k == "bool":
            return ("bool", ("p", term))
        if k == "str":
            return ("str", (("t", term),))
        if k in ("slice",):
            return self.sym_seq(term, x["e"], None, depth)
        if k == "array":
            n = x["n"]
            return ("seq", tuple(("i", self.mk_sym(("el", term, K(j)), x["e"], st, depth + 1)) for j in range(n)))
        if k == "tuple":
            return ("tup", tuple(self.mk_sym(("f", term, i), f, st, depth) for i, f in enumerate(x["f"])))
        if k in ("ref", "ptr"):
            if x.get("mut") and st is not None:
                loc = ("heap", term)
                if loc not in st.mem:
                    st.mem[loc] = self.mk_sym(("d", term), x["e"], st, depth)
                return ("ptr", loc, ())
            return ("ref", self.mk_sym(("d", term), x["e"], st, depth))
        if k == "adt":
            path = x["path"]
            if path == "std::string::String":
                return ("str", (("t", term),))
            if path in ("std::vec::Vec", "std::collections::VecDeque"):
                return self.sym_seq(term, x["args"][0], None, depth)
            if path in ("std::collections::HashMap", "std::collections::HashSet",
                        "std::collections::BTreeMap", "std::collections::BTreeSet"):
                return ("map", term, ())
            if x.get("box"):
                return ("box", self.mk_sym(("d", term), x["args"][0], st, depth))
            if x["kind"] == "struct":
                return ("adt", t, 0, tuple(
                    self.mk_sym(("f", term, i), f[1], st, depth) for i, f in enumerate(x["v"][0]["f"])))
            return ("sym", term, t)
        if k == "closure":
            return ("clo", t, tuple(self.mk_sym(("f", term, i), f, st, depth) for i, f in enumerate(x["f"])))
        if k == "fndef":
            return ("fn", x["inst"]) if x.get("inst") is not None else ZST
        return ("opq", term, t)

    def sym_seq(self, term, ety, n, depth):
        bv = V(("bv", depth))
        tm = self.mk_sym(("el", term, bv), ety, None, depth + 1)
        return ("seq", (("fam", tm, bv.t[0][0], ZERO, V(("len", term), NONNEG)),))

    def fresh(self, st, fr, what="x"):
        if self.mode == "B":
            st.cnt += 1
            return ("v", "%s%d" % (what, st.cnt), None)
        site = (st.cs, fr.fn["id"] if fr else -1, what)
        n = self.sites.setdefault(site, len(self.sites))
        return ("v", "%s%d" % (what, n), st.iota)

    def any(self, why, st):
        if why not in st.taint:
            st.taint = st.taint + (why,)
        return ("any", why)

    def enum(self, t, name, fields=()):
        x = self.ty(t)
        for i, v in enumerate(x["v"]):
            if v["n"] == name:
                return ("adt", t, i, tuple(fields))
        raise Unsupported("variant %s of %s" % (name, x.get("path")))

    def some(self, t, v):
        return ("adt", t, 1, (v,))

    def none(self, t):
        return ("adt", t, 0, ())

    def materialise(self, v, variant):
        x = self.ty(v[2])
        return ("adt", v[2], variant, tuple(
            self.mk_sym(("vf", v[1], variant, i), f[1]) for i, f in enumerate(x["v"][variant]["f"])))

    def variants(self, st, v):
        """(state, value) for each variant v may be of"""
        if v[0] == "adt":
            return [(st, v)]
        if v[0] != "sym":
            raise Unsupported("variants of %s" % v[0])
        out = []
        d = self.discr(st, v)
        for n, x in enumerate(self.ty(v[2])["v"]):
            for f in st.facts.assume(c_eq(d, K(x["d"]))):
                s = st.fork()
                s.facts = f
                out.append((s, self.materialise(v, n)))
        return out

    # ---- reading and writing ---------------------------------------------
    def index_seq(self, st, seq, i):
        """element at index i if the facts determine which segment it is in"""
        f = st.facts
        off = ZERO
        i = f.norm(i)
        segs = seq[1]
        for n, s in enumerate(segs):
            if s[0] == "i":
                d = f.norm(sub(i, off))
                if not d.t:
                    if d.c == 0:
                        return s[1], n
                elif f.ask(c_eq(d, ZERO)) is True:
                    return s[1], n
                off = addk(off, 1)
            elif s[0] == "fam":
                ln = f.norm(sub(s[4], s[3]))
                d = sub(i, off)
                if f.ask(c_le(ZERO, d)) is True and f.ask(c_lt(d, ln)) is True:
                    return self.fam_at(st, s, f.norm(add(s[3], d))), n
                off = add(off, ln)
            else:
                return None, None
        return None, None

    def fam_at(self, st, s, idx):
        return subst_val(s[1], {s[2]: idx})

    def seq_len(self, seq):
        n = ZERO
        for s in seq[1]:
            if s[0] == "i":
                n = addk(n, 1)
            elif s[0] == "fam":
                n = add(n, sub(s[4], s[3]))
            else:
                n = add(n, V(("seglen", s), NONNEG))
        return n

    def step(self, st, v, e):
        """one projection of a value"""
        k = v[0]
        if k == "any":
            return v
        if k == "uninit":
            return v
        if e[0] == "f":
            if k in ("adt",):
                return v[3][e[1]]
            if k == "tup":
                return v[1][e[1]]
            if k == "clo":
                return v[2][e[1]]
            if k == "symv":
                return self.mk_sym(("vf", v[1], v[3], e[1]), self.ty(v[2])["v"][v[3]]["f"][e[1]][1])
            if k == "sym":
                x = self.ty(v[2])
                if x["k"] == "adt" and len(x["v"]) == 1:
                    return self.mk_sym(("vf", v[1], 0, e[1]), x["v"][0]["f"][e[1]][1])
            if k == "box":
                return ("boxptr", v[1])
            if k == "boxptr":
                return v
            if k == "zst":
                return ZST
            if k in ("ref", "ptr") and e[1] == 0:
                return v   # NonNull / Unique around a pointer
            raise Unsupported("field of %s" % k)
        if e[0] == "v":
            if k == "adt":
                if v[2] != e[1]:
                    raise Unsupported("downcast to another variant")
                return v
            if k == "sym":
                return ("symv", v[1], v[2], e[1])
            return v
        if e[0] == "*":
            if k == "ref" or k == "boxptr":
                return v[1]
            if k == "box":
                return v[1]
            if k == "dyn":
                return v
            raise Unsupported("deref of %s" % k)
        if e[0] == "I":
            if k == "seq":
                r, _ = self.index_seq(st, v, e[1])
                if r is not None:
                    return r
                raise Unsupported("index not determined")
            raise Unsupported("index of %s" % k)
        if e[0] == "box":
            return v[1]
        if e[0] in ("oc",):
            return v
        raise Unsupported("projection %s of %s" % (e[0], k))

    def read_path(self, st, loc, path):
        try:
            v = st.mem[loc]
        except KeyError:
            raise Unsupported("read of unset %s" % (loc,))
        for e in path:
            v = self.step(st, v, e)
            if v[0] == "ptr" and e[0] == "*":
                v = self.read_path(st, v[1], v[2])
        return v

    def deref(self, st, v):
        if v[0] == "ptr":
            return self.read_path(st, v[1], v[2])
        if v[0] in ("ref", "box", "boxptr"):
            return v[1]
        if v[0] == "any":
            return v
        raise Unsupported("deref of %s" % v[0])

    def update(self, st, v, path, n, new):
        if n == len(path):
            return new
        e = path[n]
        k = v[0]
        if k == "uninit":
            return new
        if e[0] == "f":
            if k == "adt":
                fs = list(v[3])
                fs[e[1]] = self.update(st, fs[e[1]], path, n + 1, new)
                return ("adt", v[1], v[2], tuple(fs))
            if k == "tup":
                fs = list(v[1])
                fs[e[1]] = self.update(st, fs[e[1]], path, n + 1, new)
                return ("tup", tuple(fs))
            if k == "clo":
                fs = list(v[2])
                fs[e[1]] = self.update(st, fs[e[1]], path, n + 1, new)
                return ("clo", v[1], tuple(fs))
            if k == "any":
                return v
            raise Unsupported("write to field of %s" % k)
        if e[0] == "v":
            if k == "sym":
                v = self.materialise(v, e[1])
            if v[0] == "adt" and v[2] != e[1]:
                raise Unsupported("write to another variant")
            return self.update(st, v, path, n + 1, new)
        if e[0] == "box":
            return ("box", self.update(st, v[1], path, n + 1, new))
        if e[0] == "I":
            old, at = self.index_seq(st, v, e[1])
            if old is None:
                raise Unsupported("write at an undetermined index")
            nv = self.update(st, old, path, n + 1, new)
            s = v[1][at]
            if s[0] == "i":
                mid = (("i", nv),)
            else:
                off = ZERO
                for q in v[1][:at]:
                    off = addk(off, 1) if q[0] == "i" else add(off, sub(q[4], q[3]))
                idx = st.facts.norm(add(s[3], sub(e[1], off)))
                mid = (s[:3] + (s[3], idx), ("i", nv), s[:3] + (addk(idx, 1), s[4]))
            return ("seq", v[1][:at] + mid + v[1][at + 1:])
        if e[0] == "oc":
            return self.update(st, v, path, n + 1, new)
        raise Unsupported("write through %s" % e[0])

    def write_path(self, st, loc, path, new):
        if not path:
            st.mem[loc] = new
            return
        if loc not in st.mem:
            raise Unsupported("write into unset %s" % (loc,))
        st.mem[loc] = self.update(st, st.mem[loc], path, 0, new)

    def store(self, st, ptr, new):
        if ptr[0] == "ptr":
            self.write_path(st, ptr[1], ptr[2], new)
        elif ptr[0] == "any":
            self.any("store through " + ptr[1], st)
        else:
            raise Unsupported("store through %s" % ptr[0])

    def resolve(self, st, fr, place):
        """('loc', cell, path) or ('val', value)"""
        loc = (fr.fid, place[0])
        path = ()
        val = None
        if loc not in st.mem and place[1]:
            # a local assigned field by field
            t = self.ty(fr.body.locals[place[0]])
            if t["k"] == "tuple":
                st.mem[loc] = ("tup", tuple(("any", "unset") for _ in t["f"]))
            else:
                raise Unsupported("projection of unset local")
        for e in place[1]:
            if e[0] == "*":
                v = val if val is not None else self.read_path(st, loc, path)
                if v[0] == "ptr":
                    loc, path, val = v[1], v[2], None
                elif v[0] in ("ref", "boxptr"):
                    val = v[1]
                elif v[0] == "box":
                    if val is None:
                        path = path + (("box",),)
                    else:
                        val = v[1]
                elif v[0] == "any":
                    val = v
                else:
                    raise Unsupported("deref of %s" % v[0])
                continue
            if e[0] == "i":
                e = ("I", self.read_path(st, (fr.fid, e[1]), ())[1])
            elif e[0] == "ci":
                if e[3]:
                    v = val if val is not None else self.read_path(st, loc, path)
                    e = ("I", addk(self.seq_len(v), -e[1]))
                else:
                    e = ("I", K(e[1]))
            elif e[0] == "sub":
                v = val if val is not None else self.read_path(st, loc, path)
                n = self.seq_len(v)
                hi = addk(n, -e[2]) if e[3] else K(e[2])
                val = self.subseq(st, v, K(e[1]), hi)
                continue
            elif e[0] == "f" and val is None:
                v = self.read_path(st, loc, path)
                if v[0] == "box":
                    val = ("ptr", loc, path + (("box",),))
                    continue
                if v[0] in ("ptr", "ref"):
                    val = v
                    continue
            elif e[0] == "f" and val is not None and val[0] in ("ptr",):
                continue
            if val is not None:
                val = self.step(st, val, tuple(e))
            else:
                path = path + (tuple(e[:2]) if e[0] == "f" else tuple(e),)
        if val is not None:
            return ("val", val)
        return ("loc", loc, path)

    def subseq(self, st, v, lo, hi):
        f = st.facts
        lo, hi = f.norm(lo), f.norm(hi)
        out = []
        off = ZERO
        for s in v[1]:
            n = ONE if s[0] == "i" else sub(s[4], s[3]) if s[0] == "fam" else None
            if n is None:
                raise Unsupported("part of a composite sequence")
            end = f.norm(add(off, n))
            if f.ask(c_le(end, lo)) is True or f.ask(c_le(hi, off)) is True:
                off = end
                continue
            if s[0] == "i":
                if f.ask(c_le(lo, off)) is True and f.ask(c_le(end, hi)) is True:
                    out.append(s)
                else:
                    raise Unsupported("slice bound not determined")
            else:
                if f.ask(c_le(lo, off)) is True:
                    a = s[3]
                elif f.ask(c_le(off, lo)) is True:
                    a = f.norm(add(s[3], sub(lo, off)))
                else:
                    raise Unsupported("slice bound not determined")
                if f.ask(c_le(end, hi)) is True:
                    b = s[4]
                elif f.ask(c_le(hi, end)) is True:
                    b = f.norm(add(s[3], sub(hi, off)))
                else:
                    raise Unsupported("slice bound not determined")
                if a != b:
                    out.append(s[:3] + (a, b))
            off = end
        return ("seq", tuple(out))

    def read(self, st, fr, place):
        if not place[1]:
            try:
                return st.mem[(fr.fid, place[0])]
            except KeyError:
                t = self.ty(fr.body.locals[place[0]])
                if t["k"] == "tuple" and not t["f"]:
                    return UNIT
                if t["k"] in ("fndef",):
                    return ("fn", t["inst"]) if t.get("inst") is not None else ZST
                if t["k"] == "adt" and t["kind"] == "struct" and not t["v"][0]["f"]:
                    return ("adt", fr.body.locals[place[0]], 0, ())
                if t["k"] == "adt" and t["kind"] == "enum" and len([v for v in t["v"] if not v["f"]]) == 1:
                    # an Option<Infallible> is never stored
                    n = [i for i, v in enumerate(t["v"]) if not v["f"]][0]
                    return ("adt", fr.body.locals[place[0]], n, ())
                if t["k"] == "closure" and not t["f"]:
                    return ("clo", fr.body.locals[place[0]], ())
                raise Unsupported("read of unset local %d" % place[0])
        r = self.resolve(st, fr, place)
        if r[0] == "val":
            return r[1]
        return self.read_path(st, r[1], r[2])

    def write(self, st, fr, place, v):
        if not place[1]:
            if self.coarse and place[0] in fr.body.again and fr.fn["crate"] == "hml_rs":
                v = self.coarse(self, st, fr, place[0], v)
            st.mem[(fr.fid, place[0])] = v
            return
        r = self.resolve(st, fr, place)
        if r[0] == "val":
            if r[1][0] == "any":
                return
            raise Unsupported("write through a shared reference")
        self.write_path(st, r[1], r[2], v)

    def const(self, k):
        t = k["ty"]
        v = k["v"]
        return self.constv(v, t)

    def constv(self, v, t):
        x = self.ty(t)
        if "b" in v:
            return ("bool", bool(v["b"]))
        if "c" in v:
            return ("int", K(v["c"] if isinstance(v["c"], int) else ord(v["c"])))
        if "i" in v:
            return ("int", K(int(v["i"])))
        if "str" in v:
            return ("ref", lit(v["str"]))
        if "fn" in v:
            return ("fn", v["fn"]) if v["fn"] is not None else ZST
        if "tup" in v:
            ts = x["f"]
            return ("tup", tuple(self.constv(a, b) for a, b in zip(v["tup"], ts)))
        if "arr" in v:
            e = x["e"]
            return ("seq", tuple(("i", self.constv(a, e)) for a in v["arr"]))
        if "slice" in v:
            e = self.ty(x["e"])["e"] if x["k"] in ("ref", "ptr") else x["e"]
            return ("ref", ("seq", tuple(("i", self.constv(a, e)) for a in v["slice"])))
        if "ref" in v:
            return ("ref", self.constv(v["ref"], x["e"]))
        if "adt" in v:
            vi = v.get("var", 0)
            fs = x["v"][vi]["f"]
            if x["path"] == "std::string::String":
                return EMPTYSTR
            if x["path"] in ("std::vec::Vec", "std::collections::VecDeque"):
                return ("seq", ())
            return ("adt", t, vi, tuple(self.constv(a, f[1]) for a, f in zip(v["f"], fs)))
        if "zst" in v:
            if x["k"] == "fndef":
                return ("fn", x["inst"]) if x.get("inst") is not None else ZST
            if x["k"] == "tuple":
                return UNIT
            if x["k"] == "closure":
                return ("clo", t, ())
            if x["k"] == "adt" and x["kind"] == "struct":
                return ("adt", t, 0, tuple(self.constv({"zst": 1}, f[1]) for f in x["v"][0]["f"]))
            if x["k"] == "adt" and x["kind"] == "enum":
                vs = [i for i, y in enumerate(x["v"]) if not any(self.ty(f[1])["k"] == "never" for f in y["f"])]
                if len(vs) == 1:
                    return ("adt", t, vs[0], tuple(self.constv({"zst": 1}, f[1]) for f in x["v"][vs[0]]["f"]))
            return ZST
        if x["k"] == "float":
            return ("opq", ("float", str(sorted(v.items()))), t)
        return ("any", "constant %s" % list(v)[:1])

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.read(st, fr, o[1])
        if o[0] == "k":
            return self.const(o[1])
        return ("bool", False)   # runtime checks flags

    # ---- conditions ------------------------------------------------------
    def cond(self, v):
        if v[0] == "bool":
            return v[1]
        if v[0] == "int":
            return c_not(c_in(v[1], ((0, 0),)))
        if v[0] == "any":
            return None
        raise Unsupported("condition from %s" % v[0])

    def branch(self, st, c):
        """[(truth, state)]"""
        if c is None:
            a, b = st.fork(), st.fork()
            return [(True, a), (False, b)]
        r = st.facts.ask(c)
        if r is not None:
            return [(r, st)]
        out = []
        for f in st.facts.assume(c, True):
            out.append((True, st.fork(f)))
        for f in st.facts.assume(c, False):
            out.append((False, st.fork(f)))
        return out

    def assume(self, st, c):
        r = st.facts.ask(c)
        if r is True:
            return [st]
        if r is False:
            return []
        return [st.fork(f) for f in st.facts.assume(c)]

    def holds(self, st, c):
        return st.facts.ask(c) is True

    # ---- obligations -----------------------------------------------------
    def oblige(self, st, c, tag, where, what=None):
        """record an obligation; returns the states in which it holds"""
        bad = []
        if c is None:
            bad = [st.fork()]
            bad[0].taint = bad[0].taint + ("unknown condition",)
            good = [st]
        else:
            r = st.facts.ask(c)
            if r is True:
                bad, good = [], [st]
            else:
                if self.recording:
                    bad = [st.fork(f) for f in st.facts.assume(c, False)]
                    bad = [b for b in bad if not self.refute(b, c)]
                good = [st.fork(f) for f in st.facts.assume(c, True)]
        if self.recording:
            o = self.obl.setdefault(tag, [0, 0, set()])
            o[2].add(where)
            if not bad:
                o[0] += 1
            else:
                o[1] += 1
                self.fail(tag, where, bad[0], what)
        return good

    def refute(self, st, c):
        """do the facts of earlier loops' iterations exclude the state"""
        if not st.facts.regs:
            return False
        import loops
        return loops.refute(st.facts, c)

    def fail(self, tag, where, st, what=None):
        key = (tag, where)
        r = self.fails.get(key)
        if r is None or (r["taint"] and not st.taint):
            self.fails[key] = {"tag": tag, "where": where, "what": what, "taint": st.taint,
                               "trace": self.trace(st), "facts": self.show_facts(st),
                               "libtrace": self.trace(st, True)}

    def trace(self, st, lib=False):
        out = []
        t = st.trace
        while t is not None and len(out) < 60:
            if not lib or t[2]:
                out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def show_facts(self, st):
        out = []
        f = st.facts
        for k, s in f.dom.items():
            out.append("%s in %s" % (show(Lin(0, k)), [(a if a > -INF else "-inf", b if b < INF else "inf") for a, b in s]))
        for i, l in f.sub.items():
            out.append("%s = %s" % (show_term(TERMS[i]), show(l)))
        for k, v in f.preds.items():
            out.append("%s%s" % ("" if v else "not ", show_term(k)))
        for k, v in f.ssub.items():
            out.append("%s = %s" % (show_term(k), show_term(v)))
        return out[:60]

    def note(self, st, fr, line, what):
        st.trace = (st.trace, "%s:%s %s:%s %s" % (short_file(fr.fn.get("file")), line, short(fr.fn["path"]), line, what),
                    fr.fn["crate"] == "hml_rs")

    # ---- arithmetic ------------------------------------------------------
    def binop(self, st, fr, op, a, b, ty, line, checked):
        """[(state, value)]"""
        if a[0] == "any" or b[0] == "any":
            v = self.any("arithmetic on unknown value", st)
            return [(st, ("tup", (v, ("bool", False))) if checked else v)]
        if a[0] == "opq" and b[0] == "opq" and self.ty(ty)["k"] == "float":
            return [(st, ("bool", None) if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else ("opq", ("float", op, a, b), ty))]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            c = self.compare(st, op, a, b)
            return [(st, ("bool", c))]
        if op == "Cmp":
            if a[0] != "int" or b[0] != "int":
                return None
            t = next(i for i, x in enumerate(self.p.types) if x.get("path", "").endswith("cmp::Ordering"))
            out = []
            for c, s in self.branch(st, c_lt(a[1], b[1])):
                for e, s2 in [(None, s)] if c else self.branch(s, c_eq(a[1], b[1])):
                    out.append((s2, ("adt", t, 0 if c else 1 if e else 2, ())))
            return out
        if a[0] == "bool":
            x, y = a[1], b[1]
            if op == "BitAnd":
                return [(st, ("bool", c_and(x, y)))]
            if op == "BitOr":
                return [(st, ("bool", c_or(x, y)))]
            if op == "BitXor":
                return [(st, ("bool", c_or(c_and(x, c_not(y)), c_and(c_not(x), y))))]
        if a[0] != "int" or b[0] != "int":
            raise Unsupported("%s of %s and %s" % (op, a[0], b[0]))
        f = st.facts
        x, y = f.norm(a[1]), f.norm(b[1])
        base = self.int_base(ty)
        r = None
        if op in ("Add", "AddUnchecked", "AddWithOverflow"):
            r = add(x, y)
        elif op in ("Sub", "SubUnchecked", "SubWithOverflow"):
            r = sub(x, y)
        elif op in ("Mul", "MulUnchecked", "MulWithOverflow"):
            if not y.t:
                r = mulk(x, y.c)
            elif not x.t:
                r = mulk(y, x.c)
            else:
                r = V(("mul", x, y), base)
        elif op in ("Shl", "ShlUnchecked"):
            if not y.t and 0 <= y.c < 64:
                r = mulk(x, 1 << y.c)
            else:
                r = V(("shl", x, y), base)
        elif op in ("Shr", "ShrUnchecked"):
            if not x.t and not y.t:
                r = K(x.c >> y.c)
            else:
                r = V(("shr", x, y.c if not y.t else y), base)
        elif op in ("Div", "Rem"):
            if not x.t and not y.t and y.c:
                r = K(x.c // y.c if op == "Div" else x.c % y.c)
            else:
                bb = ((0, y.c - 1),) if op == "Rem" and not y.t and y.c > 0 else base
                r = V((op.lower(), x, y), bb)
        elif op in ("BitAnd", "BitOr", "BitXor"):
            r = self.bits(st, op, x, y, base)
        elif op == "Offset":
            raise Unsupported("pointer arithmetic")
        if r is None:
            raise Unsupported("operator " + op)
        if checked:
            # overflow of 64 bit additions and multiplications is out of scope (see DESIGN)
            rg = f.rng(f.norm(r))
            if subset(rg, base):
                ov = False
            else:
                ov = c_not(c_in(r, base))
            return [(st, ("tup", (("int", r), ("bool", ov))))]
        rg = f.rng(f.norm(r))
        if not subset(rg, base) and base != NONNEG:
            # wrapping
            r = V(("wrap", r), base)
        elif base == NONNEG and rg and rg[0][0] < 0:
            r = V(("wrap", r), base)
        return [(st, ("int", r))]

    def bits(self, st, op, x, y, base):
        f = st.facts
        if not x.t and not y.t:
            return K({"BitAnd": x.c & y.c, "BitOr": x.c | y.c, "BitXor": x.c ^ y.c}[op])
        if not x.t:
            x, y = y, x
        if op == "BitOr":
            for u, v in ((x, y), (y, x)):
                rv = f.rng(v)
                m = 1
                if rv and rv[0][0] >= 0 and rv[-1][1] < 1 << 64:
                    m = 1 << rv[-1][1].bit_length()
                    if u.c % m == 0 and all(k % m == 0 for _, k in u.t):
                        return add(u, v)
        if not y.t:
            c = y.c
            if op == "BitAnd":
                rx = f.rng(x)
                if c >= 0 and (c & (c + 1)) == 0 and rx and rx[0][0] >= 0 and rx[-1][1] <= c:
                    return x
                vals = {0}
                if c >= 0 and bin(c).count("1") <= 8:
                    b = c
                    vals = []
                    s = c
                    while True:
                        vals.append(s)
                        if s == 0:
                            break
                        s = (s - 1) & c
                    return V(("band", x, c), iset(*vals))
                return V(("band", x, c), ((0, c),))
            return V(({"BitOr": "bor", "BitXor": "bxor"}[op], x, c), base)
        return V(({"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor"}[op], x, y), base)

    def compare(self, st, op, a, b):
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            if op == "Eq":
                return c_eq(x, y)
            if op == "Ne":
                return c_not(c_eq(x, y))
            if op == "Lt":
                return c_lt(x, y)
            if op == "Le":
                return c_le(x, y)
            if op == "Gt":
                return c_lt(y, x)
            return c_le(y, x)
        if a[0] == "bool" and b[0] == "bool" and op in ("Eq", "Ne"):
            x, y = a[1], b[1]
            e = c_or(c_and(x, y), c_and(c_not(x), c_not(y)))
            return e if op == "Eq" else c_not(e)
        if a[0] == "any" or b[0] == "any":
            return None
        raise Unsupported("comparison of %s" % a[0])

    def discr(self, st, v):
        if v[0] == "adt":
            return K(self.ty(v[1])["v"][v[2]]["d"])
        if v[0] == "sym":
            ds = [x["d"] for x in self.ty(v[2])["v"]]
            return V(("discr", v[1]), iset(*ds))
        return None

    # ---- statements ------------------------------------------------------
    def rvalue(self, st, fr, rv, line):
        """[(state, value)]"""
        k = rv[0]
        if k == "use":
            return [(st, self.operand(st, fr, rv[1]))]
        if k == "ref":
            if rv[2]:
                r = self.resolve(st, fr, rv[1])
                if r[0] == "loc":
                    return [(st, ("ptr", r[1], r[2]))]
                if r[1][0] == "any":
                    return [(st, r[1])]
                # two-phase or raw borrow of something behind a shared reference
                return [(st, ("ref", r[1]))]
            return [(st, ("ref", self.read(st, fr, rv[1])))]
        if k == "reb":
            return [(st, self.operand(st, fr, ["c", rv[1]]))]
        if k == "len":
            return [(st, ("int", self.seq_len(self.read(st, fr, rv[1]))))]
        if k == "discr":
            v = self.read(st, fr, rv[1])
            d = self.discr(st, v)
            if d is None:
                if v[0] == "any":
                    return [(st, v)]
                raise Unsupported("discriminant of %s" % v[0])
            return [(st, ("int", d))]
        if k in ("bin", "cbin"):
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            r = self.binop(st, fr, rv[1], a, b, rv[4], line, k == "cbin")
            if r is None:
                raise Unsupported("operator %s" % rv[1])
            return r
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if a[0] == "any":
                return [(st, a)]
            if rv[1] == "Not":
                if a[0] == "bool":
                    return [(st, ("bool", None if a[1] is None else c_not(a[1])))]
                return [(st, ("int", V(("not", a[1]))))]
            if rv[1] == "Neg":
                return [(st, ("int", mulk(a[1], -1)))]
            if rv[1] == "PtrMetadata":
                v = self.deref(st, a)
                if v[0] == "seq":
                    return [(st, ("int", self.seq_len(v)))]
                if v[0] == "str":
                    return [(st, ("int", str_len(v)))]
            raise Unsupported("operator %s" % rv[1])
        if k == "agg":
            fs = tuple(self.operand(st, fr, o) for o in rv[4])
            kind = rv[1]
            if kind == "tuple":
                return [(st, ("tup", fs))]
            if kind == "array":
                return [(st, ("seq", tuple(("i", x) for x in fs)))]
            if kind == "adt":
                x = self.ty(rv[2])
                return [(st, ("adt", rv[2], rv[3] or 0, fs))]
            if kind == "closure":
                return [(st, ("clo", rv[2], fs))]
            raise Unsupported("aggregate %s" % kind)
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 64:
                return [(st, ("seq", tuple(("i", v) for _ in range(n))))]
        raise Unsupported("rvalue %s" % k)

    def cast(self, st, fr, rv):
        kind, op, to = rv[1], rv[2], rv[3]
        v = self.operand(st, fr, op)
        t = self.ty(to)
        if t["k"] in ("int", "char"):
            if v[0] == "bool":
                if v[1] is True or v[1] is False:
                    return [(st, ("int", K(int(v[1]))))]
                return [(s, ("int", K(int(b)))) for b, s in self.branch(st, v[1])]
            if v[0] == "int":
                base = self.int_base(t)
                l = st.facts.norm(v[1])
                r = st.facts.rng(l)
                if subset(r, base) or base == NONNEG and r and r[0][0] >= 0:
                    return [(st, ("int", l))]
                return [(st, ("int", V(("wrap", l), base)))]
            if v[0] in ("adt", "sym"):
                return [(st, ("int", self.discr(st, v)))]
            if v[0] == "any":
                return [(st, v)]
            if v[0] in ("ptr", "ref", "box", "boxptr"):
                return [(st, ("int", V(("addr",), NONNEG)))]
            if v[0] == "opq" and kind == "FloatToInt":
                return [(st, ("int", V(("float", v), self.int_base(t))))]
            raise Unsupported("cast of %s to int" % v[0])
        extra = rv[5] if len(rv) > 5 else None
        if isinstance(extra, dict) and "m" in extra:
            self.vt = getattr(self, "vt", {})
            key = extra["self"]
            vt = ("vt", key, tuple(extra["m"]))
            if v[0] == "box":
                return [(st, ("box", ("dyn", vt, v[1])))]
            if v[0] == "ref":
                return [(st, ("ref", ("dyn", vt, v[1])))]
            if v[0] == "ptr":
                return [(st, ("ref", ("dyn", vt, v)))]
            raise Unsupported("unsizing of %s" % v[0])
        if isinstance(extra, int):
            return [(st, ("fn", extra))]
        if v[0] == "boxptr":
            return [(st, ("ref", v[1]))]
        return [(st, v)]

    def stmt(self, st, fr, s, line):
        k = s[0]
        if k == "=":
            out = self.rvalue(st, fr, s[2], line)
            for x, v in out:
                self.write(x, fr, s[1], v)
            return [x for x, _ in out]
        if k == "dead":
            st.mem.pop((fr.fid, s[1]), None)
            return [st]
        if k == "live":
            st.mem.pop((fr.fid, s[1]), None)
            return [st]
        if k == "assume":
            c = self.cond(self.operand(st, fr, s[1]))
            return [st] if c is None else self.assume(st, c)
        if k == "sd":
            v = self.read(st, fr, s[1])
            if v[0] == "adt":
                self.write(st, fr, s[1], ("adt", v[1], s[2], v[3]))
                return [st]
            raise Unsupported("set discriminant")
        raise Unsupported("statement %s" % k)

    # ---- blocks ----------------------------------------------------------
    def block(self, st, fr, b):
        """run one block; yields (target, state) or ('ret', state, value)"""
        blk = fr.body.blocks[b]
        states = [st]
        self.steps += 1
        if self.deadline and self.steps % 256 == 0:
            import time
            if time.time() > self.deadline:
                raise Budget()
        self.reached.add((fr.fn["id"], b))
        for line, s in blk[0]:
            nxt = []
            for x in states:
                try:
                    nxt.extend(self.stmt(x, fr, s, line))
                except Unsupported as e:
                    nxt.append(self.give_up(x, fr, s, line, e))
            states = nxt
        t = blk[2]
        out = []
        for x in states:
            try:
                out.extend(self.term(x, fr, t, blk[1], b))
            except Unsupported as e:
                out.extend(self.give_up_term(x, fr, t, blk[1], e))
        return out

    def unk(self, fr, line, e):
        k = "%s: %s" % (short(fr.fn["path"]), e)
        self.unmodelled[k] = self.unmodelled.get(k, 0) + 1
        return k

    def give_up(self, st, fr, s, line, e):
        why = self.unk(fr, line, e)
        v = self.any(why, st)
        if s[0] == "=":
            try:
                self.write(st, fr, s[1], v)
            except Unsupported:
                if s[1][1]:
                    st.mem[(fr.fid, s[1][0])] = v
        return st

    def give_up_term(self, st, fr, t, line, e):
        why = self.unk(fr, line, e)
        v = self.any(why, st)
        if t[0] == "call" and t[4] is not None:
            try:
                self.write(st, fr, t[3], v)
            except Unsupported:
                pass
            # whatever the call could reach through mutable references
            for o in t[2]:
                try:
                    a = self.operand(st, fr, o)
                except Unsupported:
                    continue
                self.havoc(st, a, why)
            return [(t[4], st)]
        return [(b, st.fork()) for b in fr.body.succ_set(t)] if hasattr(fr.body, "succ_set") else \
            [(b, st.fork()) for b in dict.fromkeys(Body._succ(t))]

    def havoc(self, st, v, why, seen=None):
        if v[0] == "ptr":
            try:
                self.write_path(st, v[1], v[2], ("any", why))
            except Unsupported:
                pass
        elif v[0] in ("adt", "tup", "clo", "ref", "box"):
            fs = v[3] if v[0] == "adt" else v[2] if v[0] == "clo" else v[1] if v[0] == "tup" else (v[1],)
            for x in fs:
                if isinstance(x, tuple) and x:
                    self.havoc(st, x, why)

    def where(self, fr, line):
        return "%s:%s" % (short_file(fr.fn.get("file")), short(fr.fn["path"]))

    def term(self, st, fr, t, line, b):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            v = st.mem.get((fr.fid, 0), UNIT)
            return [("ret", st, v)]
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            return self.switch(st, fr, v, t, line)
        if k == "assert":
            if "pointer dereference" in str(t[4]):
                return [(t[3], st)]
            c = self.cond(self.operand(st, fr, t[1]))
            if c is not None and not t[2]:
                c = c_not(c)
            good = self.oblige(st, c, "panic", self.where(fr, line), str(t[4])[:80])
            return [(t[3], x) for x in good]
        if k == "call":
            return self.call_term(st, fr, t, line, b)
        if k in ("unreachable", "resume", "abort"):
            if k == "unreachable" and st.taint == () and self.recording:
                pass
            return []
        raise Unsupported("terminator %s" % k)

    def switch(self, st, fr, v, t, line):
        out = []
        if v[0] == "any":
            return [(b, st.fork()) for b in dict.fromkeys([x for _, x in t[2]] + [t[3]])]
        if v[0] == "bool":
            c = v[1]
            tg = {int(a): b for a, b in t[2]}
            for truth, s in self.branch(st, c):
                tb = tg.get(int(truth), t[3])
                out.append((tb, s))
            if len(out) > 1:
                for tb, s in out:
                    self.note(s, fr, line, "-> bb%d" % tb)
            return out
        if v[0] != "int":
            raise Unsupported("switch on %s" % v[0])
        l = st.facts.norm(v[1])
        if not l.t:
            for a, b in t[2]:
                if int(a) == l.c:
                    return [(b, st)]
            return [(t[3], st)]
        # group values by target
        groups = {}
        for a, b in t[2]:
            groups.setdefault(b, []).append(int(a))
        allv = []
        for b, vals in groups.items():
            s = iset(*vals)
            allv += vals
            for f in st.facts.assume(c_in(l, s)):
                out.append((b, st.fork(f)))
        s = compl(iset(*allv))
        if fr.body.blocks[t[3]][2][0] != "unreachable" or fr.body.blocks[t[3]][0]:
            for f in st.facts.assume(c_in(l, s)):
                out.append((t[3], st.fork(f)))
        if len(out) > 1:
            for tb, x in out:
                self.note(x, fr, line, "-> bb%d" % tb)
        return out

    # ---- calls -----------------------------------------------------------
    def call_term(self, st, fr, t, line, b):
        cal = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        dty = self.place_ty(fr, t[3])
        st.cs = st.cs + ((fr.fn["id"], b),)
        depth = len(st.cs)
        if "op" in cal:
            fv = self.operand(st, fr, cal["op"])
            if fv[0] != "fn":
                raise Unsupported("call of %s" % fv[0])
            res = self.call(st, fr, fv[1], args, dty, line)
        elif "inst" in cal:
            res = self.call(st, fr, cal["inst"], args, dty, line, cal.get("decl"))
        else:
            raise Unsupported("unresolved call")
        out = []
        for s, v in res:
            s.cs = s.cs[:depth - 1]
            if t[4] is None:
                continue
            try:
                self.write(s, fr, t[3], v)
            except Unsupported as e:
                self.give_up(s, fr, ["=", t[3]], line, e)
            out.append((t[4], s))
        return out

    def call(self, st, fr, fid, args, dty, line, decl=None):
        """[(state, value)]"""
        f = self.p.fns[fid]
        path = f["path"]
        stub = self.stubs.get(path) or self.stubs.get(f["name"])
        if stub is not None:
            return stub(self, st, fr, f, args, dty, line)
        nat = self.native_for(f)
        if nat is not None:
            try:
                return nat(self, st, fr, f, args, dty, line)
            except (AttributeError, TypeError, IndexError, KeyError):
                if any(has_any(a) for a in args) or st.taint:
                    raise Unsupported("unknown argument of %s" % short(path))
                raise
        if f["kind"] == "virtual":
            return self.virtual(st, fr, f, args, dty, line)
        if "body" not in f or f["body"] is None:
            raise Unsupported("call of %s" % path)
        # closure bodies take their arguments untupled
        if decl is not None and len(args) == 2 and args[1][0] == "tup":
            d = self.p.fns[decl]["path"] if isinstance(decl, int) else str(decl)
            if FNCALL.search(d) and not f["body"].get("spread"):
                args = [args[0]] + list(args[1][1])
        return self.enter(st, fr, f, args)

    def virtual(self, st, fr, f, args, dty, line):
        v = args[0]
        d = v[1] if v[0] in ("ref", "box") else self.deref(st, v)
        if d[0] != "dyn":
            raise Unsupported("virtual call on %s" % d[0])
        m = d[1][2]
        idx = f["vidx"]
        if idx >= len(m) or m[idx] is None:
            raise Unsupported("virtual call slot")
        inner = d[2]
        if v[0] == "box":
            a0 = ("box", inner)
        elif inner[0] == "ptr":
            a0 = inner
        else:
            a0 = ("ref", inner)
        return self.call(st, fr, m[idx], [a0] + list(args[1:]), dty, line)

    def body(self, f):
        b = self.bodies.get(f["id"])
        if b is None:
            b = self.bodies[f["id"]] = Body(f)
        return b

    def enter(self, st, fr, f, args):
        body = self.body(f)
        fid = (fr.fid + 1) if fr is not None else 0
        if fid > 120:
            raise Unsupported("call depth")
        nf = Frame(fid, f, body)
        if body.spread is not None and len(args) == body.argc and False:
            pass
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        if st.its:
            st.its = {k: v for k, v in st.its.items() if isinstance(k, str) or k[0] == "was" or k[0] < fid}
        out = self.run(nf, [st])
        res = []
        for s, v in out:
            for key in [k for k in s.mem if k[0] == fid]:
                del s.mem[key]
            res.append((s, v))
        return self.merge_ret(res)

    def merge_ret(self, res):
        if len(res) < 2:
            return res
        for s, v in res:
            s.mem["ret"] = v
        ss = self.merge([s for s, _ in res])
        out = []
        for s in ss:
            out.append((s, s.mem.pop("ret")))
        return out

    def run(self, fr, states):
        rets = []
        self.region(fr, {0: states}, None, None, rets)
        return rets

    def region(self, fr, start, inside, head, rets):
        """Run the blocks of `inside` (all when None) from the given states.
        Returns (states at head again, states leaving: [(block, state)])."""
        body = fr.body
        pend = {b: list(s) for b, s in start.items()}
        backs, exits = [], []
        first = head is not None
        while pend:
            b = min(pend, key=lambda x: body.rpo[x])
            states = pend.pop(b)
            dead = body.dead[b]
            if dead:
                for s in states:
                    m = s.mem
                    for l in dead:
                        m.pop((fr.fid, l), None)
            states = self.merge(states)
            if b in body.loops and not (first and b == head):
                if self.mode == "A":
                    ex = self.loop(fr, b, states, rets)
                    for tb, s in ex:
                        if inside is not None and tb == head:
                            backs.append(s)
                        elif inside is not None and tb not in inside:
                            exits.append((tb, s))
                        else:
                            pend.setdefault(tb, []).append(s)
                    continue
                states = self.bounded(fr, b, states)
            first = False
            for s in states:
                for r in self.block(s, fr, b):
                    if r[0] == "ret":
                        rets.append((r[1], r[2]))
                        continue
                    tb, x = r
                    if inside is not None and tb == head:
                        backs.append(x)
                    elif inside is not None and tb not in inside:
                        exits.append((tb, x))
                    else:
                        pend.setdefault(tb, []).append(x)
        if backs and body.dead[head]:
            for s in backs:
                for l in body.dead[head]:
                    s.mem.pop((fr.fid, l), None)
        return backs, exits

    def bounded(self, fr, b, states):
        """states allowed to go round the loop again when following it"""
        out = []
        for s in states:
            key = (fr.fid, fr.fn["id"], b)
            n, old = s.its.get(key, (0, None))
            fuel = s.its.get("fuel", 0)
            own = fr.fn["crate"] == "probe" and "CharStream" not in fr.fn["path"] and "::model::" not in fr.fn["path"]
            if self.only == "C23" and fr.fn["crate"] == "hml_rs":
                # the same state again, with nothing read since
                was = s.its.get(("was",) + key[1:])
                was = was[2] if was is not None and was[0] == fr.fid and was[1] == s.cnt else ()
                if any(w == s.mem for w in was):
                    self.oblige(s, False, "C23:loop goes on for ever", self.where(fr, fr.body.blocks[b][1]))
                    continue
                s.its = dict(s.its)
                s.its[("was",) + key[1:]] = (fr.fid, s.cnt, was[-3:] + (dict(s.mem),))
            if self.live_history and self.live_history(self, fr, b):
                # bounded by the number of tokens
                out.append(s)
                continue
            n += 1
            if not own and old is not s.facts and n > 1:
                fuel += 1
                if self.single:
                    # all iterations in one loop
                    if s.its.setdefault("loop", key) != key:
                        self.truncated += 1
                        continue
            if fuel > self.unroll or n > self.unroll + 60:
                self.truncated += 1
                continue
            s.its = {k: v for k, v in s.its.items() if isinstance(k, str) or k[0] == "was" or k[0] <= fr.fid}
            s.its[key] = (n, s.facts)
            s.its["fuel"] = fuel
            out.append(s)
        if self.live_history and self.live_history(self, fr, b):
            out = self.dedupe(fr, b, out)
        return out

    def dedupe(self, fr, b, states):
        """states of the history not met before, by the fewest tokens taken"""
        import hist
        seen = self.loopinfo.setdefault(("seen", fr.fn["id"], b), {})
        out = []
        for s in states:
            k = hist.canonical(self, s)
            n = s.its.get("tokens", 0)
            if seen.get(k, 1 << 30) <= n:
                continue
            seen[k] = n
            out.append(s)
        return out

    def loop(self, fr, b, states, rets):
        import loops
        out = []
        for s in states:
            out.extend(loops.analyse(self, fr, b, s, rets))
        return out

    def caller_site(self, st, what):
        """innermost library function on the call stack"""
        for fn, b in reversed(st.cs):
            f = self.p.fns[fn]
            if f["crate"] == "hml_rs":
                return "%s:%s" % (short_file(f.get("file")), short(f["path"]))
        return "?"

    def closure_body(self, v):
        t = self.ty(v[1])
        ids = self.p.by_path.get(t["path"])
        if ids:
            for i in ids:
                if self.p.fns[i].get("body"):
                    return i
        return None

    # ---- merging ---------------------------------------------------------
    def merge(self, states):
        if len(states) < 2 or len(states) > 400:
            return states
        groups = {}
        order = []
        for s in states:
            key = (len(s.mem), len(s.facts.sub), len(s.facts.preds), s.cs, len(s.taint))
            groups.setdefault(key, []).append(s)
        out = []
        for g in groups.values():
            out.extend(self.merge_group(g))
        return out

    def merge_group(self, g):
        changed = True
        while changed and len(g) > 1:
            changed = False
            res = []
            for s in g:
                for i, r in enumerate(res):
                    m = self.merge2(r, s)
                    if m is not None:
                        res[i] = m
                        changed = True
                        break
                else:
                    res.append(s)
            g = res
        return g

    def merge2(self, a, b):
        fa, fb = a.facts, b.facts
        if fa is not fb:
            if fa.sub != fb.sub or fa.preds != fb.preds or fa.ssub != fb.ssub or fa.regs != fb.regs:
                return None
            if fa.dom != fb.dom:
                diff = None
                if len(fa.dom) != len(fb.dom):
                    # one knows more: keep the weaker when it is weaker throughout
                    x, y = (fa, fb) if len(fa.dom) < len(fb.dom) else (fb, fa)
                    for k, v in x.dom.items():
                        w = y.dom.get(k)
                        if w is None or not subset(w, v):
                            return None
                    diff = "weak"
                else:
                    for k, v in fa.dom.items():
                        w = fb.dom.get(k)
                        if w is None:
                            return None
                        if v != w:
                            if diff is not None:
                                return None
                            diff = k
        else:
            x = fa
            diff = None
        if a.ghost != b.ghost or a.iota != b.iota or a.taint != b.taint:
            return None
        if a.mem != b.mem:
            return None
        if fa is fb or fa.dom == fb.dom:
            return a
        if diff == "weak":
            r = a if x is fa else b
            return r
        n = a.fork(fa.copy())
        u = union(fa.dom[diff], fb.dom[diff])
        n.facts.dom[diff] = u
        return n


def has_any(v):
    return isinstance(v, tuple) and bool(v) and (v[0] == "any" or any(has_any(x) for x in v))


FNCALL = re.compile(r"std::ops::(Fn|FnMut|FnOnce)(<.*>)?::call")


def short(path):
    return re.sub(r"\b[a-z_0-9]+::(?=[A-Za-z_{<])", "", re.sub(r"<[^<>]*>", "", path)) or path


def short_file(f):
    return (f or "?").replace("/repo/", "")


def subst_val(v, m):
    """replace integer terms (by id) in a value or term"""
    return _sv(v, m)


def subst_lin(l, m):
    out = None
    for n, (i, k) in enumerate(l.t):
        r = m.get(i)
        if r is None:
            d = DEPS[i]
            if d and not d.isdisjoint(m):
                t = _sv(TERMS[i], m)
                r = rebuilt(t, BASE[i])
        if r is None:
            if out is not None:
                out = add(out, Lin(0, ((i, k),)))
            continue
        if out is None:
            out = Lin(l.c, l.t[:n])
        out = add(out, r, k)
    return l if out is None else out


_RB = Facts()


def rebuilt(t, base):
    return _RB.rebuild(t, base)


def _sv(v, m):
    out = None
    for n, x in enumerate(v):
        if isinstance(x, Lin):
            y = subst_lin(x, m)
        elif isinstance(x, tuple):
            y = _sv(x, m)
        else:
            continue
        if y is not x:
            if out is None:
                out = list(v)
            out[n] = y
    if out is None:
        return v
    r = tuple(out)
    if r and r[0] == "str":
        return strv(r[1])
    return r
