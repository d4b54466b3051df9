"""Loop invariants.

A loop head is described by a table of classes.  A class is a shape (which
variants, which constant flags, which live values) together with a template
for the values and a set of invariant forms over the template's leaves.  Each
arrival at the head is matched against its class: leaves that differ become
functions of the iteration number, invariant forms that no longer hold are
weakened or dropped, and the body is analysed again until nothing changes.

Leaves that advance by a constant are kept as closed forms.  Sequences that
grow by one element per iteration become families indexed by the iteration
that appended the element; other modified sequences become families of which
only facts common to all elements are known (values that agree in all elements
of several sequences stay shared).

After the fixpoint the facts of every way round the loop are kept as a region:
for each j below the iteration count one of its alternatives holds.
"""
from lin import *
from facts import *
from engine import *
from engine import Unsupported

BV = V(("bv", 0))
BVI = BV.t[0][0]
LIM = 40


class Restart(Exception):
    pass


def dep(x, ii):
    """does the value, term or form mention integer term ii"""
    if isinstance(x, Lin):
        for i, _ in x.t:
            if i == ii or ii in DEPS[i]:
                return True
        return False
    if isinstance(x, tuple):
        return any(dep(y, ii) for y in x if isinstance(y, (tuple, Lin)))
    return False


def norm_val(f, v):
    if isinstance(v, Lin):
        return f.norm(v)
    if not isinstance(v, tuple):
        return v
    if v and v[0] == "str":
        return f.norm_str(v)
    if v and v[0] == "bool":
        r = f.ask(v[1]) if v[1] is not None else None
        return ("bool", r) if r is not None else v
    out = None
    for n, x in enumerate(v):
        if isinstance(x, (Lin, tuple)):
            y = norm_val(f, x)
            if y is not x and y != x:
                if out is None:
                    out = list(v)
                out[n] = y
    return v if out is None else tuple(out)


def complex_item(v):
    if v[0] in ("bool", "sym", "seq"):
        return True
    if v[0] == "adt" and v[2] != 0:
        return True
    return any(complex_item(x) for x in v if isinstance(x, tuple) and x and isinstance(x[0], (str, tuple)))


class Class:
    __slots__ = ("key", "mem", "inv", "cs", "bumps", "n", "first", "visited", "lo", "only0")


class Table:
    def __init__(self, E, site, outer, entry, glob=False):
        self.E = E
        self.apart = E.watch is not None
        self.closed = True
        self.site = site
        self.outer = outer
        self.iota = V(("it", site, outer), NONNEG)
        self.ii = self.iota.t[0][0]
        self.mods = {}
        self.csym = set()
        self.bools = {}
        self.glob = glob
        self.entry = entry
        self.base = entry.facts
        self.reset()

    def reset(self):
        self.classes = {}
        self.shape = {}
        self.names = 0
        self.cnames = {}
        self.regs = []
        self.defs = []

    # ---- preparing an arrival ----------------------------------------------
    def prepare(self, s):
        E = self.E
        work = [s]
        done = []
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 256:
                raise Unsupported("too many cases at a loop head")
            f = s.facts
            nm = {}
            split = None
            for loc, v in s.mem.items():
                v = norm_val(f, v)
                nm[loc] = v
            s.mem = nm
            for loc in nm:
                split = self.find_split(s, nm[loc], (loc,))
                if split is not None:
                    break
            if split is not None:
                work.extend(split())
                continue
            mem = {}
            for loc, v in nm.items():
                mem[loc] = self.canon(s, v, (loc,))
            done.append((s, mem))
        return done

    def find_split(self, s, v, pos):
        k = v[0]
        E = self.E
        if k == "bool":
            if v[1] is True or v[1] is False or v[1] is None:
                return None
            if self.bools.get(pos) == v[1]:
                return None
            return lambda: [x for _, x in E.branch(s, v[1])]
        if k == "seq":
            mode = self.mods.get(pos)
            if mode == "L":
                if v[1] and v[1][-1][0] == "fam":
                    return lambda: self.split_last(s, v, pos)
                if v[1]:
                    return self.find_split(s, v[1][-1][1], pos + ("L",))
                return None
            if mode == "FL":
                if not v[1]:
                    return None
                if v[1][0][0] == "fam":
                    return lambda: self.split_first(s, v, pos)
                if len(v[1]) == 1:
                    return self.find_split(s, v[1][0][1], pos + ("L",))
                if v[1][-1][0] == "fam":
                    return lambda: self.split_last(s, v, pos)
                return self.find_split(s, v[1][-1][1], pos + ("L",))
            if mode is None:
                for n, sg in enumerate(v[1]):
                    if sg[0] == "i":
                        r = self.find_split(s, sg[1], pos + (n,))
                        if r is not None:
                            return r
            return None
        if k in ("adt", "tup", "clo", "ref", "box"):
            fs = v[3] if k == "adt" else v[2] if k == "clo" else v[1] if k == "tup" else (v[1],)
            for n, x in enumerate(fs):
                r = self.find_split(s, x, pos + (n,))
                if r is not None:
                    return r
        return None

    def split_last(self, s, v, pos):
        import models
        E = self.E
        out = []
        first = ()
        if self.mods.get(pos) == "FL":
            first = v[1][:1]
            v = ("seq", v[1][1:])
        for x, e, w in models.split_empty(E, s, v):
            if e:
                self.put(x, pos, ("seq", first))
                out.append(x)
            else:
                for y, el, rest in models.take_last(E, x, w):
                    self.put(y, pos, ("seq", first + rest[1] + (("i", el),)))
                    out.append(y)
        return out

    def split_first(self, s, v, pos):
        import models
        E = self.E
        out = []
        for x, e, w in models.split_empty(E, s, v):
            if e:
                self.put(x, pos, ("seq", ()))
                out.append(x)
            else:
                for y, el, rest in models.take_first(E, x, w):
                    self.put(y, pos, ("seq", (("i", el),) + rest[1]))
                    out.append(y)
        return out

    def put(self, s, pos, new):
        def up(v, n):
            if n == len(pos):
                return new
            k = v[0]
            i = pos[n]
            if k == "seq":
                segs = list(v[1])
                if i == "L":
                    i = len(segs) - 1
                segs[i] = ("i", up(segs[i][1], n + 1))
                return ("seq", tuple(segs))
            if k == "adt":
                fs = list(v[3])
                fs[i] = up(fs[i], n + 1)
                return v[:3] + (tuple(fs),)
            if k == "clo":
                fs = list(v[2])
                fs[i] = up(fs[i], n + 1)
                return v[:2] + (tuple(fs),)
            if k == "tup":
                fs = list(v[1])
                fs[i] = up(fs[i], n + 1)
                return ("tup", tuple(fs))
            return (k, up(v[1], n + 1))
        s.mem = dict(s.mem)
        s.mem[pos[0]] = up(s.mem[pos[0]], 1)

    def canon(self, s, v, pos):
        k = v[0]
        if k == "seq":
            mode = self.mods.get(pos)
            if mode is None:
                sh = tuple(sg[0] for sg in v[1])
                old = self.shape.setdefault(pos, (sh, v))
                if old[0] != sh:
                    self.modify(s, pos, old[1], v)
                return ("seq", tuple(
                    ("i", self.canon(s, sg[1], pos + (n,))) if sg[0] == "i" else sg for n, sg in enumerate(v[1])))
            if mode == "C":
                return self.canon_c(s, v, pos)
            if mode == "L":
                if not v[1]:
                    return ("cseq", "L", (), None, pos)
                return ("cseq", "L", v[1][:-1], self.canon(s, v[1][-1][1], pos + ("L",)), pos)
            if mode == "FL":
                if not v[1]:
                    return ("cseq", "FL", (), None, pos, None)
                if len(v[1]) == 1:
                    return ("cseq", "FL", (), self.canon(s, v[1][0][1], pos + ("L",)), pos, None)
                return ("cseq", "FL", v[1][1:-1], self.canon(s, v[1][-1][1], pos + ("L",)), pos,
                        self.canon(s, v[1][0][1], pos + ("F",)))
            if mode == "S" and len(v[1]) <= 3 and all(sg[0] == "i" for sg in v[1]):
                return ("seq", tuple(("i", self.canon(s, sg[1], pos + (n,))) for n, sg in enumerate(v[1])))
            return ("cseq", "F", v[1], None, pos)
        if k == "adt":
            return v[:3] + (tuple(self.canon(s, x, pos + (n,)) for n, x in enumerate(v[3])),)
        if k == "tup":
            return ("tup", tuple(self.canon(s, x, pos + (n,)) for n, x in enumerate(v[1])))
        if k == "clo":
            return v[:2] + (tuple(self.canon(s, x, pos + (n,)) for n, x in enumerate(v[2])),)
        if k in ("ref", "box"):
            return (k, self.canon(s, v[1], pos + (0,)))
        return v

    def modify(self, s, pos, old, new):
        segs = [sg for sg in new[1] + old[1]]
        if any(sg[0] not in ("i", "fam") for sg in segs):
            raise Unsupported("loop over a composite sequence")
        n = len(old[1])
        if not self.glob and pos not in self.mods and len(new[1]) == n + 1 and new[1][:n] == norm_val(s.facts, old)[1] and new[1][-1][0] == "i":
            self.mods[pos] = "C"
            self.cinfo = getattr(self, "cinfo", {})
            self.cinfo[pos] = old[1]
        else:
            self.mods[pos] = self.flmode(segs)
        raise Restart()

    def flmode(self, segs):
        if any(complex_item(sg[1]) for sg in segs):
            return "FL" if self.glob else "L"
        # a few strings stay explicit, as part of the class
        if self.glob and all(sg[1][0] == "str" for sg in segs):
            return "S"
        return "F"

    def canon_c(self, s, v, pos):
        """append-only sequence: entry part, one element per iteration so far, at most one more"""
        pre = self.cinfo[pos]
        n = len(pre)
        segs = v[1]
        ok = segs[:n] == norm_val(s.facts, ("seq", pre))[1]
        rest = segs[n:] if ok else None
        if ok and not rest:
            return ("cseq", "C", (), None, pos)
        if ok and len(rest) == 1 and rest[0][0] == "i":
            return ("cseq", "C", (), rest[0][1], pos)
        if ok and len(rest) == 2 and rest[0][0] == "fam" and rest[1][0] == "i" and rest[0][4] == self.iota:
            return ("cseq", "C", (rest[0],), rest[1][1], pos)
        self.mods[pos] = self.flmode(segs)
        raise Restart()

    def shape_key(self, v):
        k = v[0]
        if k == "int":
            return "i"
        if k == "str":
            return "s"
        if k == "bool":
            return v[1] if v[1] is True or v[1] is False else "b"
        if k == "cseq":
            if v[1] == "C":
                return "C"
            if v[1] == "F":
                return "F"
            if v[1] == "FL":
                return ("FL", None if v[3] is None else self.shape_key(v[3]),
                        None if v[5] is None else self.mask_bools(self.shape_key(v[5])))
            return ("L", None if v[3] is None else self.shape_key(v[3]))
        if k == "seq":
            return ("seq",) + tuple(self.shape_key(s[1]) if s[0] == "i" else s[0] for s in v[1])
        if k == "adt":
            return ("a", v[1], v[2]) + tuple(self.shape_key(x) for x in v[3])
        if k == "tup":
            return ("t",) + tuple(self.shape_key(x) for x in v[1])
        if k == "clo":
            return ("c", v[1]) + tuple(self.shape_key(x) for x in v[2])
        if k in ("ref", "box"):
            return (k, self.shape_key(v[1]))
        if k == "ptr":
            return ("ptr", v[1]) + tuple(e if e[0] != "I" else "I" for e in v[2])
        if k in ("sym", "opq"):
            return (k, v[2])
        if k == "it":
            return ("it", v[1]) + tuple(self.mask(x) for x in v[2:])
        if k == "any":
            return "any"
        return self.mask(v)

    def mask(self, x):
        if isinstance(x, Lin):
            return "i"
        if isinstance(x, tuple):
            if x and x[0] == "str":
                return "s"
            return tuple(self.mask(y) for y in x)
        return x

    def mask_bools(self, k):
        if k is True or k is False:
            return "b"
        if isinstance(k, tuple):
            return tuple(self.mask_bools(x) for x in k)
        return k

    def key(self, x, mem, where=None):
        return (where, x.cs, len(x.taint) > 0, tuple(sorted(
            ((repr(l), self.shape_key(v)) for l, v in mem.items()))))

    # ---- arrivals ----------------------------------------------------------
    def arrive(self, s, at, where=None):
        """[(class, changed)]"""
        out = []
        for x, mem in self.prepare(s):
            key = self.key(x, mem, where)
            c = self.classes.get(key)
            if c is None:
                c = Class()
                c.key = key
                c.cs = x.cs
                c.inv = {}
                c.bumps = {}
                c.n = 1
                c.only0 = at == ZERO
                c.lo = self.low(x, at)
                # the only iteration number seen so far, when there is one
                c.first = x.facts.norm(at) if not self.glob else self.iota
                c.visited = False
                self.classes[key] = c
                g = Gen(self, c, x, at)
                c.mem = g.create(mem)
                self.taints = getattr(self, "taints", {})
                self.taints[key] = x.taint
                g.finish()
                out.append((c, True))
            else:
                c.n += 1
                if c.bumps.get("changes", 0) > 200:
                    raise Unsupported("loop invariant does not settle")
                wider = False
                if c.only0 and at != ZERO:
                    c.only0 = False
                    wider = True
                lo = self.low(x, at)
                if lo < c.lo:
                    c.lo = lo
                    wider = True
                g = Gen(self, c, x, at)
                old = c.mem
                g.before = (old, dict(c.inv))
                c.mem = g.join(mem)
                ch = g.finish() or wider or c.mem != old
                if ch:
                    c.bumps["changes"] = c.bumps.get("changes", 0) + 1
                out.append((c, ch))
        return out

    def low(self, x, at):
        if self.glob:
            return 0
        r = x.facts.rng(x.facts.norm(at))
        return max(0, min(r[0][0], 3)) if r else 0

    def state(self, c):
        """the class as a state"""
        s = State()
        s.cs = c.cs
        s.iota = self.outer + (self.iota,)
        s.taint = self.taints[c.key]
        f = self.base
        if not self.glob:
            f = f.assume(c_eq(self.iota, ZERO) if c.only0 else c_le(K(c.lo), self.iota))[0]
        for form, (iset_, _) in c.inv.items():
            r = f.assume(c_in(Lin(0, form), iset_))
            if not r:
                return None
            f = r[0]
        for v in c.mem.values():
            for n in lengths(v):
                r = f.assume(c_le(ZERO, n))
                if not r:
                    return None
                f = r[0]
        s.facts = f
        s.mem = {l: self.real(v) for l, v in c.mem.items()}
        return s

    def real(self, v):
        k = v[0]
        if k == "cseq":
            mode, tm, n, last, pos = v[1:6]
            segs = ()
            if mode == "FL":
                if v[6] is not None:
                    segs = (("i", self.real(v[6])),)
                    if tm is not None and not (not n.t and n.c == 0):
                        segs = segs + (("fam", tm, BVI, ZERO, n),)
                if last is not None:
                    segs = segs + (("i", self.real(last)),)
                return ("seq", segs)
            if mode == "C":
                segs = self.cinfo[pos]
                if tm is not None:
                    segs = segs + (("fam", tm, BVI, ZERO, self.iota),)
                return ("seq", segs)
            if tm is not None and not (not n.t and n.c == 0):
                segs = (("fam", tm, BVI, ZERO, n),)
            if last is not None:
                segs = segs + (("i", self.real(last)),)
            return ("seq", segs)
        if k == "seq":
            return ("seq", tuple(("i", self.real(s[1])) if s[0] == "i" else s for s in v[1]))
        if k == "adt":
            return v[:3] + (tuple(self.real(x) for x in v[3]),)
        if k == "tup":
            return ("tup", tuple(self.real(x) for x in v[1]))
        if k == "clo":
            return v[:2] + (tuple(self.real(x) for x in v[2]),)
        if k in ("ref", "box"):
            return (k, self.real(v[1]))
        return v

    def fresh(self, what):
        self.names += 1
        return "%s.%s%d" % (self.site, what, self.names)

    def atom(self, what, idx=None):
        return ("v", self.fresh(what), self.outer + (self.iota,) + ((idx,) if idx is not None else ()))


def lengths(v):
    """lengths of the generalised sequences in a value"""
    if isinstance(v, tuple):
        if v and v[0] == "cseq":
            if isinstance(v[3], Lin):
                yield v[3]
            for x in v[4:]:
                yield from lengths(x)
        else:
            for x in v:
                yield from lengths(x)


def is_atom(l):
    return len(l.t) == 1 and l.t[0][1] == 1 and TERMS[l.t[0][0]][0] == "v"


def rebuild_app(x, s):
    if x[0] == "f":
        return ("f", rebuild_app(x[1], s)) + x[2:]
    return (x[0], s)


class Gen:
    """matching one arrival against a class"""

    def __init__(self, tab, cls, s, at):
        self.T = tab
        self.c = cls
        self.s = s
        self.f = s.facts
        self.at = at
        self.ii = tab.ii
        self.sh = {self.ii: at}
        self.map = {}        # atom id -> Lin in the arriving state
        self.omap = {}       # new atom id -> (Lin in the class, Lin in arrival)
        self.memo = {}
        self.leaves = []     # (new template Lin, old template Lin or None, arriving Lin)
        self.fm = {}
        self.changed = False

    # ---- first arrival -----------------------------------------------------
    def create(self, mem):
        return {l: self.cr(v) for l, v in mem.items()}

    def back(self, l):
        """arriving value as a function of the new iteration number"""
        if self.at == ZERO or not dep(l, self.ii):
            return l
        return subst_lin(l, {self.ii: addk(self.T.iota, -1)})

    def cr_int(self, e):
        if not dep(e, self.ii):
            self.leaves.append((e, None, e))
            return e
        if all(i == self.ii or self.ii not in DEPS[i] for i, _ in e.t):
            t = self.back(e)
            self.leaves.append((t, None, e))
            return t
        b = Lin(0, e.t)
        ap = self.applied(e)
        if ap is not None:
            return addk(V(rebuild_app(TERMS[e.t[0][0]], self.cr_str(ap))), e.c)
        a = self.memo.get(("i", b))
        if a is None:
            a = self.memo[("i", b)] = V(self.T.atom("a"))
        t = addk(a, e.c)
        self.leaves.append((t, None, e))
        self.map[a.t[0][0]] = b
        return t

    def cr(self, v):
        return self.walk1(v)

    def walk1(self, v):
        if isinstance(v, Lin):
            return self.cr_int(v)
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k == "str":
            return self.cr_str(v)
        if k == "bool":
            if v[1] in (True, False, None) or not dep(v[1], self.ii):
                return v
            return ("bool", ("p", self.term_memo("b", v[1])))
        if k in ("sym", "opq"):
            if not dep(v[1], self.ii):
                return v
            return (k, self.term_memo(k, v[1]), v[2])
        if k == "cseq":
            return self.cseq(None, v)
        if k in ("in", "p", "n"):
            return v
        if k == "fam":
            return (k, self.walk_fam(v[1]), v[2], self.walk1(v[3]), self.walk1(v[4]))
        return tuple(self.walk1(x) if isinstance(x, (tuple, Lin)) else x for x in v)

    def walk_fam(self, t):
        if dep(t, self.ii):
            raise Unsupported("family that changes in a loop")
        return t

    def term_memo(self, what, key):
        t = self.memo.get((what, key))
        if t is None:
            t = self.memo[(what, key)] = self.T.atom(what)
        return t

    def cr_str(self, v):
        if not dep(v, self.ii):
            return v
        if all(p[0] in ("l", "tx", "c") for p in v[1]):
            return ("str", tuple((p[0],) + tuple(self.cr_int(x) if isinstance(x, Lin) else x for x in p[1:]) for p in v[1]))
        return ("str", (("t", self.term_memo("s", v)),))

    # ---- joining -----------------------------------------------------------
    def join(self, mem):
        self.changed = False
        return {l: self.au(self.c.mem[l], v) for l, v in mem.items()}

    def eq(self, t, e):
        d = self.f.norm(sub(subst_lin(t, self.sh), e))
        return not d.t and d.c == 0 or (d.t and self.f.ask(c_eq(d, ZERO)) is True)

    def applied(self, e):
        """the string of an expression that is the identifier of a string"""
        if self.T.glob and len(e.t) == 1 and e.t[0][1] == 1:
            x = TERMS[e.t[0][0]]
            while x[0] == "f":
                x = x[1]
            if x[0] in ("pid", "nid"):
                return x[1]
        return None

    def au_int(self, t, e):
        ap, bp = self.applied(t), self.applied(e)
        if ap is not None and bp is not None and t.c == e.c and rebuild_app(TERMS[t.t[0][0]], None) == rebuild_app(TERMS[e.t[0][0]], None):
            return addk(V(rebuild_app(TERMS[t.t[0][0]], self.au_str(ap, bp))), t.c)
        if is_atom(Lin(0, t.t)) and dep(t, self.ii):
            a = t.t[0][0]
            b = addk(e, -t.c)
            old = self.map.get(a)
            if old is None:
                self.map[a] = b
                self.memo[("i", a, b)] = Lin(0, t.t)
                self.leaves.append((t, t, e))
                return t
            if old == b or self.f.ask(c_eq(old, b)) is True:
                self.leaves.append((t, t, e))
                return t
            n = self.memo.get(("i", a, b))
            if n is None:
                n = self.memo[("i", a, b)] = V(self.T.atom("a"))
                self.map[n.t[0][0]] = b
                self.omap[n.t[0][0]] = Lin(0, t.t)
                self.changed = True
            r = addk(n, t.c)
            self.leaves.append((r, t, e))
            return r
        if self.eq(t, e):
            self.leaves.append((t, t, e))
            return t
        self.changed = True
        if self.T.apart and self.T.closed and any(i == self.ii for i, _ in t.t):
            # it did not keep advancing like that
            self.T.closed = False
            raise Restart()
        # advances by a constant from the entry value
        if self.T.closed and not self.c.first.t and self.c.n == 2 and not dep(t, self.ii) and self.at != ZERO:
            it = addk(self.T.iota, -self.c.first.c)
            d = self.f.norm(sub(e, t))
            if not dep(d, self.ii) and not d.t:
                r = add(t, mulk(it, d.c))
                self.leaves.append((r, t, e))
                return r
            if dep(e, self.ii):
                e0 = subst_lin(e, {self.ii: self.c.first})
                d = self.f.norm(sub(e0, t))
                if not d.t and not dep(d, self.ii):
                    r = add(t, mulk(it, d.c))
                    self.leaves.append((r, t, e))
                    return r
            r = self.region_leaf(t, e) if self.c.first.c == 0 else None
            if r is not None:
                self.leaves.append((r, t, e))
                return r
        key = ("ii", addk(t, -t.c), addk(e, -t.c))
        n = self.memo.get(key)
        if n is None:
            n = self.memo[key] = V(self.T.atom("a"))
            self.map[n.t[0][0]] = key[2]
            self.omap[n.t[0][0]] = key[1]
        r = addk(n, t.c)
        self.leaves.append((r, t, e))
        return r

    def region_leaf(self, t, e):
        """an earlier loop's variable that starts with the same value"""
        for reg in self.f.regs:
            for lf in reg[4]:
                b = reg[2].t[0][0]
                if not dep(lf, b):
                    continue
                z = self.f.norm(subst_lin(lf, {b: ZERO}))
                if self.f.ask(c_eq(z, t)) is True:
                    o = self.f.norm(subst_lin(lf, {b: ONE}))
                    if self.f.ask(c_eq(o, e)) is True:
                        return subst_lin(lf, {b: self.T.iota})
        return None

    def au(self, t, e):
        if isinstance(t, Lin):
            return self.au_int(t, e)
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k == "str":
            return self.au_str(t, e)
        if k == "bool":
            if t[1] is None or e[1] is None:
                return ("bool", None)
            if e[1] == t[1] and not dep(t[1], self.ii):
                return t
            return ("bool", ("p", self.au_term("b", t[1], e[1])))
        if k in ("sym", "opq"):
            if t[1] == e[1] and not dep(t[1], self.ii):
                return t
            return (k, self.au_term(k, t[1], e[1]), t[2])
        if k == "cseq":
            return self.cseq(t, e)
        if k == "fam":
            if t[1] != e[1]:
                raise Unsupported("family that changes in a loop")
            return (k, t[1], t[2], self.au(t[3], e[3]), self.au(t[4], e[4]))
        if k in ("in", "p", "n"):
            return t
        if len(t) != len(e):
            raise Unsupported("shapes differ at a loop head")
        return tuple(self.au(x, y) if isinstance(x, (tuple, Lin)) else x for x, y in zip(t, e))

    def au_term(self, what, t, e):
        if isinstance(t, tuple) and t and t[0] == "p":
            t = t[1]
        if isinstance(t, tuple) and t and t[0] == "v" and dep(t, self.ii):
            old = self.memo.get((what, t))
            if old is None:
                self.memo[(what, t)] = e
                self.memo[(what, t, e)] = t
                return t
            if old == e:
                return t
        n = self.memo.get((what, t, e))
        if n is None:
            n = self.memo[(what, t, e)] = self.T.atom(what)
            self.changed = True
        return n

    def au_str(self, t, e):
        if t == e and not dep(t, self.ii):
            return t
        a = t[1]
        if len(a) == 1 and a[0][0] == "t" and a[0][1][0] == "v" and dep(a[0][1], self.ii):
            return ("str", (("t", self.au_term("s", a[0][1], e)),))
        if len(a) == len(e[1]) and a and all(
                p[0] == q[0] and p[0] in ("l", "tx", "c") and (p[0] != "l" or p == q) for p, q in zip(a, e[1])):
            return ("str", tuple((p[0],) + tuple(
                self.au_int(x, y) if isinstance(x, Lin) else x for x, y in zip(p[1:], q[1:])) for p, q in zip(a, e[1])))
        return ("str", (("t", self.au_term("s", t, e)),))

    # ---- sequences ---------------------------------------------------------
    def cseq(self, t, v):
        mode, pieces, last, pos = v[1:5]
        if mode == "C":
            return self.cseq_c(t, v)
        n = ZERO
        for p in pieces:
            n = add(n, ONE if p[0] == "i" else sub(p[4], p[3]))
        n = self.f.norm(n)
        if t is None:
            nn = self.cr_int(n)
            old = None
        else:
            nn = self.au_int(t[3], n)
            old = t[2]
        grp = (None if t is None else t[3], tuple(
            ONE if p[0] == "i" else self.f.norm(sub(p[4], p[3])) for p in pieces))
        vals = []
        for p in pieces:
            vals.append(p[1] if p[0] == "i" else subst_val(p[1], {p[2]: BV}))
        if not vals and old is None:
            tm = None
        elif not vals:
            tm = old
        else:
            tm = self.fam([old] + vals, grp)
        nl = None
        if last is not None:
            nl = self.walk1(last) if t is None else self.au(t[4], last)
        if mode == "FL":
            nf = None
            if v[5] is not None:
                nf = self.walk1(v[5]) if t is None else self.au(t[6], v[5])
            return ("cseq", mode, tm, nn, nl, pos, nf)
        return ("cseq", mode, tm, nn, nl, pos)

    def fam(self, vals, grp):
        """template common to all"""
        some = [x for x in vals if x is not None]
        a = some[0]
        if isinstance(a, Lin):
            return self.fam_int(vals, grp)
        if not isinstance(a, tuple) or not a:
            return a
        k = a[0]
        if all(x == a for x in some) and not dep(a, self.ii) and not dep(a, BVI):
            return a
        if k == "str":
            return ("str", (("t", self.fam_term("fs", vals, grp, lambda x: x[1][0][1] if len(x[1]) == 1 and x[1][0][0] == "t" else None)),))
        if k == "bool":
            if all(x[1] is True for x in some) or all(x[1] is False for x in some):
                return a
            return ("bool", ("p", self.fam_term("fb", vals, grp, lambda x: x[1][1] if isinstance(x[1], tuple) and x[1][0] == "p" else None)))
        if k in ("sym", "opq") or (k == "adt" and any(x[0] != "adt" or x[2] != a[2] for x in some)):
            ty = a[2] if k != "adt" else a[1]
            return ("sym", self.fam_term("fy", vals, grp, lambda x: x[1] if x[0] == "sym" else None), ty)
        if k == "seq":
            if all(x == a for x in some):
                return a
            raise Unsupported("sequences inside elements differ")
        if any(len(x) != len(a) for x in some):
            raise Unsupported("elements of different shapes")
        return tuple(
            self.fam([None if x is None else x[i] for x in vals], grp) if isinstance(y, (tuple, Lin)) else y
            for i, y in enumerate(a))

    def fam_self(self, t):
        return isinstance(t, tuple) and t and t[0] == "v" and dep(t, BVI) and dep(t, self.ii)

    def fam_int(self, vals, grp):
        some = [x for x in vals if x is not None]
        if all(x == some[0] for x in some) and not some[0].t:
            return some[0]
        # leaves that differ by a constant everywhere share their atom
        c = some[0].c
        return addk(self.fam_base([None if x is None else addk(x, -c) for x in vals], grp), c)

    def fam_base(self, vals, grp):
        old, ps = vals[0], vals[1:]
        key = (grp, tuple(vals))
        r = self.fm.get(key)
        if r is not None:
            return r
        rg = EMPTY
        for p in ps:
            rg = union(rg, self.hull(self.f.rng(self.f.norm(p))))
        if old is not None and is_atom(old) and self.fam_self(TERMS[old.t[0][0]]):
            o = BASE[old.t[0][0]]
            used = self.fm.get(("used", old))
            if (used is None or used == key) and subset(rg, o):
                self.fm[("used", old)] = key
                self.fm[key] = old
                return old
            rg = union(rg, o)
        elif old is not None:
            rg = union(rg, self.hull(self.f.rng(old)) if not old.t else ALL)
        self.changed = True
        self.c.bumps["fam"] = self.c.bumps.get("fam", 0) + 1
        rg = self.hull(rg)
        if self.c.bumps["fam"] > 60 and rg:
            rg = NONNEG if rg[0][0] >= 0 else ((-1, INF),) if rg[0][0] >= -1 else ALL
        r = V(self.T.atom("f", BV), rg if rg else ALL)
        self.fm[key] = r
        self.fm[("used", r)] = key
        return r

    @staticmethod
    def hull(r):
        return ((r[0][0], r[-1][1]),) if r else r

    def fam_term(self, what, vals, grp, get):
        key = (what, grp, tuple(vals))
        r = self.fm.get(key)
        if r is not None:
            return r
        old = vals[0]
        t = get(old) if old is not None else None
        if t is not None and self.fam_self(t):
            used = self.fm.get(("used", t))
            if used is None or used == key:
                self.fm[("used", t)] = key
                self.fm[key] = t
                return t
        self.changed = True
        r = self.T.atom(what, BV)
        self.fm[key] = r
        self.fm[("used", r)] = key
        return r

    def cseq_c(self, t, v):
        mode, pieces, last, pos = v[1:5]
        T = self.T
        old = None if t is None else t[2]
        if last is None:
            return ("cseq", "C", old, None, None, pos)
        if self.at == ZERO:
            T.mods[pos] = T.flmode((("i", last),))
            raise Restart()
        if old is None:
            self.changed = True
            tm = self.c_new(last, pos, ())
        else:
            tm = self.c_match(old, last, pos, ())
        return ("cseq", "C", tm, None, None, pos)

    def c_name(self, pos, path, what):
        T = self.T
        n = T.cnames.get((pos, path, what))
        if n is None:
            n = T.cnames[(pos, path, what)] = T.fresh("c")
        return n

    def c_atom(self, pos, path, what, idx):
        return ("v", self.c_name(pos, path, what), self.T.outer + (idx,))

    def c_new(self, v, pos, path):
        """element with a function of its iteration in place of each leaf"""
        if isinstance(v, Lin):
            if not v.t:
                return v
            r = V(self.c_atom(pos, path, "i", BV))
            return r
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k == "str":
            if len(v[1]) == 1 and v[1][0][0] == "tx":
                return ("str", (("tx", self.c_new(v[1][0][1], pos, path + (0,)), self.c_new(v[1][0][2], pos, path + (1,))),))
            if all(p[0] == "l" for p in v[1]) and v[1]:
                return v
            return ("str", (("t", self.c_atom(pos, path, "s", BV)),))
        if k == "bool":
            return v if v[1] in (True, False) else ("bool", ("p", self.c_atom(pos, path, "b", BV)))
        if k in ("sym", "opq"):
            return (k, self.c_atom(pos, path, "y", BV), v[2])
        if k == "adt" and (pos, path) in self.T.csym:
            return ("sym", self.c_atom(pos, path, "y", BV), v[1])
        if k == "seq":
            if not v[1]:
                return v
            raise Unsupported("sequence inside an appended element")
        return tuple(self.c_new(x, pos, path + (i,)) if isinstance(x, (tuple, Lin)) else x for i, x in enumerate(v))

    def c_match(self, t, v, pos, path):
        """the element appended in this iteration against the template; records what each leaf is"""
        T = self.T
        if isinstance(t, Lin):
            if t == v and not t.t:
                return t
            a = V(self.c_atom(pos, path, "i", BV))
            if t != a:
                self.changed = True
            self.note_def(c_eq(V(self.c_atom(pos, path, "i", T.iota)), v))
            return a
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k == "str":
            if v[0] == "str" and len(v[1]) == 1 and v[1][0][0] == "tx" and len(t[1]) == 1 and t[1][0][0] == "tx":
                return ("str", (("tx", self.c_match(t[1][0][1], v[1][0][1], pos, path + (0,)),
                                 self.c_match(t[1][0][2], v[1][0][2], pos, path + (1,))),))
            if len(t[1]) == 1 and t[1][0][0] == "tx" and v == EMPTYSTR:
                z = V(self.c_atom(pos, path + (0,), "i", T.iota))
                self.note_def(c_eq(z, V(self.c_atom(pos, path + (1,), "i", T.iota))))
                return t
            if t == v and all(p[0] == "l" for p in v[1]):
                return t
            a = ("str", (("t", self.c_atom(pos, path, "s", BV)),))
            if a != t:
                self.changed = True
            self.note_def(c_streq(("str", (("t", self.c_atom(pos, path, "s", T.iota)),)), v))
            return a
        if k == "bool":
            if t[1] in (True, False) and t == v:
                return t
            a = ("bool", ("p", self.c_atom(pos, path, "b", BV)))
            if a != t:
                self.changed = True
            return a
        if k == "adt" and (v[0] != "adt" or v[2] != t[2]):
            T.csym.add((pos, path))
            raise Restart()
        if k == "sym":
            for c in sym_is(T.E, ("sym", self.c_atom(pos, path, "y", T.iota), t[2]), v):
                self.note_def(c)
            return t
        if k == "opq":
            return t
        if k == "seq":
            if t == v:
                return t
            T.mods[pos] = "F"
            raise Restart()
        if len(t) != len(v):
            T.mods[pos] = "F"
            raise Restart()
        return tuple(self.c_match(x, y, pos, path + (i,)) if isinstance(x, (tuple, Lin)) else x
                     for i, (x, y) in enumerate(zip(t, v)))

    def note_def(self, c):
        self.T.defs.append(c)

    # ---- invariant forms ---------------------------------------------------
    def finish(self):
        """update the class's invariant forms; True when something changed"""
        c, f = self.c, self.f
        ch = self.changed
        full = dict(self.sh)
        full.update(self.map)
        first = c.n == 1
        # existing forms
        cf = None
        if not first:
            for form, (s, grow) in list(c.inv.items()):
                ok = all(i in full or self.ii not in DEPS[i] or known_fun(i, full, self.ii) for i, _ in form)
                if not ok:
                    del c.inv[form]
                    ch = True
                    continue
                e = f.norm(subst_lin(Lin(0, form), full))
                r = rng_of(f, e)
                if subset(r, s):
                    continue
                ch = True
                n = union(s, r)
                if len(form) > 1:
                    n = Gen.hull(n)
                if grow >= 2:
                    # a few steps below before no bound at all: leaves are an atom plus a small constant
                    lo = s[0][0] if n[0][0] >= s[0][0] else next((x for x in (0, -1, -2, -3, -4) if n[0][0] >= x), -INF)
                    hi = s[-1][1] if n[-1][1] <= s[-1][1] else INF
                    n = ((lo, hi),)
                if n == ALL or (len(form) == 1 and n == BASE[form[0][0]]):
                    del c.inv[form]
                else:
                    c.inv[form] = (n, grow + 1)
        else:
            # facts of earlier iterations that do not depend on the iteration
            base = self.T.base
            for form, st in f.dom.items():
                if base.dom.get(form) != st and not dep(Lin(0, form), self.ii):
                    c.inv[form] = (st, 0)
            for i, l in f.sub.items():
                if base.sub.get(i) != l:
                    x = sub(Lin(0, ((i, 1),)), l)
                    if not dep(x, self.ii):
                        form, g = Facts.form(x)
                        if g in (1, -1):
                            c.inv[form] = (iset(-x.c * g), 0)
            # number of iterations before a class reached once only
            at = f.norm(self.at)
            if at.t and not dep(at, self.ii):
                x = sub(self.T.iota, at)
                form, g = Facts.form(x)
                if g in (1, -1):
                    c.inv[form] = (iset(-x.c * g), 0)
        # forms over leaves that are new
        old = {}
        ls = {}
        for t, o, e in self.leaves:
            if t.t and dep(t, self.ii) and Lin(0, t.t) not in ls:
                ls[Lin(0, t.t)] = (None if o is None else addk(o, -t.c), addk(e, -t.c))
        if not ls and self.T.glob:
            return ch
        seen = c.bumps.setdefault("forms", set())
        exts = self.externals()
        items = list(ls.items())
        if not self.T.glob:
            items.append((self.T.iota, (self.T.iota, self.at)))
        cfacts = None
        for mk, rng in LEAF_FUNS:
            for t, o, e in self.leaves:
                form = mk(t).t
                if form in seen or not t.t or not dep(t, self.ii):
                    continue
                seen.add(form)
                r = rng(f, e)
                if not first:
                    if o is None:
                        continue
                    if cfacts is None:
                        cfacts = self.class_facts()
                        if cfacts is None:
                            continue
                    r = union(r, rng(cfacts, o))
                if r and r != BASE[form[0][0]]:
                    c.inv[form] = (r, 0)
                    ch = True
        for n, (t, (o, e)) in enumerate(items):
            if t is self.T.iota:
                others = [(x, x, x) for x in exts if len(x.t) == 1 and TERMS[x.t[0][0]][0] == "len"]
            else:
                others = [(None, None, None)] + [(x, x, x) for x in exts] + [
                    (t2, o2, e2) for t2, (o2, e2) in items[n + 1:]]
                if self.T.apart:
                    # leaves a fixed distance apart
                    for t2, (o2, e2) in items[n + 1:]:
                        d = f.norm(sub(e, e2))
                        if d.t and o2 is not None and not dep(d, self.ii):
                            d = Lin(0, d.t)
                            others.append((add(t2, d), add(o2, d), add(e2, d)))
            for t2, o2, e2 in others:
                lt = t if t2 is None else sub(t, t2)
                if not lt.t or not dep(lt, self.ii):
                    continue
                form, g = Facts.form(lt)
                if form in seen or form == ((self.ii, 1),):
                    continue
                if g not in (1, -1):
                    continue
                seen.add(form)
                if g == -1:
                    lt = Lin(-lt.c, form)
                    le = sub(e2, e) if t2 is not None else mulk(e, -1)
                    lo = None if o is None or (t2 is not None and o2 is None) else (sub(o2, o) if t2 is not None else mulk(o, -1))
                else:
                    lt = Lin(lt.c, form)
                    le = sub(e, e2) if t2 is not None else e
                    lo = None if o is None or (t2 is not None and o2 is None) else (sub(o, o2) if t2 is not None else o)
                off = lt.c
                r = f.rng(f.norm(addk(le, -off)))
                if not first:
                    if lo is None:
                        continue
                    if cfacts is None:
                        cfacts = self.class_facts()
                        if cfacts is None:
                            continue
                    lo = addk(lo, -off)
                    r = union(r, cfacts.rng(cfacts.norm(lo)))
                if len(form) > 1:
                    r = Gen.hull(r)
                if not r or r == ALL:
                    continue
                if r[0][0] <= -INF and r[-1][1] >= INF:
                    continue
                if len(form) == 1 and r == BASE[form[0][0]]:
                    continue
                c.inv[form] = (r, 0)
                ch = True
        return ch

    def class_facts(self):
        """facts of the class before this arrival"""
        c = self.c
        now = (c.mem, c.inv)
        c.mem, c.inv = self.before
        s = self.T.state(c)
        c.mem, c.inv = now
        return None if s is None else s.facts

    def externals(self):
        T = self.T
        ex = getattr(T, "exts", None)
        if ex is None:
            ex = {}
            T.exts = ex
        for t, o, e in self.leaves:
            for l in (o, e):
                if l is None:
                    continue
                for i, _ in l.t:
                    if self.ii not in DEPS[i] and i != self.ii and len(ex) < LIM:
                        ex[((i, 1),)] = True
                if len(l.t) > 1 and not dep(l, self.ii) and len(ex) < LIM:
                    ex[l.t] = True
        for f, s in T.base.dom.items():
            if len(f) == 2 and len(ex) < LIM:
                if ((f[0][0], 1),) in ex or ((f[1][0], 1),) in ex:
                    ex[((f[0][0], 1),)] = True
                    ex[((f[1][0], 1),)] = True
        return [Lin(0, t) for t in ex]


# functions of the leaves whose values are looked for as invariants too: (term of a leaf, range of it under some facts)
LEAF_FUNS = []


def known_fun(i, full, ii):
    t = TERMS[i]
    return any(t[0] == mk.kind for mk, _ in LEAF_FUNS) and all(j in full or ii not in DEPS[j] for j, _ in t[-1].t)


def rng_of(f, l):
    if LEAF_FUNS and len(l.t) == 1 and l.t[0][1] == 1:
        for mk, rng in LEAF_FUNS:
            t = TERMS[l.t[0][0]]
            if t[0] == mk.kind:
                return shift(rng(f, t[-1]), l.c)
    return f.rng(l)


# ---- the fixpoint -------------------------------------------------------------
def site_name(E, st, fr, head):
    key = (st.cs, fr.fn["id"], head)
    n = E.sites.setdefault(("loop",) + key, len(E.sites))
    return "L%d" % n


def advanced_in(fr, inside):
    """locals the loop borrows mutably, and locals it uses at all"""
    body = fr.body
    cache = body.__dict__.setdefault("adv", {})
    key = frozenset(inside)
    r = cache.get(key)
    if r is None:
        muts, used = set(), set()

        def go(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == "ref" and x[2] is True:
                    muts.add(x[1][0])
                if len(x) == 2 and x[0] in ("m", "c") and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                    used.add(x[1][0])
                for y in x:
                    go(y)
        for b in inside:
            go(body.blocks[b][0])
            go(body.blocks[b][2])
        r = cache[key] = (muts, used)
    return r


def explicit_iter(E, s, fr, inside):
    """number of elements left in iterators over known sequences that the loop advances"""
    muts, used = advanced_in(fr, inside)
    n = 0
    for loc, v in s.mem.items():
        if loc[0] != fr.fid:
            continue
        if loc[1] in muts:
            n += _expl(E, v)
        if loc[1] in muts or loc[1] in used:
            w = v
            if w[0] == "ptr" and w[1] in s.mem:
                n += _expl(E, s.mem[w[1]])
    return n


def _expl(E, v):
    if v[0] == "it":
        if v[1] == "seq" and v[2][1] and all(x[0] == "i" for x in v[2][1]):
            return len(v[2][1])
        if v[1] == "pairs":
            return len(v[2])
        if v[1] == "chars":
            ps = v[2][1]
            if ps and all(p[0] in ("l", "c") for p in ps):
                return sum(len(p[1]) if p[0] == "l" else 1 for p in ps)
        return 0
    if v[0] == "adt":
        t = E.ty(v[1])
        if t.get("path") == "std::ops::Range":
            a, b = v[3][0], v[3][1]
            if a[0] == "int" and b[0] == "int" and not a[1].t and not b[1].t:
                n = b[1].c - a[1].c
                return n if 0 < n <= 64 else 0
        return sum(_expl(E, x) for x in v[3])
    if v[0] in ("tup",):
        return sum(_expl(E, x) for x in v[1])
    return 0


def analyse(E, fr, head, state, rets):
    inside = fr.body.loops[head]
    if E.is_global is not None and E.is_global(fr, head):
        if fr.fn["crate"] == "probe":
            return analyse_global(E, fr, head, state, rets)
        # goes round until the next token, where histories are joined
        return unrolled(E, fr, head, [state], rets, inside, 16)
    n = E.explicit or explicit_iter(E, state, fr, inside)
    if n:
        return unrolled(E, fr, head, [state], rets, inside, n)
    key = ("loop", fr.fn["id"], head)
    info = E.loopinfo.setdefault(key, {"fn": fr.fn["path"], "passes": 0, "classes": 0, "failed": None})
    outer = tuple(state.facts.norm(x) if isinstance(x, Lin) else x for x in state.iota or ())
    site = site_name(E, state, fr, head)
    tab = Table(E, site, outer, state)
    note_bools(tab, state)
    rec = E.recording
    E.recording = False
    tries = 0
    try:
        while True:
            try:
                passes = fix(E, fr, head, state, tab, inside)
                break
            except Restart:
                tries += 1
                if tries > 30:
                    raise Unsupported("loop sequences do not settle")
                tab.reset()
    except Unsupported as e:
        E.recording = rec
        info["failed"] = str(e)
        return give_up_loop(E, fr, head, state, rets, inside, str(e))
    E.recording = rec
    info["passes"] = max(info["passes"], passes)
    info["classes"] = max(info["classes"], len(tab.classes))
    # final pass
    exits, myrets, alts, rounds = [], [], [], []
    lv = leaves_of(tab)
    for c in list(tab.classes.values()):
        s = tab.state(c)
        if s is None:
            continue
        r = []
        s.trace = state.trace
        backs, ex = E.region(fr, {head: [s]}, inside, head, r)
        exits.extend(ex)
        myrets.extend(r)
        for b in backs:
            alts.append(alternative(tab, c, b))
        if watched(E, fr):
            rounds.extend((s, b) for b in backs)
    if watched(E, fr):
        progress(E, fr, head, tab, rounds)
    reg = make_region(tab, lv, alts)
    inits = initial(tab, state) if reg is not None else ()
    out = []
    for tb, s in exits:
        s.iota = state.iota
        if reg is None:
            out.append((tb, s))
            continue
        for f in align(with_reg(s.facts, reg, inits), reg):
            out.append((tb, s.fork(f)))
    for s, v in myrets:
        s.iota = state.iota
        if reg is None:
            rets.append((s, v))
            continue
        for f in align(with_reg(s.facts, reg, inits), reg):
            rets.append((s.fork(f), v))
    return out


PROGRESS = "C23:loop goes on for ever"


def watched(E, fr):
    """is the loop one of the library's whose end is asked for"""
    return E.only == "C23" and fr.fn["crate"] == "hml_rs"


def progress(E, fr, head, tab, rounds):
    """every way round the loop is bounded: the number of rounds is, or values that are
    bounded come closer to their bounds, in an order in which none comes before that moves away"""
    where = E.where(fr, fr.body.blocks[head][1])
    left = []
    for s, b in rounds:
        if bounded_above(b.facts, tab.iota, tab.ii):
            E.oblige(b.fork(), True, PROGRESS, where)
        else:
            left.append((b, moves(s, b, tab)))
    while left:
        names = set.intersection(*[set(m) for _, m in left])
        good = [n for n in names if any(m[n] == 1 for _, m in left)]
        if not good:
            break
        for b, m in left:
            if any(m[n] == 1 for n in good):
                E.oblige(b.fork(), True, PROGRESS, where)
        left = [(b, m) for b, m in left if not any(m[n] == 1 for n in good)]
    for b, _ in left:
        E.oblige(b.fork(), None, PROGRESS, where)


def bounded_above(f, x, ii):
    """is x no more than something that is the same in every round"""
    x = f.norm(x)
    if not dep(x, ii):
        return True
    if f.rng(x)[-1][1] < INF:
        return True
    for form in list(f.dom):
        for i, k in form:
            if i == ii or ii in DEPS[i]:
                continue
            y = V(TERMS[i])
            if f.rng(f.norm(sub(x, y)))[-1][1] < INF:
                return True
    return False


def moves(s, b, tab):
    """values that do not move away from a bound (0), and those that come closer (1)"""
    out = {}
    f = b.facts
    ii = tab.ii

    def go(v, w, at):
        if v[0] == "int" and w[0] == "int":
            o, n = f.norm(v[1]), f.norm(w[1])
            if o == n:
                out[at + ("up",)] = out[at + ("down",)] = 0
                return
            if f.ask(c_lt(o, n)) is True:
                if bounded_above(f, n, ii):
                    out[at + ("up",)] = 1
            elif f.ask(c_lt(n, o)) is True:
                if f.rng(n)[0][0] > -INF:
                    out[at + ("down",)] = 1
            elif f.ask(c_le(o, n)) is True:
                out[at + ("up",)] = 0
            elif f.ask(c_le(n, o)) is True:
                out[at + ("down",)] = 0
        elif v[0] == w[0] == "adt" and v[1] == w[1]:
            if v[2] != w[2]:
                out[at + ("up",)] = 1 if w[2] > v[2] else -1
                out[at + ("down",)] = 1 if w[2] < v[2] else -1
                return
            out[at + ("up",)] = out[at + ("down",)] = 0
            for n, (x, y) in enumerate(zip(v[3], w[3])):
                go(x, y, at + (n,))
        elif v[0] == w[0] == "it" and v[1] == w[1] == "mapw":
            # what is left of the map
            go(*[("int", sub(V(("len", x[2]), NONNEG), x[3])) for x in (v, w)], at)
        elif v[0] == w[0] == "it" and v[1] == w[1] and len(v) == len(w):
            for n, (x, y) in enumerate(zip(v, w)):
                if isinstance(x, Lin) and isinstance(y, Lin):
                    go(("int", x), ("int", y), at + (n,))
                elif isinstance(x, tuple) and isinstance(y, tuple) and x and y:
                    go(x, y, at + (n,))
        elif v[0] == w[0] == "tup":
            for n, (x, y) in enumerate(zip(v[1], w[1])):
                go(x, y, at + (n,))
        elif v[0] == w[0] and v[0] in ("ref", "box"):
            go(v[1], w[1], at)
        elif v[0] == w[0] and v[0] == "seq":
            go(("int", tab.E.seq_len(v)), ("int", tab.E.seq_len(w)), at + ("len",))
    for l, v in s.mem.items():
        w = b.mem.get(l)
        if w is not None and isinstance(v, tuple) and v:
            go(v, w, (l,))
    return {k: x for k, x in out.items() if x >= 0}


def closed_forms(f, reg):
    """starting values of the leaves that advance by one"""
    b = reg[2].t[0][0]
    out = []
    for lf in reg[4]:
        if (b, 1) in lf.t and not any(b in DEPS[x] for x, _ in lf.t):
            out.append(f.norm(subst_lin(lf, {b: ZERO})))
    return out


def align(f, reg):
    """an earlier loop that went over the same characters went equally far when
    going further or less far contradicts what either of them saw"""
    new = closed_forms(f, reg)
    if not new:
        return [f]
    fs = [f]
    for old in f.regs[:-1]:
        if not any(z in new for z in closed_forms(f, old)):
            continue
        nxt = []
        for g in fs:
            a, b = g.norm(old[3]), g.norm(reg[3])
            if g.ask(c_eq(a, b)) is not None:
                nxt.append(g)
                continue
            less = [h for x in g.assume(c_lt(b, a)) for h in instantiate(x, old, b)]
            more = [h for x in g.assume(c_lt(a, b)) for h in instantiate(x, reg, a)]
            if less and more:
                nxt.append(g)
                continue
            nxt.extend(g.assume(c_eq(a, b)))
            if less:
                nxt.extend(g.assume(c_lt(b, a)))
            if more:
                nxt.extend(g.assume(c_lt(a, b)))
        fs = nxt
    return fs


def with_reg(f, reg, inits):
    for c in inits:
        r = f.assume(c)
        if len(r) == 1:
            f = r[0]
    g = f.copy()
    g.regs = f.regs + (reg,)
    return g


def initial(tab, state):
    """values of the leaves before the first iteration"""
    out = []
    try:
        for x, mem in tab.prepare(state.fork()):
            c = tab.classes.get(tab.key(x, mem))
            if c is None:
                continue
            g = Gen(tab, c, x, ZERO)
            c.n += 1
            g.join(mem)
            cs = []
            for i, l in g.map.items():
                if tab.ii in DEPS[i]:
                    a = subst_lin(Lin(0, ((i, 1),)), {tab.ii: ZERO})
                    cs.append(c_eq(a, l))
            out.append(cs)
    except (Restart, Unsupported):
        return ()
    return out[0] if len(out) == 1 else ()


def note_bools(tab, state):
    def go(v, pos):
        k = v[0]
        if k == "bool":
            if v[1] not in (True, False, None):
                tab.bools[pos] = v[1]
        elif k in ("adt", "tup", "clo", "ref", "box"):
            fs = v[3] if k == "adt" else v[2] if k == "clo" else v[1] if k == "tup" else (v[1],)
            for n, x in enumerate(fs):
                go(x, pos + (n,))
    for l, v in state.mem.items():
        go(v, (l,))


def fix(E, fr, head, state, tab, inside):
    work = []
    tab.lastfacts = {}
    tab.defs = []

    def arrived(s, at):
        for c, ch in tab.arrive(s, at):
            if ch and c not in work:
                work.append(c)
    arrived(state.fork(), ZERO)
    passes = 0
    while work:
        passes += 1
        if passes > 120:
            raise Unsupported("loop invariant does not settle")
        c = work.pop(0)
        s = tab.state(c)
        if s is None:
            continue
        tab.lastfacts[c.key] = s.facts
        backs, _ = E.region(fr, {head: [s]}, inside, head, [])
        for b in backs:
            arrived(b, addk(tab.iota, 1))
    return passes


def leaves_of(tab):
    out = {}

    def go(x):
        if isinstance(x, Lin):
            if dep(x, tab.ii):
                out[x] = True
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (tuple, Lin)):
                    go(y)
    for c in tab.classes.values():
        for v in c.mem.values():
            go(v)
    return list(out)


def sym_is(E, s, v, depth=0):
    """conditions that make the symbol s the value v, as far as they can be said"""
    if depth > 3:
        return
    if isinstance(v, tuple) and v and v[0] in ("adt", "sym"):
        if s[0] == "sym":
            ds, dv = E.discr(None, s), E.discr(None, v)
            if dv is None:
                return
            yield c_eq(ds, dv)
            if v[0] == "sym":
                for n in range(len(E.ty(s[2])["v"])):
                    yield from sym_is(E, E.materialise(s, n), E.materialise(v, n), depth + 1)
                return
            s = E.materialise(s, v[2])
        if s[0] == "adt" and v[0] == "adt" and s[2] == v[2]:
            for a, b in zip(s[3], v[3]):
                yield from sym_is(E, a, b, depth + 1)
        return
    if not isinstance(v, tuple) or not v or s[0] != v[0]:
        return
    if v[0] == "int":
        yield c_eq(s[1], v[1])
    elif v[0] == "str":
        yield c_streq(s, v)
    elif v[0] in ("ref", "box"):
        yield from sym_is(E, s[1], v[1], depth)
    elif v[0] == "tup":
        for a, b in zip(s[1], v[1]):
            yield from sym_is(E, a, b, depth)


def fact_conds(f, base, ii):
    """what f knows beyond base, as conditions"""
    out = []
    for form, s in f.dom.items():
        if base.dom.get(form) != s:
            out.append(("in", Lin(0, form), s))
    for i, l in f.sub.items():
        if base.sub.get(i) != l:
            out.append(("in", sub(Lin(0, ((i, 1),)), l), ((0, 0),)))
    for t, v in f.preds.items():
        if t not in base.preds:
            out.append(("p" if v else "n", t))
    for t, s in f.ssub.items():
        if t not in base.ssub:
            out.append(("p", ("streq", ("str", (("t", t),)), s)))
    for r in f.regs:
        if r not in base.regs:
            out.append(r)
    return out


def alternative(tab, c, b):
    """one way round the loop: what holds in an iteration that takes it"""
    g = None
    conds = fact_conds(b.facts, tab.base, tab.ii)
    n = len(tab.defs)
    try:
        for x, mem in tab.prepare(b):
            # next values of the leaves
            cc = None
            cc = tab.classes.get(tab.key(x, mem))
            if cc is None:
                continue
            cc.n += 1
            g = Gen(tab, cc, x, addk(tab.iota, 1))
            g.join(mem)
            for i, l in g.map.items():
                if tab.ii in DEPS[i]:
                    a = subst_lin(Lin(0, ((i, 1),)), {tab.ii: addk(tab.iota, 1)})
                    conds.append(("in", sub(a, l), ((0, 0),)))
            break
    except (Restart, Unsupported):
        pass
    conds.extend(d for d in tab.defs[n:] if d is not True and d is not False)
    return tuple(conds)


def make_region(tab, leaves, alts):
    if not alts:
        return None
    b = V(("bj", tab.site))
    m = {tab.ii: b}
    return ("reg", tab.site, b, tab.iota, tuple(subst_lin(l, m) for l in leaves),
            tuple(subst_val(a, m) for a in dict.fromkeys(alts)))


def about_text(c):
    return c[0] == "in" and any(TERMS[i][0] == "ch" for i, _ in c[1].t)


def instantiate(f, reg, j, skip=None):
    """facts of iteration j: list of facts, one or more per alternative"""
    b = reg[2].t[0][0]
    out = []
    for alt in reg[5]:
        fs = [f]
        regs = []
        for c in alt:
            if skip is not None and skip(c):
                continue
            c = subst_val(c, {b: j})
            if c[0] == "reg":
                regs.append(c)
                continue
            nf = []
            for g in fs:
                nf.extend(g.assume(rebuild_cond(c)))
            fs = nf
            if not fs:
                break
        for g in fs:
            if regs:
                g = g.copy()
                g.regs = g.regs + tuple(r for r in regs if r not in g.regs)
            out.append(g)
    return out


def iter_terms(x, out):
    """ids of the integer terms inside a condition"""
    if isinstance(x, Lin):
        for i, _ in x.t:
            out.add(i)
            out |= DEPS[i]
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (Lin, tuple)):
                iter_terms(y, out)


def atoms_in(x, out):
    """values of an iteration mentioned inside a condition or a term, other than as integers"""
    if isinstance(x, Lin):
        for i, _ in x.t:
            if TERMS[i][0] != "v":
                atoms_in(TERMS[i], out)
    elif isinstance(x, tuple) and x:
        if x[0] == "v" and len(x) == 3 and isinstance(x[1], str):
            if x[2]:
                out[x] = True
            return
        for y in x:
            if isinstance(y, (Lin, tuple)):
                atoms_in(y, out)


def els_in(x, out):
    """elements of sequences mentioned inside a condition or a term"""
    if isinstance(x, Lin):
        for i, _ in x.t:
            els_in(TERMS[i], out)
    elif isinstance(x, tuple) and x:
        if x[0] in ("el", "byte") and len(x) == 3 and isinstance(x[2], Lin):
            out[x] = True
        for y in x:
            if isinstance(y, (Lin, tuple)):
                els_in(y, out)


REG_ELS = {}


def reg_els(reg):
    """sequences whose elements the iterations of a region look at, with the index they use"""
    r = REG_ELS.get(id(reg))
    if r is not None and r[0] is reg:
        return r[1]
    els = {}
    for alt in reg[5]:
        els_in(alt, els)
    b = reg[2].t[0][0]
    fixed = {}
    for alt in reg[5]:
        for c in alt:
            # iterations in which the loop looked at an item added to a sequence
            if c[0] == "in" and c[2] == ((c[2][0][0], c[2][0][0]),) and dict(c[1].t).get(b) in (1, -1):
                k = dict(c[1].t)[b]
                rest = sub(c[1], mulk(reg[2], k))
                if all(TERMS[i][0] == "len" for i, _ in rest.t):
                    fixed[mulk(addk(rest, -c[2][0][0]), -k)] = True
    out = [(x[1], x[2]) for x in els if b in dict(x[2].t)], list(fixed)
    REG_ELS[id(reg)] = (reg, out)
    return out


def el_sites(f, c):
    """(region, iteration) pairs in which an earlier loop looked at an element mentioned now"""
    if not f.regs:
        return []
    pats = [(reg, reg_els(reg)) for reg in f.regs]
    if not any(p[0] or p[1] for _, p in pats):
        return []
    out = [(reg, j) for reg, ps in pats for j in ps[1]]
    els = {}
    els_in(c, els)
    for t, s in f.ssub.items():
        els_in(t, els)
        els_in(s, els)
    for t in f.preds:
        els_in(t, els)
    for form in f.dom:
        for i, _ in form:
            els_in(TERMS[i], els)
    for i, l in f.sub.items():
        els_in(TERMS[i], els)
    for reg, (ps, _) in pats:
        b = reg[2].t[0][0]
        for x in els:
            for seq, at in ps:
                if x[1] != seq:
                    continue
                k = dict(at.t)[b]
                if k not in (1, -1):
                    continue
                rest = sub(at, mulk(reg[2], k))
                out.append((reg, mulk(sub(x[2], rest), k)))
    return list(dict.fromkeys(out))


def spend(budget):
    budget[0] -= 1
    return budget[0] >= 0


def sites_in(f, ids):
    """(region, iteration) pairs whose values are mentioned"""
    out = []
    for reg in f.regs:
        pre = reg[1] + "."
        for i in ids:
            t = TERMS[i]
            if t[0] == "v" and t[1].startswith(pre) and t[2]:
                out.append((reg, t[2][-1]))
    return out


def char_sites(f):
    """(region, iteration) pairs in which an earlier loop passed a character known now"""
    out = []
    for form in f.dom:
        for i, _ in form:
            t = TERMS[i]
            if t[0] != "ch":
                continue
            for reg in f.regs:
                b = reg[2].t[0][0]
                for lf in reg[4]:
                    if (b, 1) not in lf.t or any(b in DEPS[x] for x, _ in lf.t):
                        continue
                    out.append((reg, sub(t[1], subst_lin(lf, {b: ZERO}))))
    return out


def expand(f, v):
    """facts under each way the loops' iterations mentioned in v went"""
    work = [(f, frozenset(), 0)]
    out = []
    while work:
        f, done, n = work.pop()
        ids = set()
        iter_terms(norm_val(f, v), ids)
        for i, l in f.sub.items():
            if any(x in ids for x, _ in l.t):
                ids.add(i)
        for reg, j in sites_in(f, ids):
            j = f.norm(j)
            if (reg[1], j) in done:
                continue
            if n < 6 and f.ask(c_le(ZERO, j)) is True and f.ask(c_lt(j, reg[3])) is True:
                work.extend((g, done | {(reg[1], j)}, n + 1) for g in instantiate(f, reg, j))
                break
        else:
            out.append(f)
    return out


def refute(f, c, depth=3, done=frozenset(), budget=None):
    if budget is None:
        budget = [60]
    ids = set()
    iter_terms(c, ids)
    near = set(ids)
    skip = None if not ids or any(TERMS[i][0] == "ch" for i in ids) else about_text
    for form in f.dom:
        if any(i in ids for i, _ in form):
            for i, _ in form:
                near.add(i)
                near |= DEPS[i]
    for i, l in f.sub.items():
        if i in ids or any(x in ids for x, _ in l.t):
            near.add(i)
            iter_terms(l, near)
    sites = sites_in(f, near)
    vt = {}
    atoms_in(c, vt)
    if not vt and depth == 3:
        for t in f.preds:
            atoms_in(t, vt)
        for i in f.sub:
            atoms_in(TERMS[i], vt)
        for form in f.dom:
            for i, _ in form:
                atoms_in(TERMS[i], vt)
    for reg in f.regs:
        for t in vt:
            if t[1].startswith(reg[1] + "."):
                sites.append((reg, t[2][-1]))
    if depth == 3 and (not ids or skip is None):
        sites = sites + char_sites(f)
    split = set()
    again = False
    for reg, j in el_sites(f, c):
        if (reg, j) not in sites:
            sites.append((reg, j))
            split.add((reg[1], j))
    for reg, j in sites:
        may = (reg[1], j) in split
        j = f.norm(j)
        key = (reg[1], j)
        if key in done or f.ask(c_le(ZERO, j)) is not True:
            continue
        if may and f.ask(c_lt(j, reg[3])) is None:
            done = done | {key}
            alts = []
            for g in f.assume(c_lt(j, reg[3])):
                alts.extend(instantiate(g, reg, j, skip))
            alts.extend(f.assume(c_le(reg[3], j)))
            if len(alts) == 1:
                f = alts[0]
                again = True
                continue
            if not alts:
                return True
            if depth > 1 and all(spend(budget) and refute(g, c, depth - 1, done, budget) for g in alts):
                return True
            continue
        if f.ask(c_lt(j, reg[3])) is True:
            alts = instantiate(f, reg, j, skip)
        elif f.ask(c_eq(j, reg[3])) is True:
            # what the last iteration left, if there was one
            alts = f.assume(c_eq(j, ZERO))
            for g in f.assume(c_lt(ZERO, j)):
                alts.extend(instantiate(g, reg, addk(j, -1), skip))
        else:
            continue
        done = done | {key}
        ok = True
        for g in alts:
            budget[0] -= 1
            if budget[0] < 0:
                return False
            if depth > 1 and refute(g, c, depth - 1, done, budget):
                continue
            ok = False
            break
        if ok:
            return True
    if again and spend(budget):
        return refute(f, c, depth, done, budget)
    return False


def rebuild_cond(c):
    if c[0] == "in":
        return c_in(c[1], c[2])
    if c[0] in ("p", "n") and c[1][0] in ("streq", "hasch"):
        r = restate(c[1])
        return r if c[0] == "p" else c_not(r)
    return c


def unrolled(E, fr, head, states, rets, inside, bound):
    out = []
    outer = states[0].iota
    n = 0
    while states:
        nxt = []
        for s in E.merge(states):
            s.iota = (outer or ()) + (K(n),)
            backs, ex = E.region(fr, {head: [s]}, inside, head, rets)
            nxt.extend(backs)
            out.extend(ex)
        states = nxt
        n += 1
        if n > bound + 2:
            out.extend(give_up_loop(E, fr, head, states[0], rets, inside, "unrolled too far"))
            break
    else:
        if watched(E, fr):
            E.oblige(s, True, PROGRESS, E.where(fr, fr.body.blocks[head][1]))
    for tb, s in out:
        s.iota = outer
    return out


def give_up_loop(E, fr, head, state, rets, inside, why):
    """no invariant: everything the loop may change becomes unknown"""
    k = "%s: loop: %s" % (short(fr.fn["path"]), why)
    if watched(E, fr):
        E.oblige(state.fork(), None, PROGRESS, E.where(fr, fr.body.blocks[head][1]))
    E.unmodelled[k] = E.unmodelled.get(k, 0) + 1
    s = state.fork()
    s.taint = s.taint + (k,)
    for l in list(s.mem):
        if l[0] == fr.fid:
            s.mem[l] = ("any", k)
        elif isinstance(l[0], int) or l[0] in ("heap", "g"):
            if mentions_ptr(state, l, fr):
                s.mem[l] = ("any", k)
    r, ex = [], []
    seen = set()
    for b in inside:
        for t in fr.body.succ[b]:
            if t not in inside and t not in seen:
                seen.add(t)
                x = s.fork()
                ex.append((t, x))
        if fr.body.blocks[b][2][0] == "return":
            rets.append((s.fork(), ("any", k)))
    return ex


def mentions_ptr(state, loc, fr):
    def go(v):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "ptr" and v[1] == loc:
                return True
            return any(go(x) for x in v if isinstance(x, tuple))
        return False
    return any(go(v) for l, v in state.mem.items())


# ---- loops reached again and again through the same history -------------------
def analyse_global(E, fr, head, state, rets):
    tab = E.gtab
    where = (fr.fn["id"], head)
    if tab is None:
        tab = E.gtab = Table(E, "H", (), state, True)
        tab.lastfacts = {}
        tab.base = state.facts
    at = ZERO if E.gfirst else addk(tab.iota, 1)
    E.gfirst = False
    inside = fr.body.loops[head]
    info = E.loopinfo.setdefault(("loop", fr.fn["id"], head), {"fn": fr.fn["path"], "passes": 0, "classes": 0, "failed": None})
    work = [(state, at)]
    out = []
    while work:
        s, at = work.pop()
        for x in cut(E, s, at, where):
            info["passes"] += 1
            backs, ex = E.region(fr, {head: [x]}, inside, head, rets)
            out.extend(ex)
            work.extend((b, addk(tab.iota, 1)) for b in backs)
    info["classes"] = len(tab.classes)
    return out


def cut(E, s, at, where):
    """classes to follow from a state that arrives where histories are joined"""
    tab = E.gtab
    try:
        got = tab.arrive(s, at, where)
    except Unsupported as e:
        E.gfailed = str(e)
        return []
    out = []
    for c, ch in got:
        if ch:
            E.gchanged += 1
        if E.gphase == 2:
            if ch:
                E.gunstable += 1
            if c.visited:
                continue
        elif not ch and c.visited:
            continue
        c.visited = True
        x = tab.state(c)
        if x is None:
            continue
        tab.lastfacts[c.key] = x.facts
        x.trace = s.trace
        out.append(x)
    return out
