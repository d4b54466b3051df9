"""The facts an abstract state carries.

  sub    integer term -> linear form equal to it
  ssub   string term -> string equal to it
  dom    linear form (no constant, primitive, first coefficient positive)
         -> interval set it lies in
  preds  other boolean terms -> truth value
  regs   what earlier loops did in each of their iterations (see loops.py)

Facts are never modified once built; assuming something builds new facts or
None when it is impossible.  There is no search for models: a question is
answered from the stored forms, the type of the terms, and sums of at most
DEPTH stored forms.
"""
from math import gcd
from lin import *
import lin as L

DEPTH = 3

# cond: True | False | ('in', Lin, IS) | ('p', term) | ('n', term)
#       | ('and', c...) | ('or', c...)


def c_in(l, s):
    if not l.t:
        return any(lo <= l.c <= hi for lo, hi in s)
    if not s:
        return False
    return ("in", l, s)


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == "in":
        return c_in(c[1], compl(c[2]))
    if k == "p":
        return ("n", c[1])
    if k == "n":
        return ("p", c[1])
    if k == "and":
        return c_or(*[c_not(x) for x in c[1:]])
    return c_and(*[c_not(x) for x in c[1:]])


def c_and(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c[0] == "and":
            out.extend(c[1:])
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else ("and",) + tuple(out)


def c_or(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c[0] == "or":
            out.extend(c[1:])
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else ("or",) + tuple(out)


def c_eq(a, b):
    d = sub(a, b)
    if len(d.t) == 2 and d.c == 0:
        (i, x), (j, y) = d.t
        s, t = TERMS[i], TERMS[j]
        if x == -y and x in (1, -1) and s[0] == t[0] and s[0] in INJ:
            return c_streq(s[1], t[1])
    if len(d.t) == 1 and d.t[0][1] in (1, -1):
        t = TERMS[d.t[0][0]]
        if t[0] in INJ:
            n = -d.c * d.t[0][1]
            if n in INJ[t[0]]:
                return c_streq(t[1], lit(INJ[t[0]][n]))
    return c_in(d, ((0, 0),))


# injective functions of strings, with their known values
INJ = {"pid": {0: ""}, "nid": {0: ""}}


def c_lt(a, b):
    return c_in(sub(b, a), ge(1))


def c_le(a, b):
    return c_in(sub(b, a), ge(0))


# ---- strings -------------------------------------------------------------
# ('str', parts); part: ('l', text) | ('t', term) | ('tx', a, b) | ('c', code)
#                 | ('cat', ...) pieces added by a loop

EMPTYSTR = ("str", ())


def lit(s):
    return ("str", (("l", s),)) if s else EMPTYSTR


def strv(parts):
    out = []
    for p in parts:
        if p[0] == "c" and not p[1].t and 0 <= p[1].c < 0x110000 and not 0xD800 <= p[1].c < 0xE000:
            p = ("l", chr(p[1].c))
        if p[0] == "l":
            if not p[1]:
                continue
            if out and out[-1][0] == "l":
                out[-1] = ("l", out[-1][1] + p[1])
                continue
        if p[0] == "tx":
            if p[1] == p[2]:
                continue
            if out and out[-1][0] == "tx" and out[-1][2] == p[1]:
                out[-1] = ("tx", out[-1][1], p[2])
                continue
        out.append(p)
    return ("str", tuple(out))


def text_char(p):
    return V(("ch", p), CHAR)


def str_len(s):
    n = ZERO
    for p in s[1]:
        if p[0] == "l":
            n = addk(n, len(p[1].encode("utf8", "surrogatepass")))
        elif p[0] == "t":
            n = add(n, V(("len", p[1]), NONNEG))
        elif p[0] == "tx":
            n = add(n, V(("blen", p[1], p[2]), NONNEG))
        elif p[0] == "c":
            n = add(n, utf8_len(p[1]))
        else:
            n = add(n, V(("len", p), NONNEG))
    return n


def utf8_len(c):
    if not c.t:
        return K(len(chr(c.c).encode("utf8", "surrogatepass")))
    return V(("u8len", c), ((1, 4),))


def c_empty(s):
    cs = []
    for p in s[1]:
        if p[0] in ("l", "c"):
            return False
        if p[0] == "t":
            cs.append(c_in(V(("len", p[1]), NONNEG), ((0, 0),)))
        elif p[0] == "tx":
            cs.append(c_eq(p[1], p[2]))
        else:
            cs.append(("p", ("empty", p)))
    return c_and(*cs)


def _chars(parts):
    """split off known characters where possible"""
    out = []
    for p in parts:
        if p[0] == "l":
            out.extend(("c", K(ord(c))) for c in p[1])
        elif p[0] == "tx":
            d = sub(p[2], p[1])
            if not d.t and 0 <= d.c <= 64:
                out.extend(("c", text_char(addk(p[1], i))) for i in range(d.c))
            else:
                out.append(p)
        else:
            out.append(p)
    return out


def c_streq(a, b):
    if a == b:
        return True
    x, y = list(a[1]), list(b[1])
    while x and y and x[0] == y[0]:
        x.pop(0)
        y.pop(0)
    while x and y and x[-1] == y[-1]:
        x.pop()
        y.pop()
    x, y = _chars(x), _chars(y)
    cs = []
    while x and y:
        if x[0] == y[0]:
            x.pop(0)
            y.pop(0)
        elif x[0][0] == "c" and y[0][0] == "c":
            cs.append(c_eq(x.pop(0)[1], y.pop(0)[1]))
        else:
            break
    while x and y:
        if x[-1] == y[-1]:
            x.pop()
            y.pop()
        elif x[-1][0] == "c" and y[-1][0] == "c":
            cs.append(c_eq(x.pop()[1], y.pop()[1]))
        else:
            break
    if not x or not y:
        cs.append(c_empty(("str", tuple(x or y))))
        return c_and(*cs)
    x, y = strv(x), strv(y)
    for u, v in ((x, y), (y, x)):
        if len(u[1]) == 1 and u[1][0][0] == "tx":
            a, b = u[1][0][1:]
            if all(p[0] == "l" for p in v[1]):
                s = "".join(p[1] for p in v[1])
                cs.append(c_eq(sub(b, a), K(len(s))))
                cs.extend(c_eq(text_char(addk(a, i)), K(ord(c))) for i, c in enumerate(s))
                return c_and(*cs)
            if len(v[1]) == 1 and v[1][0][0] == "tx" and v[1][0][1] == a:
                cs.append(c_eq(b, v[1][0][2]))
                return c_and(*cs)
    # lengths that differ by a constant
    d = sub(str_len(x), str_len(y))
    if not d.t and d.c:
        return False
    i, j = tid(("S", x)), tid(("S", y))
    if i > j:
        x, y = y, x
    cs.append(("p", ("streq", x, y)))
    return c_and(*cs)


def c_hasch(s, ch):
    """does the string have the character"""
    cs = []
    for p in s[1]:
        if p[0] == "l":
            if chr(ch) in p[1]:
                return True
        elif p[0] == "c":
            cs.append(c_eq(p[1], K(ch)))
        elif p[0] == "t":
            cs.append(c_and(("p", ("hasch", ("str", (p,)), ch)), c_not(c_empty(("str", (p,))))))
        else:
            cs.append(("p", ("hasch", ("str", (p,)), ch)))
    return c_or(*cs)


def restate(u):
    """a predicate about strings once more is known of them"""
    if u[0] == "streq":
        return c_streq(u[1], u[2])
    if u[0] == "hasch" and (len(u[1][1]) != 1 or u[1][1][0][0] in ("l", "c")):
        return c_hasch(u[1], u[2])
    return ("p", u)


# ---- facts ---------------------------------------------------------------
class Facts:
    __slots__ = ("sub", "ssub", "dom", "preds", "regs", "nc", "rc", "rel")

    def __init__(self):
        self.sub = {}
        self.ssub = {}
        self.dom = {}
        self.preds = {}
        self.regs = ()
        self.nc = {}
        self.rc = {}
        self.rel = None

    def copy(self):
        f = Facts.__new__(Facts)
        f.sub = self.sub
        f.ssub = self.ssub
        f.dom = dict(self.dom)
        f.preds = self.preds
        f.regs = self.regs
        f.nc = self.nc
        f.rc = {}
        f.rel = None
        return f

    def same(self, o):
        return self is o or (
            self.dom == o.dom and self.preds == o.preds and self.sub == o.sub
            and self.ssub == o.ssub and self.regs == o.regs)

    # -- normal forms
    def norm(self, l):
        if not l.t:
            return l
        if not self.sub and not self.ssub:
            return l
        out = None
        for n, (i, k) in enumerate(l.t):
            r = self._nid(i)
            if r is None:
                if out is not None:
                    out = add(out, Lin(0, ((i, k),)))
                continue
            if out is None:
                out = Lin(l.c, l.t[:n])
            out = add(out, r, k)
        return l if out is None else out

    def _nid(self, i):
        """normal form of a term, None when it is its own"""
        try:
            return self.nc[i]
        except KeyError:
            pass
        s = self.sub.get(i)
        if s is not None:
            r = self.norm(s)
        else:
            t = TERMS[i]
            u = self.norm_term(t)
            if u is t or u == t:
                r = None
            else:
                r = self.norm(self.rebuild(u, BASE[i]))
        self.nc[i] = r
        return r

    def rebuild(self, t, base):
        k = t[0]
        if k == "len" and isinstance(t[1], tuple) and t[1] and t[1][0] == "str":
            return str_len(t[1])
        if k == "slen":
            return str_len(t[1])
        if k == "u8len":
            return utf8_len(t[1])
        if k in INJ and t[1] == EMPTYSTR:
            return ZERO
        if k == "blen" and t[1] == t[2]:
            return ZERO
        return V(t, base)

    def norm_term(self, t):
        if t and t[0] == "str":
            return self.norm_str(t)
        out = None
        for n, x in enumerate(t):
            if isinstance(x, Lin):
                y = self.norm(x)
            elif isinstance(x, tuple):
                y = self.norm_term(x)
            else:
                continue
            if y is not x and y != x:
                if out is None:
                    out = list(t)
                out[n] = y
        t = t if out is None else tuple(out)
        if t and t[0] == "len" and self.ssub:
            s = self.ssub.get(t[1])
            if s is not None:
                return ("slen", self.norm_str(s))
        return t

    def norm_str(self, s):
        if not self.sub and not self.ssub:
            return s
        out = []
        ch = False
        for p in s[1]:
            if p[0] == "t":
                q = self.ssub.get(p[1])
                if q is not None:
                    ch = True
                    out.extend(self.norm_str(q)[1])
                    continue
                u = self.norm_term(p[1])
                if u != p[1]:
                    ch = True
                    q = self.ssub.get(u)
                    if q is not None:
                        out.extend(self.norm_str(q)[1])
                    else:
                        out.append(("t", u))
                    continue
                out.append(p)
            elif p[0] == "l":
                out.append(p)
            elif p[0] in ("tx", "c"):
                q = (p[0],) + tuple(self.norm(x) for x in p[1:])
                ch = ch or q != p
                out.append(q)
            else:
                q = self.norm_term(p)
                ch = ch or q != p
                out.append(q)
        return strv(out) if ch else s

    # -- ranges
    @staticmethod
    def form(l):
        """(form, factor): l = factor*form + l.c"""
        t = l.t
        if len(t) == 1:
            return ((t[0][0], 1),), t[0][1]
        g = 0
        for _, k in t:
            g = gcd(g, abs(k))
        if t[0][1] < 0:
            g = -g
        if g == 1:
            return t, 1
        return tuple((i, k // g) for i, k in t), g

    def atom(self, i):
        s = self.dom.get(((i, 1),))
        b = BASE[i]
        if TERMS[i][0] == "u8len":
            r = self.rng(self.norm(TERMS[i][1]), 0)
            if r:
                b = inter(b, ((U8LEN(r[0][0]), U8LEN(r[-1][1])),))
        if s is None:
            return b if b is not None else ALL
        return s if b is None else inter(s, b)

    def relations(self):
        if self.rel is None:
            r = {}
            for f, s in self.dom.items():
                if len(f) > 1:
                    for i, k in f:
                        r.setdefault(i, []).append((f, k, s))
            self.rel = r
        return self.rel

    def hi(self, t, depth):
        """upper bound of the sum of t (tuple of (id, coef))"""
        if not t:
            return 0
        key = (t, depth)
        r = self.rc.get(key)
        if r is not None:
            return r
        self.rc[key] = INF
        best = INF
        tot = 0
        for i, k in t:
            a = self.atom(i)
            if not a:
                return -INF
            v = a[-1][1] if k > 0 else a[0][0]
            if abs(v) >= INF:
                tot = INF
                break
            tot += k * v
        best = tot
        if len(t) > 1:
            f, g = self.form(Lin(0, t))
            s = self.dom.get(f)
            if s is not None:
                if not s:
                    return -INF
                v = s[-1][1] if g > 0 else s[0][0]
                if abs(v) < INF:
                    best = min(best, g * v)
        if depth > 0:
            rel = self.relations()
            for i, k in t:
                for f, fk, s in rel.get(i, ()):
                    if k % fk:
                        continue
                    m = k // fk
                    v = s[-1][1] if m > 0 else s[0][0]
                    if abs(v) >= INF:
                        continue
                    rest = add(Lin(0, t), Lin(0, f), -m).t
                    if len(rest) > len(t) + (1 if depth > 1 else 0):
                        continue
                    h = self.hi(rest, depth - 1)
                    if h < INF and h + m * v < best:
                        best = h + m * v
        self.rc[key] = best
        return best

    def rng(self, l, depth=DEPTH):
        """interval set containing the (normalised) form"""
        if not l.t:
            return ((l.c, l.c),)
        f, g = self.form(l)
        s = self.dom.get(f)
        if s is None:
            s = ALL
        if len(f) == 1:
            s = self.atom(f[0][0])
        if g == -1:
            s = neg(s)
        elif g != 1:
            s = scale_hull(s, g)
        s = shift(s, l.c)
        if depth:
            h = self.hi(l.t, depth)
            lo = self.hi(tuple((i, -k) for i, k in l.t), depth)
            b = (((-lo if lo < INF else -INF), h),)
            b = shift(b, l.c)
            if b[0][0] > b[0][1]:
                return EMPTY
            s = inter(s, b)
        return s

    def ask_in(self, l, s):
        l = self.norm(l)
        f, g = (None, 1) if not l.t else self.form(l)
        r = self.rng(l, 0)
        if subset(r, s):
            return True
        if not inter(r, s):
            return False
        if f is not None and (len(f) > 1 or f[0][0] in self.relations()):
            r = self.rng(l)
            if subset(r, s):
                return True
            if not inter(r, s):
                return False
        return None

    def ask(self, c):
        """True, False or None (not known)"""
        if c is True or c is False:
            return c
        k = c[0]
        if k == "in":
            l = self.norm(c[1])
            if l is not c[1]:
                d = re_eq(l, c[2])
                if d is not None:
                    return self.ask(d)
            b = bit_atom(l)
            if b is not None:
                return self.ask(unbit(b, l, c[2]))
            return self.ask_in(l, c[2])
        if k == "p" or k == "n":
            r = self.ask_p(c[1])
            return r if r is None or k == "p" else not r
        if k == "and":
            un = False
            for x in c[1:]:
                r = self.ask(x)
                if r is False:
                    return False
                if r is None:
                    un = True
            return None if un else True
        un = False
        for x in c[1:]:
            r = self.ask(x)
            if r is True:
                return True
            if r is None:
                un = True
        return None if un else False

    def ask_p(self, t):
        if t in self.preds:
            return self.preds[t]
        u = self.norm_term(t)
        if u != t:
            if u[0] in ("streq", "hasch"):
                c = restate(u)
                if c is True or c is False:
                    return c
                if c != ("p", u):
                    return self.ask(c)
            if u in self.preds:
                return self.preds[u]
        return None

    # -- assuming
    def assume(self, c, val=True):
        """list of facts whose union covers the assumption"""
        if not val:
            c = c_not(c)
        r = self.ask(c)
        if r is False:
            return []
        if r is True:
            return [self]
        k = c[0]
        if k == "in":
            l = self.norm(c[1])
            d = re_eq(l, c[2])
            if d is not None:
                return self.assume(d)
            b = bit_atom(l)
            if b is not None:
                return self.assume(unbit(b, l, c[2]))
            f = self.set_in(l, c[2])
            return [f] if f is not None else []
        if k == "p":
            f = self.set_p(c[1], True)
            return f
        if k == "n":
            return self.set_p(c[1], False)
        if k == "and":
            fs = [self]
            for x in c[1:]:
                fs = [g for f in fs for g in f.assume(x)]
            return fs
        out = []
        rest = [self]
        for x in c[1:]:
            for f in rest:
                out.extend(f.assume(x))
            nx = c_not(x)
            rest = [g for f in rest for g in f.assume(nx)]
            if not rest:
                break
        return out

    def set_p(self, t, val):
        u = self.norm_term(t)
        if u[0] == "hasch":
            c = restate(u)
            if c != ("p", u):
                return self.assume(c, val)
        if u[0] == "streq":
            c = c_streq(u[1], u[2])
            if c != ("p", u):
                return self.assume(c, val)
            if val:
                x, y = u[1], u[2]
                for a, b in ((x, y), (y, x)):
                    if len(a[1]) == 1 and a[1][0][0] == "t" and not occurs(a[1][0][1], b):
                        f = self.copy()
                        f.ssub = dict(self.ssub)
                        f.ssub[a[1][0][1]] = b
                        f = f.renorm()
                        return [f] if f is not None else []
        f = self.copy()
        f.preds = dict(self.preds)
        f.preds[u] = val
        return [f]

    def set_in(self, l, s):
        r = inter(self.rng(l), s)
        if not r:
            return None
        f, g = self.form(l)
        s = shift(s, -l.c)
        if g == -1:
            s = neg(s)
        elif g != 1:
            s = unscale(s, g)
        old = self.dom.get(f)
        if old is None:
            old = ALL
        if len(f) == 1:
            old = inter(old, BASE[f[0][0]] or ALL)
        s = inter(old, s)
        # bounds that follow from other forms
        q = shift(r, -l.c)
        if g == -1:
            q = neg(q)
        elif g != 1:
            q = unscale(q, g)
        s = inter(s, ((q[0][0], q[-1][1]),)) if q else EMPTY
        if not s:
            return None
        if s[0][0] == s[-1][1]:
            n = self.set_eq(f, s[0][0])
            if n is not False:
                return n
        n = self.copy()
        n.dom[f] = s
        return n

    def set_eq(self, f, v):
        """form f equals v: solve for one of its terms"""
        if len(f) == 1 and TERMS[f[0][0]][0] in KEEP:
            return False
        best = None
        for i, k in f:
            if k in (1, -1):
                others = [j for j, _ in f if j != i]
                if any(i in DEPS[j] for j in others):
                    continue
                rank = (solve_rank(i), i)
                if best is None or rank > best[0]:
                    best = (rank, i, k)
        if best is None:
            return False
        _, i, k = best
        rest = Lin(-v, tuple((j, c) for j, c in f if j != i))
        rhs = mulk(rest, -k)
        n = self.copy()
        n.sub = dict(self.sub)
        n.sub[i] = rhs
        b = self.atom(i)
        n = n.renorm()
        if n is None:
            return None
        if b != ALL:
            r = n.norm(rhs)
            if n.ask_in(r, b) is not True:
                n = n.set_in(r, b) if r.t else None
        return n

    def renorm(self):
        """rewrite everything with the current equalities"""
        f = Facts()
        f.sub = self.sub
        f.ssub = self.ssub
        f.regs = self.regs
        f.preds = {}
        todo = []
        ps = []
        deep = [i for i in self.sub if DEPS[i]]
        if deep and len(deep) < len(self.sub):
            # values of functions at arguments now known to be the same: state again, or they would be each other's value
            g = Facts()
            g.sub = {i: l for i, l in self.sub.items() if not DEPS[i]}
            moved = []
            for i in deep:
                l = self.sub[i]
                t = TERMS[i]
                u, w = g.norm_term(t), g.norm(l)
                if w != l or u != t:
                    moved.append((i, sub(g.rebuild(u, BASE[i]), w)))
            if moved:
                f.sub = dict(self.sub)
                for i, m in moved:
                    del f.sub[i]
                for i, m in moved:
                    m = f.norm(m)
                    if m.t or m.c:
                        todo.append((m, ((0, 0),)))
        if self.ssub and self.sub:
            g = Facts()
            g.sub = f.sub
            moved = []
            for t, s in self.ssub.items():
                u, w = g.norm_term(t), g.norm_str(s)
                if u != t or w != s:
                    moved.append(t)
                    ps.append((("streq", ("str", (("t", u),)), w), True))
            if moved:
                f.ssub = {t: s for t, s in self.ssub.items() if t not in moved}
        for form, s in self.dom.items():
            l = Lin(0, form)
            m = f.norm(l)
            if m is l or m == l:
                old = f.dom.get(form)
                f.dom[form] = s if old is None else inter(old, s)
                if not f.dom[form]:
                    return None
            else:
                todo.append((m, s))
        # equal arguments give equal values
        for i, l in f.sub.items():
            if DEPS[i]:
                t = TERMS[i]
                u = f.norm_term(t)
                if u is not t and u != t:
                    m = f.norm(sub(f.rebuild(u, BASE[i]), l))
                    if m.t or m.c:
                        todo.append((m, ((0, 0),)))
        for t, v in self.preds.items():
            u = f.norm_term(t)
            if u is t or u == t:
                f.preds[t] = v
            else:
                ps.append((u, v))
        cur = f
        for m, s in todo:
            if not m.t:
                if not any(lo <= m.c <= hi for lo, hi in s):
                    return None
                continue
            d = re_eq(m, s)
            if d is not None:
                r = cur.assume(d)
                if not r:
                    return None
                if len(r) == 1:
                    cur = r[0]
                continue
            m = cur.norm(m)
            if not m.t:
                if not any(lo <= m.c <= hi for lo, hi in s):
                    return None
                continue
            cur = cur.set_in(m, s)
            if cur is None:
                return None
        for u, v in ps:
            if u[0] in ("streq", "hasch"):
                u = cur.norm_term(u)
                c = restate(u)
                if c is True or c is False:
                    if c != v:
                        return None
                    continue
                r = cur.assume(c, v)
                if not r:
                    return None
                if len(r) == 1:
                    cur = r[0]
                continue
            old = cur.ask_p(u)
            if old is None:
                if cur is f or cur.preds is f.preds:
                    cur = cur.copy()
                    cur.preds = dict(cur.preds)
                cur.preds[u] = v
            elif old != v:
                return None
        return cur


# characters stay symbolic when their value is known, so that states which
# differ in one of them only can be merged
KEEP = ("ch", "byte")


def U8LEN(c):
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


def re_eq(l, s):
    """equalities between values of injective functions"""
    if len(l.t) > 2 or not l.t:
        return None
    t = TERMS[l.t[0][0]]
    if t[0] not in INJ:
        return None
    if s == ((0, 0),):
        c = c_eq(l, ZERO)
    elif s == ((-INF, -1), (1, INF)) or (s == ((1, INF),) and len(l.t) == 1 and l.t[0][1] > 0):
        c = c_not(c_eq(l, ZERO))
    else:
        return None
    if c is True or c is False or c[0] != "in":
        return c
    return None


def solve_rank(i):
    t = TERMS[i]
    # prefer to eliminate loop and fresh variables over inputs
    return {"N": 0, "arg": 1, "ch": 2, "len": 2, "pid": 0, "nid": 0}.get(t[0], 3)


def occurs(t, x):
    if x == t:
        return True
    if isinstance(x, Lin):
        return any(occurs(t, TERMS[i]) for i, _ in x.t)
    if isinstance(x, tuple):
        return any(occurs(t, y) for y in x)
    return False


def unscale(s, g):
    """values v with g*v in s"""
    out = []
    for lo, hi in s:
        if g > 0:
            a = -INF if lo <= -INF else -((-lo) // g)
            b = INF if hi >= INF else hi // g
        else:
            a = -INF if hi >= INF else -((hi) // (-g))
            b = INF if lo <= -INF else (-lo) // (-g)
        if a <= b:
            out.append((a, b))
    return norm(out)


# bit operations on small values are kept as terms and undone when asked about
BITS = {
    "band": lambda x, c: x & c,
    "bor": lambda x, c: x | c,
    "bxor": lambda x, c: x ^ c,
    "shr": lambda x, c: x >> c,
    "tab": lambda x, c: c[x],
}


def bit_atom(l):
    if len(l.t) == 1 and abs(l.t[0][1]) == 1:
        t = TERMS[l.t[0][0]]
        if t[0] in BITS and len(t) == 3 and isinstance(t[1], Lin) and len(t[1].t) == 1:
            i, k = t[1].t[0]
            if k == 1 and BASE[i] is not None and size(BASE[i]) <= 256:
                return t
    return None


def unbit(t, l, s):
    op = BITS[t[0]]
    k = l.t[0][1]
    i = t[1].t[0][0]
    ok = []
    for v in members(BASE[i]):
        r = k * op(v + t[1].c, t[2]) + l.c
        if any(lo <= r <= hi for lo, hi in s):
            ok.append((v, v))
    return c_in(Lin(0, ((i, 1),)), norm(ok))
