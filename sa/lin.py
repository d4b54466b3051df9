"""Terms, linear forms and interval sets.

A term is a tuple whose first entry is a string; its arguments are strings,
numbers, None, terms or linear forms.  Integer terms are numbered, and a linear
form is a constant plus coefficients of numbered terms.
"""
INF = 1 << 200

TERMS = []
TERMID = {}
BASE = []      # interval set known for the term whatever the facts
DEPS = []      # ids of the integer terms inside the term


def tid(t, base=None):
    i = TERMID.get(t)
    if i is None:
        i = len(TERMS)
        TERMID[t] = i
        TERMS.append(t)
        BASE.append(base)
        s = set()
        _deps(t, s)
        DEPS.append(frozenset(s))
    elif base is not None and BASE[i] is None:
        BASE[i] = base
    return i


def _deps(t, s):
    for x in t:
        if isinstance(x, Lin):
            for i, _ in x.t:
                s.add(i)
                s |= DEPS[i]
        elif isinstance(x, tuple):
            _deps(x, s)


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def const(self):
        return not self.t

    def __repr__(self):
        return show(self)


def show_term(t):
    if isinstance(t, Lin):
        return show(t)
    if isinstance(t, tuple):
        if not t:
            return "()"
        if t[0] == "v":
            r = "%s" % (t[1],)
            return r if t[2] is None else "%s[%s]" % (r, show_term(t[2]))
        if not isinstance(t[0], str):
            return "(" + ",".join(show_term(x) for x in t) + ")"
        return "%s(%s)" % (t[0], ",".join(show_term(x) for x in t[1:]))
    return str(t)


def show(l):
    s = []
    for i, k in l.t:
        n = show_term(TERMS[i])
        s.append(n if k == 1 else "-" + n if k == -1 else "%d*%s" % (k, n))
    if l.c or not s:
        s.append(str(l.c))
    return "+".join(s).replace("+-", "-")


_K = {}


def K(n):
    r = _K.get(n)
    if r is None:
        r = _K[n] = Lin(n, ())
    return r


ZERO = K(0)
ONE = K(1)


def V(t, base=None):
    return Lin(0, ((tid(t, base), 1),))


def add(a, b, k=1):
    """a + k*b"""
    if not b.t:
        return Lin(a.c + k * b.c, a.t) if b.c else a
    if not a.t and k == 1:
        return Lin(a.c + b.c, b.t)
    d = dict(a.t)
    for i, c in b.t:
        n = d.get(i, 0) + k * c
        if n:
            d[i] = n
        else:
            d.pop(i, None)
    return Lin(a.c + k * b.c, tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def addk(a, n):
    return Lin(a.c + n, a.t) if n else a


def mulk(a, n):
    if n == 1:
        return a
    if n == 0:
        return ZERO
    return Lin(a.c * n, tuple((i, c * n) for i, c in a.t))


# interval sets: sorted tuples of disjoint, non-adjacent (lo, hi)
ALL = ((-INF, INF),)
EMPTY = ()
NONNEG = ((0, INF),)
USIZE = ((0, INF),)
U8 = ((0, 255),)
BOOL = ((0, 1),)
CHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def iset(*vals):
    return norm([(v, v) for v in vals])


def norm(iv):
    iv = sorted(x for x in iv if x[0] <= x[1])
    out = []
    for lo, hi in iv:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def inter(a, b):
    if a is b or b == ALL:
        return a
    if a == ALL:
        return b
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def union(a, b):
    if a == b:
        return a
    return norm(list(a) + list(b))


def compl(a):
    out = []
    lo = -INF
    for x, y in a:
        if x > lo:
            out.append((lo, x - 1))
        lo = y + 1
    if lo <= INF:
        out.append((lo, INF))
    return tuple(out)


def subset(a, b):
    return inter(a, b) == a


def ge(n):
    return ((n, INF),)


def le(n):
    return ((-INF, n),)


def _m(x, k):
    if x >= INF or x <= -INF:
        return INF if (x > 0) == (k > 0) else -INF
    return x * k


def shift(a, n):
    """a + n"""
    if n == 0:
        return a
    return tuple((lo if lo <= -INF else lo + n, hi if hi >= INF else hi + n) for lo, hi in a)


def scale_hull(a, k):
    """interval containing k*x for x in a"""
    if not a:
        return EMPTY
    lo, hi = a[0][0], a[-1][1]
    x, y = _m(lo, k), _m(hi, k)
    return ((min(x, y), max(x, y)),)


def neg(a):
    return tuple((-hi if hi < INF else -INF, -lo if lo > -INF else INF) for lo, hi in reversed(a))


def plus(a, b):
    """interval containing x+y"""
    if not a or not b:
        return EMPTY
    lo = -INF if a[0][0] <= -INF or b[0][0] <= -INF else a[0][0] + b[0][0]
    hi = INF if a[-1][1] >= INF or b[-1][1] >= INF else a[-1][1] + b[-1][1]
    return ((lo, hi),)


def size(a):
    n = 0
    for lo, hi in a:
        if lo <= -INF or hi >= INF:
            return INF
        n += hi - lo + 1
    return n


def members(a):
    for lo, hi in a:
        for v in range(lo, hi + 1):
            yield v
