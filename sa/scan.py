"""The first index of the text from a position on where a predicate holds.

The walk goes on while the facts decide the predicate.  A run of characters an
earlier loop went over is crossed in one step: for an arbitrary iteration of
that loop no character it passed satisfies the predicate.
"""
from lin import *
from facts import *
from engine import *
import loops
import models

FORKS = 2
STEPS = 200


class Lost(Exception):
    pass


def stops(E, st, fr, k, clo, line):
    """[(state, truth)] of the predicate at k, where k < N"""
    out = []
    for s, v in models.call_value(E, st, fr, clo, [("int", k), ("int", text_char(k))], None, line):
        c = E.cond(v)
        if c is None:
            raise Unsupported("scan predicate")
        for t, x in E.branch(s, c):
            out.append((x, t))
    if E.recording and len(set(t for _, t in out)) > 1 and st.facts.regs:
        about = ("in", text_char(st.facts.norm(k)), CHAR)
        out = [(x, t) for x, t in out if not loops.refute(x.facts, about)]
    return out


def walk(E, st, fr, k, clo, line, goal, forks, depth):
    """[(state, index, how)] with how one of stop, end, goal, lost"""
    out = []
    work = [(st, k, forks, ())]
    steps = 0
    while work:
        s, k, forks, used = work.pop()
        steps += 1
        k = s.facts.norm(k)
        if goal is not None and s.facts.ask(c_le(goal, k)) is True:
            out.append((s, k, "goal"))
            continue
        if steps > STEPS:
            out.append((s, k, "lost"))
            continue
        j = jump(E, s, fr, k, clo, line, used, depth)
        if j is not None:
            work.append((s, j[0], forks, used + (j[1],)))
            continue
        r = s.facts.ask(c_lt(k, models.TEXT_N))
        if r is None:
            if forks <= 0:
                out.append((s, k, "lost"))
                continue
            for t, x in E.branch(s, c_lt(k, models.TEXT_N)):
                work.append((x, k, forks - 1, used))
            continue
        if r is False:
            out.append((s, k, "end"))
            continue
        rs = stops(E, s, fr, k, clo, line)
        if len(set(t for _, t in rs)) > 1:
            if forks <= 0:
                out.append((s, k, "lost"))
                continue
            forks -= 1
        for x, t in rs:
            if t:
                out.append((x, k, "stop"))
            else:
                work.append((x, addk(k, 1), forks, used))
    return out


def jump(E, s, fr, k, clo, line, used, depth):
    """(index after the run, its key) when an earlier loop ran from k"""
    if depth > 2:
        return None
    f = s.facts
    for reg in reversed(f.regs):
        b = reg[2].t[0][0]
        cnt = f.norm(reg[3])
        if not cnt.t and cnt.c == 0:
            continue
        for lf in reg[4]:
            if not loops.dep(lf, b):
                continue
            z = f.norm(subst_lin(lf, {b: ZERO}))
            key = (reg[1], reg[3], lf)
            if key in used:
                continue
            d = f.norm(sub(k, z))
            if d.t or abs(d.c) > 8:
                continue
            if crosses(E, s, fr, reg, addk(lf, d.c), cnt, clo, line, depth):
                return f.norm(addk(subst_lin(lf, {b: cnt}), d.c)), key
    return None


def crosses(E, s, fr, reg, lf, cnt, clo, line, depth):
    b = reg[2].t[0][0]
    E.scans = getattr(E, "scans", 0) + 1
    j = V(("scanj", E.scans), NONNEG)
    rec = E.recording
    E.recording = False
    try:
        for f in s.facts.assume(c_lt(j, cnt)):
            for g in loops.instantiate(f, reg, j):
                x = s.fork(g)
                lo = g.norm(subst_lin(lf, {b: j}))
                hi = g.norm(subst_lin(lf, {b: addk(j, 1)}))
                for y, _, how in walk(E, x, fr, lo, clo, line, hi, 0, depth + 1):
                    if how != "goal":
                        return False
    finally:
        E.recording = rec
    return True


def scan(E, st, fr, p, clo, line):
    out = []
    for s, k, how in walk(E, st, fr, p, clo, line, None, FORKS, 0):
        if how == "lost":
            s.taint = s.taint + ("scan",)
            i = V(E.fresh(s, fr, "scan"), NONNEG)
            for x in E.assume(s, c_le(k, i)):
                for y in E.assume(x, c_le(i, models.TEXT_N)):
                    out.append((y, i))
        else:
            out.append((s, k))
    return out
