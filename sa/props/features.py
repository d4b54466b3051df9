"""C28: the xml feature only adds functions."""
from load import Program, ToolError
from report import where


class Norm:
    """Dump-independent rendering of bodies and types"""

    def __init__(self, prog):
        self.p = prog
        self.memo = {}

    def ty(self, i):
        if i is None:
            return None
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = "@rec"
        t = self.p.types[i]
        k = t["k"]
        if k == "adt":
            r = "%s<%s>" % (t["path"], ",".join(self.ty(a) if isinstance(a, int) else str(a) for a in t["args"]))
        elif k in ("slice", "array", "pat", "ptr", "ref"):
            r = "%s %s %s %s" % (k, t.get("mut"), t.get("n"), self.ty(t["e"]))
        elif k == "tuple":
            r = "(%s)" % ",".join(self.ty(x) for x in t["f"])
        elif k == "closure":
            r = "closure %s(%s)" % (t["path"], ",".join(self.ty(x) for x in t["f"]))
        elif k == "fndef":
            r = "fn " + t["path"]
        else:
            r = str(sorted((a, b) for a, b in t.items() if a != "inst"))
        self.memo[i] = r
        return r

    def fn(self, i):
        return None if i is None else self.p.fns[i]["name"]

    def place(self, pl):
        out = []
        for e in pl[1]:
            if e[0] == "f":
                out.append(("f", e[1], self.ty(e[2])))
            elif e[0] == "oc":
                out.append(("oc", self.ty(e[1])))
            else:
                out.append(tuple(e))
        return (pl[0], tuple(out))

    def const(self, v):
        if isinstance(v, dict):
            r = []
            for k in sorted(v):
                x = v[k]
                if k == "fn":
                    r.append((k, self.fn(x)))
                elif k == "adt" or k == "ty":
                    r.append((k, self.ty(x)))
                else:
                    r.append((k, self.const(x)))
            return tuple(r)
        if isinstance(v, list):
            return tuple(self.const(x) for x in v)
        return v

    def op(self, o):
        if o[0] in ("c", "m"):
            return (o[0], self.place(o[1]))
        if o[0] == "k":
            return ("k", self.const(o[1]))
        return tuple(o)

    def rv(self, r):
        k = r[0]
        if k == "use":
            return (k, self.op(r[1]))
        if k == "rep":
            return (k, self.op(r[1]), r[2])
        if k in ("ref", "reb"):
            return (k, self.place(r[1]), r[2])
        if k in ("len", "discr"):
            return (k, self.place(r[1]))
        if k == "cast":
            x = r[5]
            if isinstance(x, dict):
                x = (self.ty(x["self"]), tuple(self.fn(m) for m in x["m"]))
            elif x is not None:
                x = self.fn(x)
            return (k, r[1], self.op(r[2]), self.ty(r[3]), self.ty(r[4]), x)
        if k in ("bin", "cbin"):
            return (k, r[1], self.op(r[2]), self.op(r[3]), self.ty(r[4]))
        if k == "un":
            return (k, r[1], self.op(r[2]), self.ty(r[3]))
        if k == "agg":
            return (k, r[1], self.ty(r[2]), r[3], tuple(self.op(o) for o in r[4]), r[5])
        return tuple(str(x) for x in r)

    def body(self, b):
        out = []
        for st, _line, t, _file in b["blocks"]:
            ss = []
            for _l, s in st:
                if s[0] == "=":
                    ss.append(("=", self.place(s[1]), self.rv(s[2])))
                elif s[0] == "sd":
                    ss.append(("sd", self.place(s[1]), s[2]))
                elif s[0] == "assume":
                    ss.append(("assume", self.op(s[1])))
                elif s[0] == "cpy":
                    ss.append(("cpy",) + tuple(self.op(x) for x in s[1:]))
                else:
                    ss.append(tuple(s))
            k = t[0]
            if k == "switch":
                tt = (k, self.op(t[1]), tuple(tuple(x) for x in t[2]), t[3], self.ty(t[4]))
            elif k == "drop":
                tt = (k, self.place(t[1]), t[2], self.fn(t[3]))
            elif k == "call":
                c = t[1]
                if "inst" in c:
                    c = (self.fn(c["inst"]), c["decl"])
                elif "op" in c:
                    c = ("op", self.op(c["op"]))
                else:
                    c = ("unres", c["unres"])
                tt = (k, c, tuple(self.op(a) for a in t[2]), self.place(t[3]), t[4])
            elif k == "assert":
                tt = (k, self.op(t[1]), t[2], t[3], t[4])
            else:
                tt = tuple(t)
            out.append((tuple(ss), tt))
        return (tuple(self.ty(x) for x in b["locals"]), b["argc"], b["spread"], tuple(out))

    def adt(self, t):
        return tuple((v["n"], v["d"], tuple((n, self.ty(ft)) for n, ft in v["f"])) for v in t["v"])


def check(prop, rep, tier):
    rep.rule = ("every function and every type of the library present with the xml feature off has, with "
                "the feature on, the same definition (type-checked intermediate representation)")
    on = Program("lib")
    off = Program("noxml")
    a, b = Norm(on), Norm(off)
    fon = {f["name"]: f for f in on.fns if on.is_lib(f)}
    foff = {f["name"]: f for f in off.fns if off.is_lib(f)}
    if len(foff) < 190:
        raise ToolError("only %d functions of the library found without the xml feature" % len(foff))
    extra = sorted(set(fon) - set(foff))
    if not extra:
        raise ToolError("the xml feature adds no function: the two configurations are the same")
    for n in sorted(foff):
        f = foff[n]
        if n not in fon:
            rep.violation("missing %s" % f["path"], "%s exists only with the xml feature off" % f["path"],
                          where(f["file"], f["line"]))
            continue
        g = fon[n]
        rep.count("functions_compared")
        if ("body" in f) != ("body" in g) or ("body" in f and a.body(g["body"]) != b.body(f["body"])):
            rep.violation("differs %s" % f["path"], "%s is different with the xml feature on" % f["path"],
                          where(g["file"], g["line"]))
    names_on = {x[0]: x for x in on.libfns}
    for x in off.libfns:
        rep.count("definitions_compared")
        if x[0] not in names_on:
            rep.violation("undefined %s" % x[0], "%s is not defined with the xml feature on" % x[0],
                          where(x[2], x[3]))
    ton = {}
    for i, t in enumerate(on.types):
        if t["k"] == "adt" and t["path"].startswith("hml_rs::"):
            ton[a.ty(i)] = t
    for i, t in enumerate(off.types):
        if t["k"] == "adt" and t["path"].startswith("hml_rs::"):
            rep.count("types_compared")
            o = ton.get(b.ty(i))
            if o is not None and a.adt(o) != b.adt(t):
                rep.violation("type %s" % t["path"], "%s is different with the xml feature on" % t["path"],
                              t["path"])
    rep.coverage["functions_added_by_feature"] = len(extra)
    rep.coverage["obligations"] = (rep.coverage["functions_compared"] + rep.coverage["definitions_compared"]
                                   + rep.coverage["types_compared"])
