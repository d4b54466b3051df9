"""Call graph of a dump."""


def walk(x, f):
    if isinstance(x, list):
        for y in x:
            walk(y, f)
    elif isinstance(x, dict):
        f(x)
        for y in x.values():
            walk(y, f)


class Graph:
    """edges[i] = list of (callee id, file, line, how)"""

    def __init__(self, prog):
        self.prog = prog
        self.edges = []
        self.indirect = 0
        vt = {}  # vtable slot -> methods
        for f in prog.fns:
            b = f.get("body")
            if not b:
                continue
            for blk in b["blocks"]:
                for line, st in blk[0]:
                    if st[0] == "=" and st[2][0] == "cast" and isinstance(st[2][5], dict):
                        tr = self.dyn_trait(st[2][3])
                        for i, m in enumerate(st[2][5]["m"]):
                            if m is not None:
                                vt.setdefault((tr, i), set()).add(m)
        for f in prog.fns:
            es = []
            b = f.get("body")
            if b:
                for blk in b["blocks"]:
                    file = blk[3]
                    for line, st in blk[0]:
                        self.mentions(st, es, file, line)
                    t = blk[2]
                    if t[0] == "call":
                        c = t[1]
                        if "inst" in c:
                            callee = prog.fns[c["inst"]]
                            es.append((c["inst"], file, blk[1], "call"))
                            if callee["kind"] == "virtual":
                                tr = self.self_dyn(callee["name"])
                                for m in vt.get((tr, callee["vidx"]), ()):
                                    es.append((m, file, blk[1], "virtual"))
                        else:
                            self.indirect += 1
                        self.mentions(t[2], es, file, blk[1])
                    elif t[0] == "drop":
                        if t[3] is not None:
                            es.append((t[3], file, blk[1], "drop"))
            self.edges.append(es)

    def dyn_trait(self, ty):
        for _ in range(6):
            t = self.prog.types[ty]
            if t["k"] == "dyn":
                return t["s"]
            if t["k"] in ("ref", "ptr"):
                ty = t["e"]
            elif t["k"] == "adt" and t["args"] and isinstance(t["args"][0], int):
                ty = t["args"][0]
            else:
                break
        return None

    def self_dyn(self, name):
        """<T as Trait>::method -> T"""
        depth = 0
        for i, c in enumerate(name):
            if c == "<":
                depth += 1
            elif c == ">" and name[i - 1] != "-":
                depth -= 1
            elif depth == 1 and name.startswith(" as ", i):
                return name[1:i]
        return None

    def mentions(self, x, es, file, line):
        def g(d):
            if "fn" in d and isinstance(d["fn"], int):
                es.append((d["fn"], file, line, "value"))
            if "self" in d and "m" in d:
                for m in d["m"]:
                    if m is not None:
                        es.append((m, file, line, "vtable"))
        walk(x, g)
        if isinstance(x, list) and x and x[0] == "=" and x[2][0] == "cast" and isinstance(x[2][5], int):
            es.append((x[2][5], file, line, "reify"))

    def sccs(self):
        n = len(self.edges)
        index = [None] * n
        low = [0] * n
        on = [False] * n
        st = []
        out = []
        cnt = 0
        for r in range(n):
            if index[r] is not None:
                continue
            work = [(r, iter([e[0] for e in self.edges[r]]))]
            index[r] = low[r] = cnt
            cnt += 1
            st.append(r)
            on[r] = True
            while work:
                v, it = work[-1]
                for w in it:
                    if index[w] is None:
                        index[w] = low[w] = cnt
                        cnt += 1
                        st.append(w)
                        on[w] = True
                        work.append((w, iter([e[0] for e in self.edges[w]])))
                        break
                    elif on[w]:
                        low[v] = min(low[v], index[w])
                else:
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == index[v]:
                        c = []
                        while True:
                            w = st.pop()
                            on[w] = False
                            c.append(w)
                            if w == v:
                                break
                        out.append(c)
        return out
