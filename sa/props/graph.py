"""C21 no side effects, C22 no recursion: call graph rules."""
import re

from cg import Graph
from load import Program, ToolError
from report import where

# what a library without side effects may not reach
DENY = re.compile(
    r"(^|<|\s)(std::io::(_print|_eprint|stdout|stderr|stdin|Stdout|Stderr|Stdin|copy|pipe|stdio)"
    r"|std::fs::|std::net::|std::env::|std::process::|std::os::|std::thread::"
    r"|std::time::(Instant|SystemTime)::now|std::backtrace::|std::sys::(stdio|fs|net|process|env))"
)
# where the walk stops: failure paths, the allocator and the seed of std's hash tables
STOP = re.compile(
    r"^(core::panicking::|std::rt::panic|std::rt::begin_panic|std::panicking::|core::panic::"
    r"|std::alloc::|alloc::alloc::|std::hash::random::|std::hash::RandomState::new"
    r"|<std::hash::RandomState as std::default::Default>::default"
    r"|alloc::raw_vec::handle_error|core::option::(unwrap_failed|expect_failed)"
    r"|core::result::unwrap_failed|std::process::abort$|std::alloc::handle_alloc_error)"
)
CELLS = ("std::cell::UnsafeCell", "core::cell::UnsafeCell")


def name(f):
    return f["path"]


def has_cell(prog, ty, seen=None):
    seen = seen if seen is not None else set()
    if ty in seen:
        return False
    seen.add(ty)
    t = prog.types[ty]
    k = t["k"]
    if k == "adt":
        if t["path"] in CELLS:
            return True
        return any(has_cell(prog, ft, seen) for v in t["v"] for _, ft in v["f"])
    if k in ("array", "slice", "pat"):
        return has_cell(prog, t["e"], seen)
    if k == "tuple":
        return any(has_cell(prog, x, seen) for x in t["f"])
    return False


def effects(prog, g, roots):
    """Functions reachable from the roots and the first denied ones met"""
    parent = {r: None for r in roots}
    todo = list(roots)
    hits = []
    while todo:
        i = todo.pop()
        for (j, file, line, how) in g.edges[i]:
            # methods of a vtable are followed where the vtable is made; the
            # seed of a hash table is std's own thread local
            if j in parent or how == "virtual" or file.endswith("std/src/hash/random.rs"):
                continue
            p = name(prog.fns[j])
            if STOP.search(p):
                continue
            parent[j] = (i, file, line)
            if DENY.search(p):
                hits.append(j)
                continue
            todo.append(j)
    return parent, hits


def chain(prog, parent, j):
    out = []
    while parent[j] is not None:
        i, file, line = parent[j]
        out.append("%s called at %s in %s" % (name(prog.fns[j]), where(file, line), name(prog.fns[i])))
        j = i
    return out


def c21(rep, prog, g):
    rep.rule = ("no function reachable from the library calls a function that performs I/O or reads or "
                "changes process state; no static of the library is mutable, thread local or has interior "
                "mutability")
    roots = [f["id"] for f in prog.fns if prog.is_lib(f)]
    if len(roots) < 200:
        raise ToolError("only %d functions of the library found" % len(roots))
    parent, hits = effects(prog, g, roots)
    lib_of = {}
    for j in hits:
        c = chain(prog, parent, j)
        # the last library function on the chain is the one to blame
        k = j
        while parent[k] is not None and not prog.is_lib(prog.fns[parent[k][0]]):
            k = parent[k][0]
        site = parent[k]
        fn = name(prog.fns[site[0]]) if site else "?"
        key = "%s -> %s" % (fn, name(prog.fns[k]))
        if key in lib_of:
            continue
        lib_of[key] = 1
        rep.violation(key, "%s reaches %s" % (fn, name(prog.fns[j])),
                      where(site[1], site[2]) if site else "", c)
    for st in prog.statics:
        nm, ty, mutable, tls = st
        if mutable or tls or has_cell(prog, ty):
            rep.violation("static " + nm, "mutable global state in static %s" % nm, nm)
    # foreign functions and inline assembly in the library itself
    for i in roots:
        for (j, file, line, how) in g.edges[i]:
            if prog.fns[j]["foreign"]:
                rep.violation("foreign %s in %s" % (name(prog.fns[j]), name(prog.fns[i])),
                              "%s calls the foreign function %s" % (name(prog.fns[i]), name(prog.fns[j])),
                              where(file, line))
    rep.coverage["library_functions"] = len(roots)
    rep.coverage["functions_reached"] = len(parent)
    rep.coverage["call_sites"] = sum(len(g.edges[i]) for i in parent)
    rep.coverage["statics"] = len(prog.statics)
    rep.coverage["obligations"] = rep.coverage["call_sites"] + len(prog.statics)


def c21_example(rep):
    """the rule must recognise effects: the converter has them"""
    p = Program("bin")
    g = Graph(p)
    roots = [f["id"] for f in p.fns if f["path"].endswith("main") and f["crate"] == "hmlconvert"]
    _, hits = effects(p, g, roots)
    if not any("_eprint" in name(p.fns[h]) or "stdin" in name(p.fns[h]) for h in hits):
        raise ToolError("the effect rule does not recognise the converter's own input and output")
    rep.coverage["positive_example_hits"] = len(hits)


def c22(rep, prog, g):
    rep.rule = "no cycle of the resolved call graph passes through a function of the library"
    lib = [f["id"] for f in prog.fns if prog.is_lib(f)]
    if len(lib) < 200:
        raise ToolError("only %d functions of the library found" % len(lib))
    ncyc = 0
    for c in g.sccs():
        s = set(c)
        selfloop = len(c) == 1 and any(e[0] == c[0] for e in g.edges[c[0]])
        if len(c) == 1 and not selfloop:
            continue
        ncyc += 1
        mine = [i for i in c if prog.is_lib(prog.fns[i])
                or (prog.fns[i]["kind"] == "shim" and "hml_rs::" in prog.fns[i]["name"])]
        # dropping a dyn value calls the drop glue found in its vtable
        mine = [i for i in mine if not prog.fns[i]["name"].startswith("std::ptr::drop_glue::<dyn ")]
        if not mine:
            continue
        path = []
        for i in c:
            for (j, file, line, how) in g.edges[i]:
                if j in s:
                    path.append("%s -> %s at %s (%s)" % (name(prog.fns[i]), name(prog.fns[j]),
                                                         where(file, line), how))
        key = "cycle " + ",".join(sorted(set(name(prog.fns[i]) for i in mine)))
        i = mine[0]
        rep.violation(key, "recursion through %s" % ", ".join(sorted(set(name(prog.fns[i]) for i in mine))),
                      where(prog.fns[i]["file"], prog.fns[i]["line"]), path)
    rep.coverage["library_functions"] = len(lib)
    rep.coverage["functions"] = len(prog.fns)
    rep.coverage["call_edges"] = sum(len(e) for e in g.edges)
    rep.coverage["cycles_outside_the_library"] = ncyc
    rep.coverage["obligations"] = len(lib)


def check(prop, rep, tier):
    prog = Program("lib")
    g = Graph(prog)
    if prop == "C21":
        c21(rep, prog, g)
        c21_example(rep)
    else:
        c22(rep, prog, g)
