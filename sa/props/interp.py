"""Properties decided by the abstract interpreter.

Each root of /verif/probe states obligations about the calls it makes into the
library.  The interpreter follows the type-checked program from the root over
all inputs at once, with loop invariants (A).  Obligations it cannot discharge
are looked at again with the first iterations of every loop kept apart (B); an
obligation that fails there on a path about which nothing was approximated is a
violation, any other is left undecided and listed in the evidence.
"""
import multiprocessing
import multiprocessing.connection
import os
import resource
import time

from load import Program, ToolError
from engine import *
import models
import hist
import snap
import esc
import conv
import lists
import loops
from cg import Graph

_prog = {}


def program(kind="lib"):
    if kind not in _prog:
        _prog[kind] = Program(kind)
    return _prog[kind]


class Root:
    """fn: root function; args(E, st, body) -> values; stubs(E); own: tags of
    panics outside the library are ignored"""

    def __init__(self, fn, args=None, setup=None, depths=((1, False, None), (2, False, None), (3, False, None)), budget=400, a_budget=500, history=False, bfn=None, loop=None, also=(), kind="lib", after=None):
        self.kind = kind
        self.after = after
        self.also = also
        self.loop = loop
        self.fn = fn
        self.bfn = bfn or fn
        self.args = args or sym_args
        self.setup = setup
        self.depths = depths
        self.budget = budget
        self.a_budget = a_budget
        self.history = history


def sym_args(E, st, body, f):
    out = []
    for i in range(body.argc):
        t = body.locals[i + 1]
        x = E.ty(t)
        if x["k"] == "ref":
            v = E.mk_sym(("arg", i), x["e"], st)
            if x.get("mut"):
                st.mem[("arg", i)] = v
                out.append(("ptr", ("arg", i), ()))
            else:
                out.append(("ref", v))
        else:
            out.append(E.mk_sym(("arg", i), t, st))
    return out


def lex_args(E, st, body, f):
    p = V(("P",), NONNEG)
    st.facts = st.facts.assume(c_le(p, models.TEXT_N))[0]
    return [("adt", body.locals[1], 0, (("int", p),))]


def comment(E, st):
    return st.facts.assume(c_in(text_char(V(("P",), NONNEG)), iset(59)))


def no_comment(E, st):
    return st.facts.assume(c_not(c_in(text_char(V(("P",), NONNEG)), iset(59))))


def ns_args(E, st, body, f):
    t = E.ty(body.locals[1])
    st.mem[("arg", 1)] = ("opq", ("ns",), t["e"])
    return [("ptr", ("arg", 1), ())]


def history_args(E, st, body, f):
    t = E.ty(body.locals[2])
    st.mem[("arg", 2)] = ("opq", ("ns",), t["e"])
    return [("int", V(("version",), NONNEG)), ("ptr", ("arg", 2), ())]


def tags(E, st):
    E.token_kinds = (None, "Open", "Close")
    return [st.facts]


def attrs(E, st):
    E.token_kinds = lambda n: ("Open",) if n <= 1 else ("Attr", None)
    return [st.facts]


def opens(E, st):
    E.token_kinds = (None, "Open", "Attr", "Chars")
    return [st.facts]


LEX_DEPTHS = ((1, False, None), (2, False, comment), (3, False, comment), (4, False, comment),
              (2, False, no_comment), (3, False, no_comment), (4, False, no_comment), (12, True, no_comment))

ROOTS = {
    "lex": Root("probe::spec_lex::s_lex", lex_args, depths=LEX_DEPTHS),
    "history": Root("probe::reader::r_history", history_args, hist.setup, history=True,
                    depths=((2, False, None), (3, False, None), (4, False, None), (5, False, None), (6, False, tags),
                            (7, False, tags), (6, False, attrs), (6, False, opens))),
    "comment": Root("probe::reader::r_comment", ns_args, hist.comment_setup, depths=((4, False, None),)),
    "event": Root("probe::events::s_event"),
    "take": Root("probe::events::s_take"),
    "build": Root("probe::events::s_build"),
    "owned": Root("probe::events::s_build_owned"),
    "error": Root("probe::events::s_error"),
    "locate": Root("probe::events::s_locate"),
    "wrap": Root("probe::events::s_wrap"),
    "io": Root("probe::events::s_io"),
    "writer": Root("probe::xmlev::s_writer", setup=hist.names_setup),
    "reader": Root("probe::xmlev::s_reader", setup=hist.names_setup),
    "lexraw": Root("probe::roots::r_lex", lex_args, depths=LEX_DEPTHS),
}

KINDS = ("prefix", "uri", "name")
NOUNS = ("prefix", "URI", "name")
INTERNING = ("add", "found", "absent", "keep")
for _k in KINDS:
    for _l in INTERNING:
        ROOTS["%s_%s" % (_l, _k)] = Root("probe::names::n_%s_%s" % (_l, _k), setup=snap.names_setup,
                                         bfn="probe::names::u_%s_%s" % (_l, _k), loop=12)
MAPPING = ("add", "unset", "unset_again", "unset_set", "unset_new", "unset_other", "scope", "drop", "ns", "ns_unset", "new")
for _l in MAPPING:
    ROOTS["map_" + _l] = Root("probe::names::m_" + _l, bfn="probe::names::g_" + _l, loop=12,
                               depths=tuple((n, False, None) for n in (1, 2, 3, 4)))
NAMES = ("new", "keep", "keep_uri", "local", "one", "two", "bad")
for _l in NAMES:
    ROOTS["name_" + _l] = Root("probe::names::a_" + _l, bfn="probe::names::h_" + _l, loop=12)
ROOTS["name_none"] = Root("probe::names::a_none")
ATTRS = ("maps", "is", "list", "tag", "steal")
for _l in ATTRS:
    ROOTS["attr_" + _l] = Root("probe::names::x_" + _l, setup={"maps": snap.maps_setup, "list": snap.list_setup}.get(_l), bfn="probe::names::h_" + _l, loop=12)
ROOTS["flags"] = Root("probe::esc::s_flags")
ROOTS["escape"] = Root("probe::esc::s_escape", bfn="probe::esc::u_escape", setup=esc.setup, loop=12)
ROOTS["utf8_refs"] = Root("probe::esc::u_refs", bfn="probe::esc::u_refs", setup=esc.utf8_setup(0), loop=200)
for _l in ("replace", "esc", "bytes"):
    ROOTS["utf8_" + _l] = Root("probe::esc::s_" + _l, bfn="probe::esc::u_" + _l, setup=esc.utf8_setup(0), loop=40, also=("utf8_refs",) if _l == "replace" else ())
ROOTS["convert"] = Root("hmlconvert::main", setup=conv.setup, kind="bin", after=conv.after)
for _l, _f, _b in (("all_seen", "all", "all"), ("all_unseen", "all", "all"), ("top_declared", "top", "top"), ("top_undeclared", "top", "top"),
                   ("use_declared", "use", "top"), ("use_undeclared", "use", "top"), ("scope_declared", "scope", "top"),
                   ("scope_undeclared", "scope", "top")):
    ROOTS["list_" + _l] = Root("probe::names::l_" + _f, lists.stack_args(_l.split("_")[1]), bfn="probe::names::k_" + _b, loop=12,
                               depths=tuple((n, False, None) for n in (1, 2, 3, 4)))
ROOTS["list_new"] = Root("probe::names::l_new", setup=lists.new_setup, bfn="probe::names::k_top", loop=12)
LISTS = tuple(k for k in ROOTS if k.startswith("list_"))
ROOTS["new"] = Root("probe::names::n_new")

# property -> (roots, tags that must be reached, fewest obligations, rule)
PROPS = {
    "C06": (["lex"], ["C06:advance within the text", "C06:token starts where it was attempted",
                      "C06:token ends where lexing resumes", "C06:token consumes a character",
                      "C06:character given is the one there"], 100,
            "position typestate: every position handed to the text or returned is one reached by consuming "
            "the characters there, and a token's span is the interval consumed"),
    "C07": (["lex"], ["C07:kind of token", "C07:end of token", "C07:end of text"], 60,
            "agreement of the value computed by the lexing functions with the grammar, over all texts"),
    "C08": (["lex"], ["C08:prefix", "C08:name", "C08:depth", "C08:boxed", "C08:attribute value",
                      "C08:string content", "C08:comment without lines", "C08:first comment line",
                      "C08:comment lines follow each other", "C08:last comment line"], 100,
            "the strings of a token are intervals of the text with the bounds the grammar gives"),
    "C11": (["lex"], ["C11:characters of the name", "C11:characters of the prefix"], 20,
            "the characters over which the name loops run are exactly the XML name tables"),
    "C26": (["lex"], ["C26:newline counted as a column", "C26:other character counted as a line"], 20,
            "every advance over characters as columns is over characters known not to be newlines"),
    "C01": (["history"], ["C01:version", "C01:EndElement name differs from its StartElement", "C01:after EndDocument",
                          "C01:token taken outside the document", "C01:token taken before StartDocument"], 60,
            "event typestate: the results of any sequence of calls follow the document automaton, with the names of "
            "open elements kept on a stack beside the reader's own"),
    "C02": (["history"], ["C02:scope per element at a token", "C02:scope per element at an event", "C02:scopes left at the end",
                          "C02:name resolved in the scope of its element", "C02:namespace declared in the scope of its element",
                          "C02:scope removed that the reader did not add"], 120,
            "resource balance: scopes added less scopes removed equals the number of open elements at every token, event "
            "and name resolution"),
    "C03": (["history"], ["C03:open tag dropped", "C03:depth in the indent error"], 20,
            "agreement of what each tag does with the depth in force, over any history of tokens"),
    "C04": (["history"], ["C04:close tag of another name accepted", "C04:close tag of another depth accepted",
                          "C04:matching close tag refused", "C04:close tag dropped", "C04:unmatched close tag not located"], 40,
            "agreement of what each close tag does with the innermost open box, over any history of tokens"),
    "C09": (["history", "comment"], ["C09:Content text", "C09:Content span", "C09:Content type", "C09:StartElement name",
                          "C09:StartElement span", "C09:number of attributes", "C09:attribute name", "C09:attribute value",
                          "C09:Comment span", "C09:token dropped", "C09:text of the comment",
                          "C09:lengths of the comment's lines"], 120,
            "value provenance: the data of an event is the data of the token it stands for, followed through the reader's "
            "pending state over any history of tokens"),
    "C10": (["history"], ["C10:content outside any element"], 1,
            "event typestate: no history delivers content while the stack of open elements is empty"),
    "C20": (["history", "error", "locate", "wrap", "io"], ["C20:lexing error not returned", "C20:name error not returned", "C20:not the error met",
                          "C20:span of the attribute", "C20:span of the close tag", "C20:span of the indent error",
                          "C20:span of the misplaced attribute", "C20:span of the tag"], 120,
            "error flow: a call in which a token or a name failed returns that error, with the span of its token"),
    "C12": (["new"] + ["%s_%s" % (_l, _k) for _k in KINDS for _l in INTERNING],
            ["C12:none is the empty " + k for k in NOUNS] + ["C12:string of the %s added" % k for k in NOUNS]
            + ["C12:same %s added again" % k for k in NOUNS] + ["C12:other %s found after adding" % k for k in NOUNS]
            + ["C12:identifier of a %s changed" % k for k in NOUNS] + ["C12:%s found that was not added" % k for k in NOUNS]
            + ["C12:string of an earlier " + k for k in NOUNS] + ["C12:string of the %s found" % k for k in NOUNS]
            + ["C12:name in new tables", "C12:default of no name"], 200,
            "inductive step: from tables holding any strings, one use of any public function keeps every identifier's string "
            "and every string's identifier, and adds only the string it is given"),
    "C13": (["map_" + _l for _l in MAPPING],
            ["C13:mapping just added not found", "C13:mapping of another prefix changed", "C13:mapping added if unset not found",
             "C13:mapping set changed", "C13:added if unset though set", "C13:not added though unset in the innermost scope",
             "C13:unset depends on another prefix", "C13:new scope hides a mapping", "C13:removed scope changed a mapping",
             "C13:mapping outlives its scope", "C13:prefix of the mapping", "C13:URI of the mapping", "C13:first mappings"], 200,
            "inductive step: from a stack of any number of scopes with any mappings, the effect of one use of each public "
            "function on the lookup of any prefix is the one stated"),
    "C14": (list(LISTS), ["C14:prefix listed twice", "C14:mapping listed is not the one found", "C14:visible prefix not listed",
                          "C14:declared prefix listed twice", "C14:declaration listed is not the one made",
                          "C14:declaration not listed", "C14:order of the declarations"], 20,
            "inductive step and typestate of one prefix: of a stack of any number of scopes split at the innermost that maps "
            "the prefix, the listing comes by it exactly once, there; the order kept for a scope has it exactly when its map has"),
    "C15": (["name_new", "name_local", "name_one", "name_two", "name_bad", "name_none", "attr_tag"],
            ["C15:prefix of the name", "C15:URI of the name", "C15:local part of the name", "C15:empty name accepted",
             "C15:unmapped prefix accepted", "C15:reported as empty", "C15:reported as unmapped", "C15:prefix reported",
             "C15:printed name", "C15:printed local name", "C15:local name has a namespace", "C15:bad name reported",
             "C15:name of the tag", "C15:has_prefix", "C15:has_uri", "C15:no name"], 80,
            "value provenance: the name built from any strings in any state of the tables and scopes is made of what "
            "looking up these strings in that state gives, and is refused only where that gives nothing"),
    "C16": (["attr_maps", "attr_is", "attr_list", "attr_tag", "attr_steal", "name_keep", "name_keep_uri"],
            ["C16:declared namespace", "C16:namespace not declared", "C16:declaration changes another prefix",
             "C16:other attribute changes a mapping", "C16:value of the attribute", "C16:name of the attribute",
             "C16:name resolved after the declaration", "C16:attribute refused", "C16:number of attributes",
             "C16:earlier attribute changed", "C16:attribute added to the list", "C16:attributes of the tag",
             "C16:mapping changed by a name", "C16:attribute taken over"], 1000,
            "inductive step: from a stack of any number of scopes with any mappings, the effect of any attribute on the "
            "lookup of any prefix is the one stated"),
    "C17": (["escape", "flags"], ["C17:flags", "C17:escaped text", "C17:text unchanged but returned", "C17:character left as it is"], 20,
            "effect of appends: what is appended to the result while byte k of the text is looked at is what byte k "
            "becomes, for every k, and the search for a byte to escape passes over none"),
    "C19": (["writer", "reader"], ["C19:writer StartDocument", "C19:writer EndDocument", "C19:writer StartElement name",
                          "C19:writer number of attributes", "C19:writer attribute name", "C19:writer attribute value",
                          "C19:writer EndElement", "C19:writer Content", "C19:writer ProcessingInstruction",
                          "C19:writer Comment", "C19:reader StartDocument", "C19:reader EndDocument",
                          "C19:reader StartElement name", "C19:reader number of attributes", "C19:reader attribute name",
                          "C19:reader attribute value", "C19:reader EndElement name", "C19:reader Content",
                          "C19:reader ProcessingInstruction", "C19:reader Comment"], 40,
            "value provenance: the XML event built from any event has the kind, names, attributes and text of that event, "
            "with the strings of its identifiers"),
    "C24": (["event", "take", "build", "owned"], ["C24:type of StartElement", "C24:span of StartElement", "C24:as_start_document",
                          "C24:as_end_element", "C24:as_content", "C24:as_start_element", "C24:as_start_element of another kind",
                          "C24:start_document", "C24:end_document", "C24:end_element", "C24:content", "C24:content_raw",
                          "C24:content_int", "C24:content_ws", "C24:start_element", "C24:comment", "C24:is_start_document",
                          "C24:is_end_document"], 40,
            "value provenance: each accessor returns the fields of the event it is given, each constructor an event of "
            "its kind with the fields it is given, whatever they are"),
    "C25": (["utf8_replace", "utf8_esc", "utf8_bytes"], [], 200,
            "whole characters: a buffer taken for a string without a check has only been appended strings, ASCII bytes "
            "and pieces of a string cut where a character starts"),
    "C27": (["convert"], ["C27:event not written", "C27:event written", "C27:every event written", "C27:output asked for",
                          "C27:parse error reported", "C27:status after a parse error", "C27:status after a write failed",
                          "C27:text of the requested document", "C27:version asked for"], 50,
            "event typestate and value provenance in the converter's main function: every event delivered is written before "
            "the next is asked for, and every way out has the status and report the events before it call for"),
    "C23": (["lexraw", "history", "comment", "escape", "utf8_replace", "name_two", "map_scope",
             "found_prefix", "found_name", "found_uri", "list_all_seen", "list_all_unseen", "list_top_declared", "list_top_undeclared",
             "writer", "reader"], ["C23:loop goes on for ever"], 20,
            "ranking: in every round of every loop of the library a value comes closer to a bound that does not move, or the "
            "number of rounds is bounded; a token asked for again after there were none counts as a round"),
    "C05": (["lexraw", "history"], ["panic"], 200,
            "every assertion, index, unwrap and slice reachable from the lexing functions and from next_event is shown "
            "not to fail"),
}

ASSUME = [
    "64 bit additions and multiplications do not overflow (they count characters of a text in memory)",
    "lexer-rs hands the lexing functions the text as its documentation says (peek, advance, slices)",
    "NamespaceStack by the contract C12 to C16 state (histories of the reader only)",
    "models of the standard library functions in /verif/sa/models.py",
]


def prop_of(tag):
    if tag == "panic":
        return "C05"
    return tag.split(":")[0]


def run(root, mode, unroll, deadline, single=False, part=None, only=None):
    r = ROOTS[root]
    E = Engine(program(r.kind), mode, unroll=r.loop or unroll)
    E.ops = unroll
    E.deadline = deadline
    E.single = single
    E.only = only
    f = E.p.fns[E.p.fn(r.fn if mode == "A" else r.bfn)]
    st = State()
    if r.setup:
        r.setup(E, st)
    args = r.args(E, st, E.body(f), f)
    if part is not None:
        st.facts = part(E, st)[0]
    E.complete = True
    try:
        if r.history and mode == "A":
            hist.run_global(E, f, st, args)
            E.complete = E.gunstable == 0
        else:
            out = E.enter(st, None, f, args)
            if r.after:
                r.after(E, out)
    except (Budget, MemoryError):
        E.complete = False
    except ToolError:
        raise
    except Exception as e:
        E.unmodelled["given up: %s %s" % (type(e).__name__, e)] = 1
        E.complete = False
    return E


def failing(E, prop):
    out = {}
    for (tag, where), r in E.fails.items():
        if prop_of(tag) != prop:
            continue
        if tag == "panic" and not library(E, where):
            continue
        out[(tag, where)] = r
    return out


def library(E, where):
    return "probe::" not in where and "spec_lex" not in where


A_TIME = 400   # seconds for the analyses with loop invariants of one property
B_TIME = 300   # seconds at least for looking again


def check(prop, rep, tier):
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    roots, tags, floor, rule = PROPS[prop]
    rep.rule = rule
    rep.assumptions += ASSUME
    seen = {}
    unfinished = False
    start = time.time()
    if prop == "C25":
        roots, places = unsafe_calls(rep, roots)
    look = []
    funs = set()
    for root, A in invariants(prop, roots, start):
        if not A["complete"]:
            rep.undecided("%s: analysis with loop invariants not finished" % root)
            unfinished = True
        for tag, (good, bad, sites) in A["obl"].items():
            rep.count("obligations", good + bad)
            rep.count("program_points", sites)
            seen[tag] = seen.get(tag, 0) + good + bad
        funs |= A["functions"]
        rep.count("blocks", A["blocks"])
        rep.count("abstract_steps", A["steps"])
        rep.count("loops", A["loops"])
        for k in A["unmodelled"]:
            rep.count("unmodelled", 1)
            rep.coverage.setdefault("unmodelled_in", []).append(k)
        rep.coverage.setdefault("unproved_by_invariants", []).extend("%s at %s" % k for k in sorted(A["bad"]))
        if A["bad"] or not A["complete"]:
            look.append((root, A["bad"] if A["complete"] else None))
            look += [(x, None) for x in ROOTS[root].also]
    rep.count("functions", len(funs))
    if prop == "C25":
        for i, callee, line in places:
            if not callee.split("::")[-1].startswith(("from_utf8_unchecked", "get_unchecked", "from_u32_unchecked")):
                rep.undecided("no rule for the unsafe %s in %s" % (callee, program().fns[i]["path"]))
            elif i not in funs:
                rep.undecided("unsafe call of %s in %s not looked at" % (callee, program().fns[i]["path"]))
    if prop == "C23":
        for k in sorted(looping(rep)):
            if k not in funs:
                rep.undecided("loop in %s not looked at" % program().fns[k]["path"])
    end = time.time() + max(B_TIME, A_TIME + B_TIME - (time.time() - start))
    for n, (root, bad) in enumerate(look):
        confirm(prop, rep, root, bad, min(time.time() + ROOTS[root].budget, time.time() + (end - time.time()) / (len(look) - n)))
        if rep.violations:
            break
    missing = [t for t in tags if not seen.get(t)]
    rep.coverage["obligations_by_tag"] = seen
    if not rep.violations:
        if rep.coverage.get("obligations", 0) == 0 and not unfinished:
            raise ToolError("no obligation of %s was met" % prop)
        for t in missing:
            rep.undecided("obligation never met: " + t)
        if rep.coverage.get("obligations", 0) < floor:
            rep.undecided("fewer obligations than expected: %d < %d" % (rep.coverage["obligations"], floor))


def callable_(p):
    """functions that can be reached through the public ones"""
    g = Graph(p)
    seen = set(i for i, f in enumerate(p.fns) if f["crate"] == "probe")
    todo = list(seen)
    while todo:
        for e in g.edges[todo.pop()]:
            if e[0] not in seen:
                seen.add(e[0])
                todo.append(e[0])
    return seen


def looping(rep):
    """functions of the library with a loop"""
    p = program()
    E = Engine(p, "A")
    out = set()
    for i in callable_(p):
        f = p.fns[i]
        if f["crate"] == "hml_rs" and f.get("body"):
            n = len(E.body(f).loops)
            rep.count("loops_in_the_library", n)
            if n:
                out.add(i)
    return out


def unsafe_calls(rep, roots):
    """the unsafe operations reachable from the public functions, and the roots that come by them"""
    p = program()
    seen = callable_(p)
    out = []
    for i, f in enumerate(p.fns):
        if f["crate"] != "hml_rs" or not f.get("body"):
            continue
        rep.count("obligations", 1)   # no unsafe operation in it but those looked at
        rep.count("functions_searched_for_unsafe", 1)
        for blk in f["body"]["blocks"]:
            t = blk[2]
            if t[0] == "call" and "inst" in t[1]:
                c = p.fns[t[1]["inst"]]
                if c["unsafe"] and not c["path"].startswith("std::fmt::"):
                    rep.count("unsafe_calls", 1)
                    if i in seen:
                        out.append((i, c["path"], blk[1]))
                    else:
                        rep.coverage.setdefault("unsafe_calls_not_reachable", []).append("%s in %s" % (c["path"], f["path"]))
    if any(not p.fns[i]["file"].endswith("src/escape.rs") for i, _, _ in out):
        roots = roots + ["lexraw", "history", "event", "take", "build", "error", "writer", "reader", "name_new", "attr_tag"]
    return roots, out


def invariants(prop, roots, start):
    """analyse the roots with loop invariants, several at once"""
    for root in roots:
        program(ROOTS[root].kind)
    todo = list(roots)
    procs = []
    got = {}
    while todo or procs:
        while todo and len(procs) < 6:
            root = todo.pop(0)
            a, b = multiprocessing.Pipe(False)
            end = min(time.time() + ROOTS[root].a_budget, start + A_TIME)
            p = multiprocessing.Process(target=invariant, args=(b, prop, root, end))
            p.start()
            b.close()
            procs.append((root, end, p, a))
        ready = multiprocessing.connection.wait([x[3] for x in procs], timeout=5)
        for x in list(procs):
            if x[3] in ready:
                try:
                    got[x[0]] = x[3].recv()
                except EOFError:
                    pass
            elif time.time() > x[1] + 60:
                x[2].kill()
            else:
                continue
            x[2].join()
            procs.remove(x)
    for root in roots:
        A = got.get(root, {"complete": False, "obl": {}, "functions": set(), "blocks": 0, "steps": 0, "loops": 0,
                           "unmodelled": ["analysis ended early"], "bad": set()})
        if "error" in A:
            raise ToolError(A["error"])
        yield root, A


def invariant(pipe, prop, root, end):
    try:
        A = run(root, "A", 0, end, only=prop)
        pipe.send({
            "complete": A.complete,
            "obl": {t: (g, b, len(x)) for t, (g, b, x) in A.obl.items() if prop_of(t) == prop},
            "functions": set(i for i, _ in A.reached if A.p.fns[i]["crate"] in ("hml_rs", "hmlconvert")),
            "blocks": len(A.reached),
            "steps": A.steps,
            "loops": len([k for k in A.loopinfo if not (isinstance(k, tuple) and k and k[0] == "seen")]),
            "unmodelled": sorted(A.unmodelled),
            "bad": set(failing(A, prop)),
        })
    except ToolError as e:
        pipe.send({"error": str(e)})
    pipe.close()
    os._exit(0)


def confirm(prop, rep, root, bad, end):
    """look again with iterations kept apart, to several depths at once"""
    r = ROOTS[root]
    procs = []
    for n, single, part in r.depths:
        a, b = multiprocessing.Pipe(False)
        p = multiprocessing.Process(target=bounded, args=(b, prop, root, n, single, part, end))
        p.start()
        b.close()
        procs.append((n, single, p, a))
    done = []
    hit = None
    while procs and hit is None:
        ready = multiprocessing.connection.wait([x[3] for x in procs], timeout=5)
        for x in list(procs):
            if x[3] not in ready:
                continue
            procs.remove(x)
            try:
                got, complete = x[3].recv()
            except EOFError:
                continue
            x[2].join()
            if complete:
                done.append("%d%s" % (x[0], " in one loop" if x[1] else ""))
            if got and hit is None:
                hit = got
        if time.time() > end + 60:
            break
    for x in procs:
        x[2].kill()
        x[2].join()
    rep.coverage["iterations_kept_apart"] = sorted(done)
    if hit:
        for key, what, where, path in hit:
            rep.violation(key, what, where, path)
    elif bad:
        for k in sorted(bad):
            rep.undecided("%s at %s" % k)


def bounded(pipe, prop, root, n, single, part, end):
    try:
        E = run(root, "B", n, end, single, part, prop)
        got = failing(E, prop)
        out = []
        for key in sorted(got):
            x = got[key]
            if x["taint"]:
                continue
            what = key[0].split(":", 1)[-1]
            if key[0] == "panic":
                what = "may panic: %s" % (x["what"],)
            out.append(("%s@%s" % key, what, site(E, x, key[1]),
                        ["path:"] + x["trace"] + ["facts:"] + x["facts"]))
        pipe.send((out, E.complete))
    except MemoryError:
        pipe.send(([], False))
    pipe.close()
    os._exit(0)


def site(E, x, where):
    """last decision taken in the library before the obligation"""
    for t in reversed(x["libtrace"]):
        return t
    return where
