//! Names: what interning, mapping and resolving do to any state of the tables.
use crate::v;
use hml_rs::names::*;

/// A stack over these tables, with any scopes
pub fn stack_over<'a>(ns: &'a mut Namespace) -> NamespaceStack<'a> {
    NamespaceStack::new(ns)
}

/// Any one use of the tables that may add `t` to them and nothing else but `u`
fn op(ns: &mut Namespace, n: usize, t: &str, u: &str) {
    match n {
        0 => {
            ns.add_mapping(t, u);
        }
        1 => {
            ns.add_mapping(u, t);
        }
        2 => {
            ns.add_mapping_by_id(v::any(), v::any());
        }
        3 => {
            ns.find_name(t);
        }
        4 => {
            ns.find_prefix(t);
        }
        5 => {
            ns.find_uri(t);
        }
        _ => {
            stack_over(ns).add_name(t);
        }
    }
}

macro_rules! interning {
    ($add: ident, $add_fn: expr, $found: ident, $absent: ident, $keep: ident, $find: ident, $str: ident, $id: ident, $what: literal) => {
        pub fn $add(ns: &mut Namespace, s: &str) {
            let was = ns.$find(s);
            let id = ($add_fn)(ns, s);
            v::check(id.is_none() == s.is_empty(), concat!("C12:none is the empty ", $what));
            v::check(*ns.$str(id, "") == *s, concat!("C12:string of the ", $what, " added"));
            if id.is_none() {
                let d = v::a_str();
                v::check(*ns.$str(id, d) == *d, concat!("C12:default of no ", $what));
            }
            match was {
                Some(k) => v::check(k == id, concat!("C12:same ", $what, " added again")),
                None => v::check(!s.is_empty(), concat!("C12:empty ", $what, " not found")),
            }
            match ns.$find(s) {
                Some(k) => v::check(k == id, concat!("C12:other ", $what, " found after adding")),
                None => v::check(false, concat!("C12:", $what, " not found after adding")),
            }
        }

        pub fn $found(ns: &mut Namespace, n: usize, s: &str, t: &str, u: &str) {
            if let Some(k) = ns.$find(s) {
                v::check(k.is_none() == s.is_empty(), concat!("C12:none is the empty ", $what, " found"));
                v::check(*ns.$str(k, "") == *s, concat!("C12:string of the ", $what, " found"));
                op(ns, n, t, u);
                match ns.$find(s) {
                    Some(x) => v::check(x == k, concat!("C12:identifier of a ", $what, " changed")),
                    None => v::check(false, concat!("C12:", $what, " forgotten")),
                }
            }
        }

        pub fn $absent(ns: &mut Namespace, n: usize, s: &str, t: &str, u: &str) {
            if ns.$find(s).is_none() && *s != *t && *s != *u {
                op(ns, n, t, u);
                v::check(ns.$find(s).is_none(), concat!("C12:", $what, " found that was not added"));
            }
        }

        pub fn $keep(ns: &mut Namespace, n: usize, k: usize, t: &str, u: &str) {
            let id = $id::new(k);
            let was = v::snap(ns.$str(id, ""));
            op(ns, n, t, u);
            v::check(
                v::same_snap(ns.$str(id, ""), was),
                concat!("C12:string of an earlier ", $what),
            );
        }
    };
}

interning!(
    n_add_prefix,
    |ns: &mut Namespace, s: &str| ns.add_mapping(s, v::a_str()).prefix_id(),
    n_found_prefix,
    n_absent_prefix,
    n_keep_prefix,
    find_prefix,
    prefix_str,
    NSPrefixId,
    "prefix"
);
interning!(
    n_add_uri,
    |ns: &mut Namespace, s: &str| ns.add_mapping(v::a_str(), s).uri_id(),
    n_found_uri,
    n_absent_uri,
    n_keep_uri,
    find_uri,
    uri_str,
    NSUriId,
    "URI"
);
interning!(
    n_add_name,
    |ns: &mut Namespace, s: &str| stack_over(ns).add_name(s),
    n_found_name,
    n_absent_name,
    n_keep_name,
    find_name,
    name_str,
    NSNameId,
    "name"
);

/// What can be found before anything has been added
pub fn n_new(s: &str, xmlns: bool) {
    let mut ns = Namespace::new(xmlns);
    v::check(ns.uses_xmlns() == xmlns, "C12:use of xmlns");
    v::check(ns.find_name(s).is_none() == !s.is_empty(), "C12:name in new tables");
    v::check(ns.find_prefix(s).is_none() == !s.is_empty(), "C12:prefix in new tables");
    v::check(ns.find_uri(s).is_none() == !s.is_empty(), "C12:URI in new tables");
}

/// The same for tables that were used a few times since they were made
fn used(ns: &mut Namespace, names: bool) {
    while v::more() {
        if names {
            stack_over(ns).add_name(v::a_str());
        } else {
            ns.add_mapping(v::a_str(), v::a_str());
        }
    }
}

macro_rules! used {
    ($add: ident, $found: ident, $absent: ident, $keep: ident, $names: literal, $l_add: ident, $l_found: ident, $l_absent: ident, $l_keep: ident) => {
        pub fn $add() {
            let mut ns = Namespace::new(false);
            used(&mut ns, $names);
            $l_add(&mut ns, v::a_str());
        }
        pub fn $found(n: usize) {
            let mut ns = Namespace::new(false);
            used(&mut ns, $names);
            $l_found(&mut ns, n, v::a_str(), v::a_str(), v::a_str());
        }
        pub fn $absent(n: usize) {
            let mut ns = Namespace::new(false);
            used(&mut ns, $names);
            $l_absent(&mut ns, n, v::a_str(), v::a_str(), v::a_str());
        }
        pub fn $keep(n: usize) {
            let mut ns = Namespace::new(false);
            used(&mut ns, $names);
            $l_keep(&mut ns, n, v::any(), v::a_str(), v::a_str());
        }
    };
}
used!(u_add_prefix, u_found_prefix, u_absent_prefix, u_keep_prefix, false, n_add_prefix, n_found_prefix, n_absent_prefix, n_keep_prefix);
used!(u_add_uri, u_found_uri, u_absent_uri, u_keep_uri, false, n_add_uri, n_found_uri, n_absent_uri, n_keep_uri);
used!(u_add_name, u_found_name, u_absent_name, u_keep_name, true, n_add_name, n_found_name, n_absent_name, n_keep_name);

// ---- mappings ------------------------------------------------------------------
type Stack<'a> = NamespaceStack<'a>;

fn other(map: NSMap, p: NSPrefixId, was: Option<NSUriId>, now: Option<NSUriId>) {
    if p != map.prefix_id() {
        v::check(now == was, "C13:mapping of another prefix changed");
    }
}

/// Adding a mapping
pub fn m_add(s: &mut Stack<'_>, map: NSMap, p: NSPrefixId) {
    let was = s.find_mapping(p);
    s.add_mapping_by_id(map);
    let now = s.find_mapping(p);
    if p == map.prefix_id() {
        v::check(now == Some(map.uri_id()), "C13:mapping just added not found");
    }
    other(map, p, was, now);
}

/// Adding a mapping unless the innermost scope has one
pub fn m_unset(s: &mut Stack<'_>, map: NSMap, p: NSPrefixId) {
    let was = s.find_mapping(p);
    let first = s.find_mapping(map.prefix_id());
    let done = s.add_mapping_by_id_if_unset(map);
    other(map, p, was, s.find_mapping(p));
    let now = s.find_mapping(map.prefix_id());
    if done {
        v::check(now == Some(map.uri_id()), "C13:mapping added if unset not found");
    } else {
        v::check(now == first, "C13:mapping set changed");
        v::check(first.is_some(), "C13:no mapping and none added");
    }
}

pub fn m_unset_again(s: &mut Stack<'_>, map: NSMap, u: NSUriId) {
    s.add_mapping_by_id_if_unset(map);
    let was = s.find_mapping(map.prefix_id());
    v::check(
        !s.add_mapping_by_id_if_unset(NSMap::new(map.prefix_id(), u)),
        "C13:added if unset though set",
    );
    v::check(s.find_mapping(map.prefix_id()) == was, "C13:mapping set changed");
}

pub fn m_unset_set(s: &mut Stack<'_>, map: NSMap, u: NSUriId) {
    s.add_mapping_by_id(NSMap::new(map.prefix_id(), u));
    v::check(!s.add_mapping_by_id_if_unset(map), "C13:added if unset though set");
    v::check(s.find_mapping(map.prefix_id()) == Some(u), "C13:mapping set changed");
}

pub fn m_unset_new(s: &mut Stack<'_>, map: NSMap, o: NSMap) {
    s.push_frame();
    if o.prefix_id() != map.prefix_id() {
        s.add_mapping_by_id(o);
    }
    v::check(s.add_mapping_by_id_if_unset(map), "C13:not added though unset in the innermost scope");
    v::check(
        s.find_mapping(map.prefix_id()) == Some(map.uri_id()),
        "C13:mapping added if unset not found",
    );
}

pub fn m_unset_other(s: &mut Stack<'_>, map: NSMap, o: NSMap) {
    if o.prefix_id() != map.prefix_id() {
        let mut t = v::twin(s);
        t.add_mapping_by_id(o);
        v::check(
            t.add_mapping_by_id_if_unset(map) == s.add_mapping_by_id_if_unset(map),
            "C13:unset depends on another prefix",
        );
    }
}

/// A scope and what is done in it
pub fn m_scope(s: &mut Stack<'_>, map: NSMap, p: NSPrefixId, unset: bool) {
    let was = s.find_mapping(p);
    s.push_frame();
    v::check(s.find_mapping(p) == was, "C13:new scope hides a mapping");
    if unset {
        s.add_mapping_by_id_if_unset(map);
    } else {
        s.add_mapping_by_id(map);
    }
    s.pop_frame();
    v::check(s.find_mapping(p) == was, "C13:removed scope changed a mapping");
}

pub fn m_drop(s: &mut Stack<'_>, map: NSMap, p: NSPrefixId, unset: bool) {
    let mut t = v::twin(s);
    s.pop_frame();
    if unset {
        t.add_mapping_by_id_if_unset(map);
    } else {
        t.add_mapping_by_id(map);
    }
    t.pop_frame();
    v::check(s.find_mapping(p) == t.find_mapping(p), "C13:mapping outlives its scope");
}

/// The same by strings
pub fn m_ns(s: &mut Stack<'_>, prefix: &'static str, uri: &'static str, p: NSPrefixId) {
    let was = s.find_mapping(p);
    let map = s.add_ns(prefix, uri);
    mapped(s, map, prefix, uri);
    v::check(s.find_mapping(map.prefix_id()) == Some(map.uri_id()), "C13:mapping just added not found");
    other(map, p, was, s.find_mapping(p));
}

pub fn m_ns_unset(s: &mut Stack<'_>, prefix: &'static str, uri: &'static str, p: NSPrefixId) {
    let mut t = v::twin(s);
    let was = s.find_mapping(p);
    let (map, done) = s.add_ns_if_unset(prefix, uri);
    mapped(s, map, prefix, uri);
    v::check(done == t.add_mapping_by_id_if_unset(map), "C13:added if unset by string");
    v::check(
        s.find_mapping(map.prefix_id()) == t.find_mapping(map.prefix_id()),
        "C13:mapping added if unset by string",
    );
    other(map, p, was, s.find_mapping(p));
}

fn mapped(s: &mut Stack<'_>, map: NSMap, prefix: &str, uri: &str) {
    v::check(*s.prefix_str(map.prefix_id()) == *prefix, "C13:prefix of the mapping");
    v::check(*s.uri_str(map.uri_id()) == *uri, "C13:URI of the mapping");
    v::check(s.find_prefix_id(prefix) == Some(map.prefix_id()), "C13:prefix of the mapping found");
    let (a, b) = s.borrow_mapping(map);
    v::check(*a == *prefix && *b == *uri, "C13:strings of the mapping");
}

/// What a new stack maps
pub fn m_new(ns: &mut Namespace, prefix: &str) {
    let mut s = NamespaceStack::new(ns);
    let uri = match s.find_prefix_id(prefix) {
        Some(p) => s.find_mapping(p),
        None => None,
    };
    let want = if prefix.is_empty() {
        Some("")
    } else if !s.uses_xmlns() {
        None
    } else if *prefix == *"xmlns" {
        Some("http://www.w3.org/2000/xmlns/")
    } else if *prefix == *"xml" {
        Some("http://www.w3.org/XML/1998/namespace")
    } else {
        None
    };
    match (uri, want) {
        (Some(u), Some(w)) => v::check(*s.uri_str(u) == *w, "C13:first mappings"),
        (None, None) => v::check(true, "C13:first mappings"),
        _ => v::check(false, "C13:first mappings"),
    }
}

fn grown(s: &mut Stack<'_>) -> usize {
    let mut n = 1;
    while v::more() {
        match v::any::<usize>() {
            0 => {
                s.push_frame();
                n += 1;
            }
            1 => {
                if n > 1 {
                    s.pop_frame();
                    n -= 1;
                }
            }
            2 => s.add_mapping_by_id(v::any()),
            _ => {
                s.add_mapping_by_id_if_unset(v::any());
            }
        }
    }
    n
}

macro_rules! grown {
    ($f: ident, $s: ident, $n: ident, $b: block) => {
        pub fn $f() {
            let mut ns = Namespace::new(false);
            let mut st = NamespaceStack::new(&mut ns);
            let $n = grown(&mut st);
            let $s = &mut st;
            $b
        }
    };
}
grown!(g_add, s, _n, { m_add(s, v::any(), v::any()) });
grown!(g_unset, s, _n, { m_unset(s, v::any(), v::any()) });
grown!(g_unset_again, s, _n, { m_unset_again(s, v::any(), v::any()) });
grown!(g_unset_set, s, _n, { m_unset_set(s, v::any(), v::any()) });
grown!(g_unset_new, s, _n, {
    let o = v::any();
    m_unset_new(s, v::any(), o)
});
grown!(g_unset_other, s, _n, {
    let o = v::any();
    m_unset_other(s, v::any(), o)
});
grown!(g_scope, s, _n, { m_scope(s, v::any(), v::any(), v::any()) });
grown!(g_drop, s, n, {
    if n > 1 {
        m_drop(s, v::any(), v::any(), v::any())
    }
});
grown!(g_ns, s, _n, { m_ns(s, v::a_str(), v::a_str(), v::any()) });
grown!(g_ns_unset, s, _n, { m_ns_unset(s, v::a_str(), v::a_str(), v::any()) });
pub fn g_new(xmlns: bool, prefix: &str) {
    let mut ns = Namespace::new(xmlns);
    while v::more() {
        ns.add_mapping(v::a_str(), v::a_str());
    }
    m_new(&mut ns, prefix);
}

// ---- listing of mappings ---------------------------------------------------------
/// All mappings of the stack, seen from one prefix
pub fn l_all(s: &Stack<'_>, p: NSPrefixId) {
    let want = s.find_mapping(p);
    let mut seen = false;
    for m in s {
        if m.prefix_id() == p {
            v::check(!seen, "C14:prefix listed twice");
            v::check(want == Some(m.uri_id()), "C14:mapping listed is not the one found");
            seen = true;
        }
    }
    v::check(seen == want.is_some(), "C14:visible prefix not listed");
}

/// The mappings of the innermost scope, seen from one prefix
pub fn l_top(s: &mut Stack<'_>, p: NSPrefixId) {
    let mut t = v::twin(s);
    let declared = !t.add_mapping_by_id_if_unset(NSMap::new(p, v::any()));
    let want = s.find_mapping(p);
    let mut seen = false;
    for m in s.iter_top_mappings() {
        if m.prefix_id() == p {
            v::check(!seen, "C14:declared prefix listed twice");
            v::check(declared && want == Some(m.uri_id()), "C14:declaration listed is not the one made");
            seen = true;
        }
    }
    v::check(seen == declared, "C14:declaration not listed");
}

/// What each use of the innermost scope does to the order of its declarations
pub fn l_use(s: &mut Stack<'_>, p: NSPrefixId, n: usize, map: NSMap, a: &'static str, b: &'static str) {
    match n {
        0 => s.add_mapping_by_id(map),
        1 => {
            s.add_mapping_by_id_if_unset(map);
        }
        2 => {
            s.add_ns(a, b);
        }
        _ => {
            s.add_ns_if_unset(a, b);
        }
    }
    v::check(v::listed(s, p), "C14:order of the declarations");
}

pub fn l_scope(s: &mut Stack<'_>, p: NSPrefixId) {
    s.push_frame();
    l_top(s, p);
    s.pop_frame();
    v::check(v::listed(s, p), "C14:order of the declarations outside a scope");
}

pub fn l_new(xmlns: bool, p: NSPrefixId) {
    let mut ns = Namespace::new(xmlns);
    l_top(&mut NamespaceStack::new(&mut ns), p);
}

grown!(k_all, s, _n, { l_all(s, v::any()) });
grown!(k_top, s, _n, { l_top(s, v::any()) });

// ---- names ---------------------------------------------------------------------
fn mapping_of(s: &mut Stack<'_>, prefix: &str) -> Option<(NSPrefixId, NSUriId)> {
    match s.find_prefix_id(prefix) {
        Some(p) => match s.find_mapping(p) {
            Some(u) => Some((p, u)),
            None => None,
        },
        None => None,
    }
}

fn resolved(
    s: &Stack<'_>,
    r: &hml_rs::MarkupResult<Name>,
    m: Option<(NSPrefixId, NSUriId)>,
    prefix: &str,
    name: &str,
) {
    match r {
        Ok(n) => {
            v::check(!name.is_empty(), "C15:empty name accepted");
            match m {
                Some((p, u)) => {
                    v::check(n.prefix == p, "C15:prefix of the name");
                    v::check(n.uri == u, "C15:URI of the name");
                }
                None => v::check(false, "C15:unmapped prefix accepted"),
            }
            v::check(*s.name_str(n.name) == *name, "C15:local part of the name");
            v::check(*s.prefix_str(n.prefix) == *prefix, "C15:prefix of the name");
            v::check(n.has_prefix() == !prefix.is_empty(), "C15:has_prefix");
            v::check(n.has_uri() == !n.uri.is_none(), "C15:has_uri");
        }
        Err(e) => refused(e, name.is_empty(), m.is_some(), prefix),
    }
}

fn refused(e: &hml_rs::MarkupError, empty: bool, mapped: bool, prefix: &str) {
    use hml_rs::MarkupError::*;
    match e {
        EmptyName {} => v::check(empty, "C15:reported as empty"),
        UnmappedPrefix { prefix: p } => {
            v::check(!mapped, "C15:reported as unmapped");
            v::check(**p == *prefix, "C15:prefix reported");
        }
        BadName { .. } => v::check(false, "C15:reported as bad"),
    }
}

fn printed(s: &Stack<'_>, n: &Name, prefix: &str, name: &str) {
    let t = n.to_string(s);
    if prefix.is_empty() {
        v::check(*t == *name, "C15:printed local name");
    } else {
        let mut w = String::from(prefix);
        w.push(':');
        w.push_str(name);
        v::check(*t == *w, "C15:printed name");
    }
}

/// A name from prefix and local part
pub fn a_new(s: &mut Stack<'_>, prefix: &'static str, name: &'static str) {
    let m = mapping_of(s, prefix);
    let r = Name::new(s, prefix, name);
    resolved(s, &r, m, prefix, name);
    if let Ok(n) = &r {
        printed(s, n, prefix, name);
    }
}

/// A name that leaves the mappings as they were
pub fn a_keep(s: &mut Stack<'_>, prefix: &'static str, name: &'static str, p: NSPrefixId, q: &'static str) {
    let was = s.find_mapping(p);
    let id = s.find_prefix_id(q);
    let _ = Name::new(s, prefix, name);
    v::check(s.find_mapping(p) == was, "C16:mapping changed by a name");
    v::check(s.find_prefix_id(q) == id, "C16:prefix changed by a name");
}

pub fn a_keep_uri(s: &mut Stack<'_>, prefix: &'static str, name: &'static str, u: NSUriId) {
    let was = v::snap(s.uri_str(u));
    let _ = Name::new(s, prefix, name);
    v::check(v::same_snap(s.uri_str(u), was), "C16:URI changed by a name");
}

fn local(s: &Stack<'_>, r: &hml_rs::MarkupResult<Name>, name: &str) {
    match r {
        Ok(n) => {
            v::check(!name.is_empty(), "C15:empty name accepted");
            v::check(n.prefix.is_none() && n.uri.is_none(), "C15:local name has a namespace");
            v::check(*s.name_str(n.name) == *name, "C15:local part of the name");
            v::check(!n.has_prefix() && !n.has_uri(), "C15:has_prefix");
            printed(s, n, "", name);
        }
        Err(hml_rs::MarkupError::EmptyName {}) => v::check(name.is_empty(), "C15:reported as empty"),
        Err(_) => v::check(false, "C15:local name refused"),
    }
}

pub fn a_local(s: &mut Stack<'_>, name: &'static str) {
    let r = Name::new_local(s, name);
    local(s, &r, name);
}

pub fn a_none() {
    let n = Name::none();
    v::check(n.prefix.is_none() && n.uri.is_none() && n.name.is_none(), "C15:no name");
}

/// A name from one string
pub fn a_one(s: &mut Stack<'_>, name: &'static str) {
    if !v::has_char(name, ':') {
        let r = Name::from_str(s, name);
        local(s, &r, name);
    }
}

pub fn a_two(s: &mut Stack<'_>, prefix: &'static str, name: &'static str) {
    if !v::has_char(prefix, ':') && !v::has_char(name, ':') {
        let m = mapping_of(s, prefix);
        let mut t = String::from(prefix);
        t.push(':');
        t.push_str(name);
        let r = Name::from_str(s, &t);
        resolved(s, &r, m, prefix, name);
        if let Ok(n) = &r {
            printed(s, n, prefix, name);
        }
    }
}

pub fn a_bad(s: &mut Stack<'_>, x: &'static str, y: &'static str, z: &'static str) {
    if !v::has_char(x, ':') && !v::has_char(y, ':') {
        let mut t = String::from(x);
        t.push(':');
        t.push_str(y);
        t.push(':');
        t.push_str(z);
        match Name::from_str(s, &t) {
            Err(hml_rs::MarkupError::BadName { name }) => {
                v::check(*name == *t, "C15:bad name reported")
            }
            _ => v::check(false, "C15:bad name accepted"),
        }
    }
}

// ---- attributes ----------------------------------------------------------------
fn declares<'a>(s: &Stack<'_>, prefix: &str, name: &'a str) -> Option<&'a str> {
    if !s.uses_xmlns() {
        None
    } else if prefix.is_empty() && *name == *"xmlns" {
        Some("")
    } else if *prefix == *"xmlns" {
        Some(name)
    } else {
        None
    }
}

/// What an attribute does to the mappings
pub fn x_maps(s: &mut Stack<'_>, prefix: &'static str, name: &'static str, p: NSPrefixId) {
    let was = s.find_mapping(p);
    let d = declares(s, prefix, name);
    let r = Attribute::new(s, prefix, name, v::a_string());
    let now = s.find_mapping(p);
    match d {
        Some(d) => match s.find_prefix_id(d) {
            Some(q) => {
                if p == q {
                    if r.is_ok() {
                        match now {
                            Some(u) => v::check(*s.uri_str(u) == *v::that_string(), "C16:declared namespace"),
                            None => v::check(false, "C16:namespace not declared"),
                        }
                    }
                } else {
                    v::check(now == was, "C16:declaration changes another prefix");
                }
            }
            None => v::check(r.is_err(), "C16:namespace not declared"),
        },
        None => v::check(now == was, "C16:other attribute changes a mapping"),
    }
}

/// What an attribute is
pub fn x_is(s: &mut Stack<'_>, prefix: &'static str, name: &'static str) {
    let plain = s.uses_xmlns() && prefix.is_empty() && *name == *"xmlns";
    let by = if plain { "xmlns" } else { prefix };
    let r = Attribute::new(s, prefix, name, v::a_string());
    let m = mapping_of(s, by);
    match &r {
        Ok(a) => {
            v::check(*a.value == *v::that_string(), "C16:value of the attribute");
            v::check(*s.name_str(a.name.name) == *name, "C16:name of the attribute");
            match m {
                Some((p, u)) => v::check(
                    a.name.prefix == p && a.name.uri == u,
                    "C16:name resolved after the declaration",
                ),
                None => v::check(false, "C16:name resolved after the declaration"),
            }
        }
        Err(_) => v::check(name.is_empty() || m.is_none(), "C16:attribute refused"),
    }
}

/// What a list of attributes keeps
pub fn x_list(s: &mut Stack<'_>, l: &mut Attributes, prefix: &'static str, name: &'static str, k: usize) {
    let n = l.attributes().len();
    v::check(l.is_empty() == (n == 0), "C16:empty list");
    let was = if k < n { v::snap(&l.attributes()[k]) } else { v::Snap::none() };
    let mut t = v::twin(s);
    let one = Attribute::new(&mut t, prefix, name, v::a_string());
    let r = l.add(s, prefix, name, String::from(v::that_string()));
    v::check(r.is_ok() == one.is_ok(), "C16:attribute refused by the list");
    let a = l.attributes();
    v::check(a.len() == if r.is_ok() { n + 1 } else { n }, "C16:number of attributes");
    if k < n && k < a.len() {
        v::check(v::same_snap(&a[k], was), "C16:earlier attribute changed");
    }
    if let Ok(x) = &one {
        if a.len() == n + 1 {
            v::check(a[n].name == x.name && *a[n].value == *x.value, "C16:attribute added to the list");
        }
    }
}

/// A list that takes over another
pub fn x_steal(l: &mut Attributes, m: &mut Attributes, k: usize) {
    let n = l.attributes().len();
    let o = m.attributes().len();
    let was = if k < n {
        v::snap(&l.attributes()[k])
    } else if k - n < o {
        v::snap(&m.attributes()[k - n])
    } else {
        v::Snap::none()
    };
    l.steal(m);
    v::check(m.is_empty() && m.attributes().len() == 0, "C16:list taken over");
    let a = l.attributes();
    v::check(a.len() == n + o, "C16:number of attributes taken over");
    if k < n + o && k < a.len() {
        v::check(v::same_snap(&a[k], was), "C16:attribute taken over");
    }
}

/// An element's name and attributes
pub fn x_tag(s: &mut Stack<'_>, prefix: &'static str, name: &'static str, a: Attributes) {
    let id = v::snap(&a);
    let m = mapping_of(s, prefix);
    match Tag::new(s, prefix, name, a) {
        Ok(t) => {
            v::check(v::same_snap(&t.attributes, id), "C16:attributes of the tag");
            let n = t.name;
            match m {
                Some((p, u)) => {
                    v::check(n.prefix == p && n.uri == u, "C15:name of the tag");
                }
                None => v::check(false, "C15:unmapped prefix accepted"),
            }
            v::check(*s.name_str(n.name) == *name, "C15:name of the tag");
        }
        Err(e) => refused(&e, name.is_empty(), m.is_some(), prefix),
    }
}

fn grown_by_name(s: &mut Stack<'_>) {
    while v::more() {
        match v::any::<usize>() {
            0 => s.push_frame(),
            1 => {
                s.add_name(v::a_str());
            }
            2 => {
                s.add_ns_if_unset(v::a_str(), v::a_str());
            }
            _ => {
                s.add_ns(v::a_str(), v::a_str());
            }
        }
    }
}

macro_rules! grown_by_name {
    ($f: ident, $s: ident, $b: block) => {
        pub fn $f(xmlns: bool) {
            let mut ns = Namespace::new(xmlns);
            let mut st = NamespaceStack::new(&mut ns);
            grown_by_name(&mut st);
            let $s = &mut st;
            $b
        }
    };
}
grown_by_name!(h_new, s, { a_new(s, v::a_str(), v::a_str()) });
grown_by_name!(h_keep, s, { a_keep(s, v::a_str(), v::a_str(), v::any(), v::a_str()) });
grown_by_name!(h_keep_uri, s, { a_keep_uri(s, v::a_str(), v::a_str(), v::any()) });
grown_by_name!(h_local, s, { a_local(s, v::a_str()) });
grown_by_name!(h_one, s, { a_one(s, v::a_str()) });
grown_by_name!(h_two, s, { a_two(s, v::a_str(), v::a_str()) });
grown_by_name!(h_bad, s, { a_bad(s, v::a_str(), v::a_str(), v::a_str()) });
grown_by_name!(h_maps, s, { x_maps(s, v::a_str(), v::a_str(), v::any()) });
grown_by_name!(h_is, s, { x_is(s, v::a_str(), v::a_str()) });
grown_by_name!(h_list, s, {
    let mut l = Attributes::default();
    let mut n = 0;
    while n < 3 && v::any::<bool>() {
        let _ = l.add(s, "", v::a_str(), v::a_string());
        n += 1;
    }
    x_list(s, &mut l, v::a_str(), v::a_str(), v::any())
});
grown_by_name!(h_steal, s, {
    let mut l = Attributes::default();
    let mut m = Attributes::default();
    while v::more() {
        let _ = if v::any::<bool>() {
            l.add(s, "", v::a_str(), v::a_string())
        } else {
            m.add(s, "", v::a_str(), v::a_string())
        };
    }
    x_steal(&mut l, &mut m, v::any())
});
grown_by_name!(h_tag, s, {
    let mut l = Attributes::default();
    let _ = l.add(s, "", v::a_str(), v::a_string());
    x_tag(s, v::a_str(), v::a_str(), l)
});
