//! Escaping.
use crate::v;
use hml_rs::escape::*;

fn needs(b: u8, set: usize) -> bool {
    b == b'&'
        || b == b'<'
        || (b == b'\'' && set & ESCAPE_APOS != 0)
        || (b == b'"' && set & ESCAPE_QUOTE != 0)
        || (b == b'>' && set & ESCAPE_GT != 0)
        || (b == b'\n' && set & ESCAPE_LF != 0)
        || (b == b'\r' && set & ESCAPE_CR != 0)
}

/// Every character is asked for on its own
pub fn s_flags() {
    v::check(ESCAPE_PCDATA == 0, "C17:flags");
    v::check(
        ESCAPE_ATTR == ESCAPE_QUOTE + ESCAPE_APOS + ESCAPE_GT + ESCAPE_LF + ESCAPE_CR
            && ESCAPE_ATTR == ESCAPE_QUOTE | ESCAPE_APOS | ESCAPE_GT | ESCAPE_LF | ESCAPE_CR,
        "C17:flags",
    );
    v::check(
        ESCAPE_QUOTE != 0 && ESCAPE_APOS != 0 && ESCAPE_GT != 0 && ESCAPE_LF != 0 && ESCAPE_CR != 0,
        "C17:flags",
    );
}

/// Escaping any string
pub fn s_escape(s: &'static str, set: usize, k: usize) {
    match escape(s, set) {
        Some(r) => {
            v::check(v::is_escape(&r, s, set), "C17:escaped text");
            v::check(v::some_escape(s, set), "C17:text unchanged but returned");
        }
        None => {
            if k < s.len() {
                v::check(!needs(s.as_bytes()[k], set), "C17:character left as it is");
            }
        }
    }
}

fn expected(s: &str, set: usize) -> (Vec<u8>, bool) {
    let mut out = Vec::new();
    let mut any = false;
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if needs(b[i], set) {
            any = true;
            out.extend_from_slice(match b[i] {
                b'&' => b"&amp;",
                b'<' => b"&lt;",
                b'\'' => b"&apos;",
                b'"' => b"&quot;",
                b'>' => b"&gt;",
                b'\n' => b"&#xA;",
                _ => b"&#xD;",
            });
        } else {
            out.push(b[i]);
        }
        i += 1;
    }
    (out, any)
}

/// Escaping a string of few characters
pub fn u_escape(set: usize) {
    let s = v::a_text();
    let (out, any) = expected(s, set);
    match escape(s, set) {
        Some(r) => {
            v::check(any, "C17:text unchanged but returned");
            v::check(*r.as_bytes() == *out, "C17:escaped text");
        }
        None => v::check(!any, "C17:character left as it is"),
    }
}

/// Text with references
pub fn s_replace(s: &'static str, e: &Entities<'static>, inc: bool) {
    let _ = e.replace_entities(inc, s);
}

/// Text with references to few characters
pub fn u_replace(xml: bool, inc: bool) {
    let e = if xml { Entities::xml() } else { Entities::default() };
    let _ = e.replace_entities(inc, v::a_text());
}

/// Text with references by number
pub fn u_refs(inc: bool) {
    let _ = Entities::xml().replace_entities(inc, v::a_reference());
}

/// Escaped text
pub fn s_esc(s: &'static str, set: usize) {
    let _ = escape(s, set);
}

pub fn u_esc(set: usize) {
    let _ = escape(v::a_text(), set);
}

/// Bytes escaped
pub fn s_bytes(b: &'static [u8], set: usize, i: usize, n: usize) {
    let _ = escape_required(b, set, i, n);
}

pub fn u_bytes(a: u8, b: u8, set: usize) {
    let _ = escape_required(&[a, b], set, 0, 2);
}
