//! The token grammar, stated over the text with `v::scan`, against what the
//! lexing functions return.
use crate::lex::{VLex, VPos};
use crate::mon::{Kind, TokInfo};
use crate::v;
use hml_rs::hml_reader::parse_fns;
use hml_rs::{HmlError, Span};
use lexer_rs::Lexer;
use std::marker::PhantomData;

/// NameStartChar of XML 1.0 (fifth edition) without the colon
pub fn name_start(c: char) -> bool {
    matches!(c,
        'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}'
        | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}'
        | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}'
        | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}

/// NameChar of XML 1.0 (fifth edition) without the colon
pub fn name_char(c: char) -> bool {
    name_start(c)
        || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

#[derive(Clone, Copy)]
pub struct QName {
    pre: (VPos, VPos),
    name: (VPos, VPos),
    end: VPos,
}

fn after(p: VPos) -> VPos {
    VPos(p.0 + 1)
}

fn at(p: VPos, c: char) -> bool {
    v::peek(p) == Some(c)
}

fn hashes(p: VPos) -> VPos {
    v::scan(p, |_, c| c != '#')
}

fn name(p: VPos) -> Option<VPos> {
    match v::peek(p) {
        Some(c) if name_start(c) => Some(v::scan(after(p), |_, c| !name_char(c))),
        _ => None,
    }
}

fn qname(p: VPos) -> Option<QName> {
    let e = name(p)?;
    if at(e, ':') {
        let b = after(e);
        let end = name(b)?;
        Some(QName { pre: (p, e), name: (b, end), end })
    } else {
        Some(QName { pre: (p, p), name: (p, e), end: e })
    }
}

/// closing quote of a string whose content starts at p
fn close_quote(p: VPos, q: char, n: usize) -> Option<VPos> {
    let c = v::scan(p, |k, c| {
        (n == 0 && c == '\n') || (c == q && (n == 0 || hashes(VPos(k + 1)).0 >= k + 1 + n))
    });
    if at(c, q) {
        Some(c)
    } else {
        None
    }
}

fn is_quote(c: char) -> bool {
    c == '"' || c == '\''
}

/// a comment line starts at p
fn comment_line(p: VPos) -> bool {
    at(v::scan(p, |_, c| c == '\n' || !c.is_whitespace()), ';')
}

fn span_ok(s: &Span<VPos>, a: VPos, b: VPos) {
    v::check(s.start().0 == a.0 && s.end().0 == b.0, "C20:span of the lexing error");
}

type Res<T> = Result<Option<(VPos, T)>, HmlError<VPos>>;

/// A token of the given kind from p to end
fn token<T>(r: &Res<T>, kind: Kind, p: VPos, end: VPos) -> Option<TokInfo> {
    match r {
        Ok(Some((e, t))) => {
            let i = v::tok_info(t);
            v::check(i.kind == kind, "C07:kind of token");
            v::check(e.0 == end.0, "C07:end of token");
            v::check(i.kind == kind, "C08:kind of token");
            Some(i)
        }
        _ => {
            v::check(false, "C07:token refused");
            None
        }
    }
}

fn named(i: &TokInfo, q: &QName) {
    v::check(i.prefix == v::text(q.pre.0, q.pre.1), "C08:prefix");
    v::check(i.name == v::text(q.name.0, q.name.1), "C08:name");
    v::check(i.prefix == v::text(q.pre.0, q.pre.1), "C11:characters of the prefix");
    v::check(i.name == v::text(q.name.0, q.name.1), "C11:characters of the name");
}

fn comment<T>(r: &Res<T>, p: VPos) {
    let e = v::scan(p, |k, c| c == '\n' && !comment_line(VPos(k + 1)));
    let end = if at(e, '\n') { after(e) } else { e };
    let Some(_) = token(r, Kind::Comment, p, end) else {
        return;
    };
    let Ok(Some((_, t))) = r else {
        return;
    };
    let lines = v::tok_lines(t);
    let n = lines.len();
    v::check(n > 0, "C08:comment without lines");
    let i = v::index(n);
    v::expand(&lines[i]);
    // a line without characters does not say where it is
    if let Some((a, b)) = v::text_range(&lines[i]) {
        v::check(a.0 > 0 && at(VPos(a.0 - 1), ';'), "C08:comment line follows its ';'");
        v::check(v::scan(a, |_, c| c == '\n').0 == b.0, "C08:comment line ends at the newline");
        if i == 0 {
            v::check(a.0 == p.0 + 1, "C08:first comment line");
        }
        if i + 1 < n {
            v::expand(&lines[i + 1]);
            let next = v::scan(after(b), |_, c| c == '\n' || !c.is_whitespace());
            match v::text_range(&lines[i + 1]) {
                Some((a2, _)) => v::check(a2.0 == next.0 + 1, "C08:comment lines follow each other"),
                None => v::check(
                    match v::peek(after(next)) {
                        None => true,
                        Some(c) => c == '\n',
                    },
                    "C08:empty comment line",
                ),
            }
        } else {
            v::check(
                if at(b, '\n') { end.0 == b.0 + 1 } else { end.0 == b.0 },
                "C08:last comment line",
            );
        }
    } else if i == 0 {
        v::check(
            match v::peek(after(p)) {
                None => true,
                Some(c) => c == '\n',
            },
            "C08:empty comment line",
        );
    }
}

fn string<T>(r: &Res<T>, p: VPos, raw: bool, h: VPos, n: usize, close: VPos) {
    let kind = if raw { Kind::Raw } else { Kind::Chars };
    if let Some(i) = token(r, kind, p, VPos(close.0 + 1 + n)) {
        v::check(i.value == v::text(after(h), close), "C08:string content");
    }
}

fn tag<T>(r: &Res<T>, p: VPos) {
    let h = hashes(p);
    let Some(q) = qname(h) else {
        v::check(r.is_err(), "C11:tag name of other characters");
        match r {
            Err(HmlError::ExpectedTagName { span }) => span_ok(span, p, h),
            _ => v::check(false, "C07:hashes without a name"),
        }
        return;
    };
    v::check(!matches!(r, Err(HmlError::ExpectedTagName { .. })), "C11:tag name refused");
    let open = at(q.end, '{');
    let close = at(q.end, '}');
    let end = if open || close { after(q.end) } else { q.end };
    match v::peek(end) {
        Some(c) if !c.is_whitespace() => {
            match r {
                Err(HmlError::ExpectedWhitespaceAfterTag { span }) => {
                    v::check(span.end().0 == end.0, "C11:where the name ends");
                    span_ok(span, p, end)
                }
                _ => v::check(false, "C07:tag not followed by white space"),
            }
            return;
        }
        _ => {}
    }
    let kind = if close { Kind::Close } else { Kind::Open };
    if let Some(i) = token(r, kind, p, end) {
        named(&i, &q);
        v::check(i.depth == h.0 - p.0, "C08:depth");
        v::check(i.boxed == open, "C08:boxed");
    }
}

fn attribute<T>(r: &Res<T>, p: VPos) {
    let Some(q) = qname(p) else {
        v::check(r.is_err(), "C11:attribute name of other characters");
        match r {
            Err(HmlError::UnexpectedCharacter { .. }) => {}
            _ => v::check(false, "C07:unexpected character"),
        }
        return;
    };
    v::check(!matches!(r, Err(HmlError::UnexpectedCharacter { .. })), "C11:attribute name refused");
    let Some(c) = v::peek(q.end) else {
        match r {
            Err(HmlError::UnexpectedEOF { span }) => {
                v::check(span.end().0 == q.end.0, "C11:where the name ends");
                span_ok(span, p, q.end)
            }
            _ => {
                v::check(false, "C07:end of text after a name");
                v::check(false, "C11:where the name ends")
            }
        }
        return;
    };
    if c != '=' {
        match r {
            Err(HmlError::ExpectedEquals { span, .. }) => {
                v::check(span.end().0 == q.end.0, "C11:where the name ends");
                span_ok(span, p, q.end)
            }
            _ => v::check(false, "C07:name without an equals sign"),
        }
        return;
    }
    let b = after(q.end);
    let (value, end) = match v::peek(b) {
        None => {
            v::check(r.is_err(), "C07:attribute without a value");
            return;
        }
        Some(c) if is_quote(c) => match close_quote(after(b), c, 0) {
            None => {
                v::check(r.is_err(), "C07:attribute value without closing quote");
                return;
            }
            Some(k) => ((after(b), k), after(k)),
        },
        Some(c) if c.is_whitespace() => {
            v::check(r.is_err(), "C07:attribute without a value");
            return;
        }
        Some(_) => {
            let e = v::scan(b, |_, c| c.is_whitespace());
            ((b, e), e)
        }
    };
    if let Some(i) = token(r, Kind::Attr, p, end) {
        named(&i, &q);
        v::check(i.value == v::text(value.0, value.1), "C08:attribute value");
    }
}

fn spec<T>(p: VPos, r: &Res<T>) {
    let Some(c) = v::peek(p) else {
        v::check(matches!(r, Ok(None)), "C07:end of text");
        return;
    };
    if let Ok(Some((e, t))) = r {
        let i = v::tok_info(t);
        v::check(i.start == p.0, "C06:token starts where it was attempted");
        v::check(i.end == e.0, "C06:token ends where lexing resumes");
        v::check(e.0 > p.0, "C06:token consumes a character");
    }
    if c.is_whitespace() {
        let e = v::scan(p, |_, c| !c.is_whitespace());
        token(r, Kind::White, p, e);
        return;
    }
    if c == ';' {
        comment(r, p);
        return;
    }
    let raw = c == 'r';
    let s = if raw { after(p) } else { p };
    let h = hashes(s);
    let n = h.0 - s.0;
    if let Some(q) = v::peek(h) {
        if is_quote(q) {
            if let Some(close) = close_quote(after(h), q, n) {
                string(r, p, raw, h, n, close);
                return;
            }
        }
    }
    if c == '#' {
        tag(r, p);
    } else {
        attribute(r, p);
    }
}

pub fn s_lex(p: VPos) {
    let l = VLex(PhantomData);
    let fns = parse_fns::<VLex<_>, VPos>();
    let r = l.parse(p, &fns);
    spec(p, &r);
}
