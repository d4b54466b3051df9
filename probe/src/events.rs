//! Events and errors: every value of every kind.
use crate::lex::VPos;
use crate::v;
use hml_rs::markup::*;
use hml_rs::names::*;
use hml_rs::*;
use lexer_rs::LexerError;

fn same(a: &Span<VPos>, b: &Span<VPos>) -> bool {
    a.start().0 == b.start().0 && a.end().0 == b.end().0
}

/// accessors against the fields
pub fn s_event(e: &Event<VPos>) {
    let t = e.get_type();
    let sp = e.borrow_span();
    let is_start = e.is_start_document();
    let is_end = e.is_end_document();
    let doc = e.as_start_document();
    let end = e.as_end_element();
    let content = e.as_content();
    match e {
        Event::StartDocument { span, version } => {
            v::check(t == EventType::StartDocument, "C24:type of StartDocument");
            v::check(same(sp, span), "C24:span of StartDocument");
            v::check(
                match doc {
                    Some(n) => n == *version,
                    None => false,
                },
                "C24:as_start_document",
            );
        }
        Event::EndDocument { span } => {
            v::check(t == EventType::EndDocument, "C24:type of EndDocument");
            v::check(same(sp, span), "C24:span of EndDocument");
        }
        Event::StartElement { span, .. } => {
            v::check(t == EventType::StartElement, "C24:type of StartElement");
            v::check(same(sp, span), "C24:span of StartElement");
        }
        Event::EndElement { span, name } => {
            v::check(t == EventType::EndElement, "C24:type of EndElement");
            v::check(same(sp, span), "C24:span of EndElement");
            v::check(
                match end {
                    Some(n) => *n == *name,
                    None => false,
                },
                "C24:as_end_element",
            );
        }
        Event::Content { span, ctype, data } => {
            v::check(t == EventType::Content, "C24:type of Content");
            v::check(same(sp, span), "C24:span of Content");
            v::check(
                match content {
                    Some((c, s)) => c == *ctype && *s == **data,
                    None => false,
                },
                "C24:as_content",
            );
        }
        Event::ProcessingInstruction { span, .. } => {
            v::check(t == EventType::ProcessingInstruction, "C24:type of ProcessingInstruction");
            v::check(same(sp, span), "C24:span of ProcessingInstruction");
        }
        Event::Comment { span, .. } => {
            v::check(t == EventType::Comment, "C24:type of Comment");
            v::check(same(sp, span), "C24:span of Comment");
        }
    }
    v::check(is_start == matches!(e, Event::StartDocument { .. }), "C24:is_start_document");
    v::check(is_end == matches!(e, Event::EndDocument { .. }), "C24:is_end_document");
    v::check(
        doc.is_some() == matches!(e, Event::StartDocument { .. }),
        "C24:as_start_document of another kind",
    );
    v::check(
        end.is_some() == matches!(e, Event::EndElement { .. }),
        "C24:as_end_element of another kind",
    );
    v::check(
        content.is_some() == matches!(e, Event::Content { .. }),
        "C24:as_content of another kind",
    );
}

/// the accessor that takes the event apart
pub fn s_take(e: Event<VPos>) {
    let is = matches!(e, Event::StartElement { .. });
    let mut id = v::Snap::none();
    if let Event::StartElement { tag, .. } = &e {
        id = v::snap(tag);
    }
    let r = e.as_start_element();
    v::check(r.is_some() == is, "C24:as_start_element of another kind");
    if let Some(tag) = &r {
        v::check(v::same_snap(tag, id), "C24:as_start_element");
    }
}

/// constructors
pub fn s_build(s: Span<VPos>, n: usize, name: Name, c: ContentType) {
    match Event::start_document(s, n) {
        Event::StartDocument { span, version } => {
            v::check(same(&span, &s) && version == n, "C24:start_document")
        }
        _ => v::check(false, "C24:start_document"),
    }
    match Event::end_document(s) {
        Event::EndDocument { span } => v::check(same(&span, &s), "C24:end_document"),
        _ => v::check(false, "C24:end_document"),
    }
    match Event::end_element(s, name) {
        Event::EndElement { span, name: x } => {
            v::check(same(&span, &s) && x == name, "C24:end_element")
        }
        _ => v::check(false, "C24:end_element"),
    }
    build_content(&Event::content(s, c, v::a_string()), s, c, "C24:content");
    build_content(&Event::content_raw(s, v::a_string()), s, ContentType::Raw, "C24:content_raw");
    build_content(&Event::content_int(s, v::a_string()), s, ContentType::Interpretable, "C24:content_int");
    build_content(&Event::content_ws(s, v::a_string()), s, ContentType::Whitespace, "C24:content_ws");
}

fn build_content(e: &Event<VPos>, s: Span<VPos>, c: ContentType, what: &'static str) {
    match e {
        Event::Content { span, ctype, data } => v::check(
            same(span, &s) && *ctype == c && **data == *v::that_string(),
            what,
        ),
        _ => v::check(false, what),
    }
}

pub fn s_build_owned(s: Span<VPos>, tag: Tag, lines: Vec<usize>) {
    let id = v::snap(&tag);
    match Event::start_element(s, tag) {
        Event::StartElement { span, tag } => {
            v::check(same(&span, &s) && v::same_snap(&tag, id), "C24:start_element")
        }
        _ => v::check(false, "C24:start_element"),
    }
    let id = v::snap(&lines);
    match Event::comment(s, v::a_string(), lines) {
        Event::Comment { span, data, lengths } => v::check(
            same(&span, &s) && *data == *v::that_string() && v::same_snap(&lengths, id),
            "C24:comment",
        ),
        _ => v::check(false, "C24:comment"),
    }
}

/// the span of an error
pub fn s_error(e: &HmlError<VPos>) {
    use HmlError::*;
    let got = e.span();
    match e {
        IoError { span, .. }
        | MarkupError { span, .. }
        | ExpectedTagName { span, .. }
        | ExpectedWhitespaceAfterTag { span, .. }
        | UnexpectedCharacter { span, .. }
        | UnexpectedTagIndent { span, .. }
        | UnmatchedCloseTag { span, .. }
        | UnexpectedAttribute { span, .. }
        | UnexpectedContent { span, .. }
        | UnexpectedNewlineInQuotedString { span, .. }
        | ExpectedEquals { span, .. }
        | UnexpectedEOF { span, .. } => v::check(
            match got {
                Some(s) => same(s, span),
                None => false,
            },
            "C20:span of an error",
        ),
        BeyondEndOfTokens => v::check(got.is_none(), "C20:span of an error without one"),
    }
}

fn located(e: &HmlError<VPos>, a: usize, b: usize, what: &'static str) {
    v::check(
        match e.span() {
            Some(s) => s.start().0 == a && s.end().0 == b,
            None => false,
        },
        what,
    );
}

fn refused(r: HmlResult<u8, VPos>, a: usize, b: usize, what: &'static str) {
    match &r {
        Ok(_) => v::check(false, what),
        Err(e) => located(e, a, b, what),
    }
}

/// the constructors keep the place they are given
pub fn s_locate(a: VPos, b: VPos, s: Span<VPos>, ch: char, n: usize) {
    let (x, y) = (s.start().0, s.end().0);
    refused(HmlError::unexpected_eof(&a, &b), a.0, b.0, "C20:unexpected_eof");
    refused(HmlError::unexpected_character(&a, &b, ch), a.0, b.0, "C20:unexpected_character");
    refused(
        HmlError::unexpected_newline_in_string(&a, &b),
        a.0,
        b.0,
        "C20:unexpected_newline_in_string",
    );
    refused(HmlError::expected_equals(&a, &b, ch), a.0, b.0, "C20:expected_equals");
    refused(HmlError::unexpected_tag_indent(s, n), x, y, "C20:unexpected_tag_indent");
    located(&HmlError::failed_to_parse(a, ch), a.0, a.0, "C20:failed_to_parse");
    match HmlError::<VPos>::no_more_events::<u8>() {
        Err(HmlError::BeyondEndOfTokens) => {}
        _ => v::check(false, "C20:no_more_events"),
    }
}

pub fn s_wrap(s: Span<VPos>, r: MarkupResult<u8>) {
    let (x, y) = (s.start().0, s.end().0);
    let good = match &r {
        Ok(t) => Some(*t),
        Err(_) => None,
    };
    let id = match &r {
        Ok(_) => v::Snap::none(),
        Err(e) => v::snap(e),
    };
    match &HmlError::map_markup_error(r, &s) {
        Ok(t) => v::check(
            match good {
                Some(g) => g == *t,
                None => false,
            },
            "C20:error of a name dropped",
        ),
        Err(e) => {
            v::check(good.is_none(), "C20:error from nothing");
            located(e, x, y, "C20:map_markup_error");
            match e {
                HmlError::MarkupError { source, .. } => {
                    v::check(v::same_snap(source, id), "C20:error of a name changed")
                }
                _ => v::check(false, "C20:error of a name changed"),
            }
        }
    }
}

pub fn s_io(s: Span<VPos>, r: Result<u8, std::io::Error>) {
    let (x, y) = (s.start().0, s.end().0);
    let good = match &r {
        Ok(t) => Some(*t),
        Err(_) => None,
    };
    match &HmlError::of_io_result(s, r) {
        Ok(t) => v::check(
            match good {
                Some(g) => g == *t,
                None => false,
            },
            "C20:io error dropped",
        ),
        Err(e) => {
            v::check(good.is_none(), "C20:error from nothing");
            located(e, x, y, "C20:of_io_result");
        }
    }
}
