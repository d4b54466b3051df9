//! Single calls on arbitrary arguments.
use crate::lex::{VLex, VPos};
use crate::v;
use hml_rs::hml_reader::parse_fns;
use hml_rs::markup::*;
use hml_rs::names::*;
use hml_rs::*;
use lexer_rs::Lexer;
use std::marker::PhantomData;

pub fn r_lex(p: VPos) {
    let l = VLex(PhantomData);
    let fns = parse_fns::<VLex<_>, VPos>();
    let r = l.parse(p, &fns);
    v::result(r);
}

// events
pub fn e_start_document(s: Span<VPos>, n: usize) -> Event<VPos> {
    Event::start_document(s, n)
}
pub fn e_end_document(s: Span<VPos>) -> Event<VPos> {
    Event::end_document(s)
}
pub fn e_start_element(s: Span<VPos>, t: Tag) -> Event<VPos> {
    Event::start_element(s, t)
}
pub fn e_end_element(s: Span<VPos>, t: Name) -> Event<VPos> {
    Event::end_element(s, t)
}
pub fn e_comment(s: Span<VPos>, t: String, l: Vec<usize>) -> Event<VPos> {
    Event::comment(s, t, l)
}
pub fn e_content(s: Span<VPos>, c: ContentType, t: String) -> Event<VPos> {
    Event::content(s, c, t)
}
pub fn e_content_raw(s: Span<VPos>, t: String) -> Event<VPos> {
    Event::content_raw(s, t)
}
pub fn e_content_int(s: Span<VPos>, t: String) -> Event<VPos> {
    Event::content_int(s, t)
}
pub fn e_content_ws(s: Span<VPos>, t: String) -> Event<VPos> {
    Event::content_ws(s, t)
}
pub fn e_get_type(e: &Event<VPos>) -> EventType {
    e.get_type()
}
pub fn e_borrow_span(e: &Event<VPos>) -> &Span<VPos> {
    e.borrow_span()
}
pub fn e_as_start_document(e: &Event<VPos>) -> Option<usize> {
    e.as_start_document()
}
pub fn e_as_start_element(e: Event<VPos>) -> Option<Tag> {
    e.as_start_element()
}
pub fn e_as_end_element(e: &Event<VPos>) -> Option<&Name> {
    e.as_end_element()
}
pub fn e_as_content(e: &Event<VPos>) -> Option<(ContentType, &str)> {
    e.as_content()
}
pub fn e_is_start_document(e: &Event<VPos>) -> bool {
    e.is_start_document()
}
pub fn e_is_end_document(e: &Event<VPos>) -> bool {
    e.is_end_document()
}
#[cfg(feature = "xml")]
pub fn e_as_xml_writer<'a>(
    e: &'a Event<VPos>,
    ns: &'a NamespaceStack<'a>,
) -> Option<xml::writer::XmlEvent<'a>> {
    e.as_xml_writer(ns)
}
#[cfg(feature = "xml")]
pub fn e_as_xml_reader<'a>(
    e: &'a Event<VPos>,
    ns: &'a NamespaceStack<'a>,
    fill: bool,
) -> Option<xml::reader::XmlEvent> {
    e.as_xml_reader(ns, fill)
}

// errors
pub fn h_span(e: &HmlError<VPos>) -> Option<&Span<VPos>> {
    e.span()
}
pub fn h_unexpected_eof(a: &VPos, b: &VPos) -> HmlResult<(), VPos> {
    HmlError::unexpected_eof(a, b)
}
pub fn h_unexpected_character(a: &VPos, b: &VPos, c: char) -> HmlResult<(), VPos> {
    HmlError::unexpected_character(a, b, c)
}
pub fn h_unexpected_newline_in_string(a: &VPos, b: &VPos) -> HmlResult<(), VPos> {
    HmlError::unexpected_newline_in_string(a, b)
}
pub fn h_expected_equals(a: &VPos, b: &VPos, c: char) -> HmlResult<(), VPos> {
    HmlError::expected_equals(a, b, c)
}
pub fn h_no_more_events() -> HmlResult<(), VPos> {
    HmlError::no_more_events()
}
pub fn h_unexpected_tag_indent(s: Span<VPos>, n: usize) -> HmlResult<(), VPos> {
    HmlError::unexpected_tag_indent(s, n)
}
pub fn h_unexpected_attribute(s: Span<VPos>, p: &str, n: &str) -> HmlResult<(), VPos> {
    HmlError::unexpected_attribute(s, p, n)
}
pub fn h_io_error(s: Span<VPos>, e: std::io::Error) -> HmlError<VPos> {
    HmlError::io_error(s, e)
}
pub fn h_of_io_result(s: Span<VPos>, r: Result<(), std::io::Error>) -> HmlResult<(), VPos> {
    HmlError::of_io_result(s, r)
}
pub fn h_map_markup_error(r: MarkupResult<u8>, s: &Span<VPos>) -> HmlResult<u8, VPos> {
    HmlError::map_markup_error(r, s)
}
pub fn h_failed_to_parse(p: VPos, ch: char) -> HmlError<VPos> {
    use lexer_rs::LexerError;
    HmlError::failed_to_parse(p, ch)
}
pub fn h_display(e: &HmlError<VPos>) -> String {
    format!("{e}")
}
pub fn h_debug(e: &HmlError<VPos>) -> String {
    format!("{e:?}")
}
pub fn n_fmt_map(ns: &NamespaceStack<'_>, m: NSMap) -> String {
    let mut s = String::new();
    ns.fmt_map(&mut s, m).unwrap();
    s
}

// iteration over mappings, one step from an arbitrary state
pub fn n_into_iter<'b>(ns: &'b NamespaceStack<'b>) {
    let it = ns.into_iter();
    v::result(it)
}
pub fn n_iter_next<'b>(ns: &'b NamespaceStack<'b>) {
    let mut it = ns.into_iter();
    it = any_like(it);
    let r = it.next();
    v::result((r, it));
}
pub fn n_top_iter<'b>(ns: &'b NamespaceStack<'b>) {
    let it = ns.iter_top_mappings();
    v::result(it)
}
pub fn n_top_next<'b>(ns: &'b NamespaceStack<'b>) {
    let mut it = ns.iter_top_mappings();
    it = any_like(it);
    let r = it.next();
    v::result((r, it));
}
/// an arbitrary value of the same type
#[inline(never)]
pub fn any_like<T>(_t: T) -> T {
    loop {}
}
pub fn h_source(e: &HmlError<VPos>) -> bool {
    use std::error::Error;
    e.source().is_some()
}
pub fn e_debug(e: &Event<VPos>) -> String {
    format!("{e:?}")
}
pub fn n_hash(n: &Name, a: &Attribute, h: &mut std::hash::DefaultHasher) {
    use std::hash::Hash;
    n.hash(h);
    a.hash(h);
}
