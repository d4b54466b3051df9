//! Analysis primitives; bodies are never looked at.
use crate::lex::VPos;
use crate::mon::TokInfo;

/// position after stepping over one character as given to the position type
#[inline(never)]
pub fn adv_cols(_p: VPos, _bytes: usize, _chars: usize) -> VPos {
    loop {}
}
#[inline(never)]
pub fn adv_line(_p: VPos, _bytes: usize) -> VPos {
    loop {}
}
/// step over a character counting it as one column whatever it is
#[inline(never)]
pub fn step_col(_p: VPos, _ch: char) -> VPos {
    loop {}
}
#[inline(never)]
pub fn peek(_p: VPos) -> Option<char> {
    loop {}
}
#[inline(never)]
pub fn text(_a: VPos, _b: VPos) -> &'static str {
    loop {}
}
#[inline(never)]
pub fn byte_ofs(_a: VPos) -> usize {
    loop {}
}
/// the result of an entry point
#[inline(never)]
pub fn result<T>(_t: T) {
    loop {}
}
/// an arbitrary token, lexing error or end of tokens
#[inline(never)]
pub fn token<T>() -> T {
    loop {}
}
/// what is known of the token just supplied
#[inline(never)]
pub fn tok_info<T>(_t: &T) -> TokInfo {
    loop {}
}
/// an obligation
#[inline(never)]
pub fn check(_c: bool, _what: &'static str) {
    loop {}
}
/// identifiers that interning gives to strings
#[inline(never)]
pub fn pid(_s: &'static str) -> usize {
    loop {}
}
#[inline(never)]
pub fn nid(_s: &'static str) -> usize {
    loop {}
}
#[inline(never)]
pub fn id_of<T>(_t: &T) -> usize {
    loop {}
}
/// number of scopes the reader has added to the namespace stack
#[inline(never)]
pub fn ns_depth() -> usize {
    loop {}
}
/// an error has been returned
#[inline(never)]
pub fn failed() {
    loop {}
}
/// does the namespace interpret xmlns attributes
#[inline(never)]
pub fn xmlns() -> bool {
    loop {}
}
#[inline(never)]
pub fn expect_depth(_n: usize) {
    loop {}
}
/// a name resolution failed since the last clear
#[inline(never)]
pub fn ns_err() -> bool {
    loop {}
}
#[inline(never)]
pub fn ns_err_clear() {
    loop {}
}
/// is this the error of the token just supplied
#[inline(never)]
pub fn is_token_error<T>(_t: &T) -> bool {
    loop {}
}
/// comment event against the token's lines
#[inline(never)]
pub fn comment_text(_data: &str) -> bool {
    loop {}
}
#[inline(never)]
pub fn comment_lengths(_lengths: &[usize]) -> bool {
    loop {}
}
/// the first index from p on where f holds, or the end of the text
#[inline(never)]
pub fn scan<F: Fn(usize, char) -> bool>(p: VPos, f: F) -> VPos {
    if f(p.0, 'x') {
        p
    } else {
        loop {}
    }
}
/// an arbitrary index below n
#[inline(never)]
pub fn index(_n: usize) -> usize {
    loop {}
}
/// lines of a comment token
#[inline(never)]
pub fn tok_lines<T>(_t: &T) -> &[String] {
    loop {}
}
/// the part of the text a string was copied from
#[inline(never)]
pub fn text_range(_s: &str) -> Option<(VPos, VPos)> {
    loop {}
}
/// consider each way the value may have come about
#[inline(never)]
pub fn expand<T>(_t: &T) {
    loop {}
}
/// a value, to be compared with what becomes of it
#[derive(Clone, Copy)]
pub struct Snap(pub usize);
impl Snap {
    pub fn none() -> Self {
        Snap(0)
    }
}
#[inline(never)]
pub fn snap<T: ?Sized>(_t: &T) -> Snap {
    loop {}
}
#[inline(never)]
pub fn same_snap<T: ?Sized>(_t: &T, _s: Snap) -> bool {
    loop {}
}
/// an arbitrary string
#[inline(never)]
pub fn a_string() -> String {
    loop {}
}
/// the last arbitrary string
#[inline(never)]
pub fn that_string() -> &'static str {
    loop {}
}

/// any value
#[inline(never)]
pub fn any<T>() -> T {
    loop {}
}

/// any string
#[inline(never)]
pub fn a_str() -> &'static str {
    loop {}
}

/// whether to go on
#[inline(never)]
pub fn more() -> bool {
    loop {}
}

/// another value like this one, sharing nothing with it
#[inline(never)]
pub fn twin<T>(_t: &T) -> T {
    loop {}
}

/// whether the string has the character
#[inline(never)]
pub fn has_char(_s: &str, _c: char) -> bool {
    loop {}
}

/// whether the string is the escape of the other
#[inline(never)]
pub fn is_escape(_r: &str, _s: &str, _set: usize) -> bool {
    loop {}
}
/// whether some character of the string needs an escape
#[inline(never)]
pub fn some_escape(_s: &str, _set: usize) -> bool {
    loop {}
}
/// some text of few characters
#[inline(never)]
pub fn a_text() -> &'static str {
    loop {}
}
/// some text with a reference by number
#[inline(never)]
pub fn a_reference() -> &'static str {
    loop {}
}

/// whether the order kept of the declarations of the innermost scope is that of its map
#[inline(never)]
pub fn listed<T>(_s: &T, _p: hml_rs::names::NSPrefixId) -> bool {
    loop {}
}
