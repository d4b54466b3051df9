//! A lexer over an arbitrary text.
use hml_rs::HmlError;
use lexer_rs::{
    BoxDynLexerParseFn, CharStream, Lexer, LexerError, LexerParseResult, PosnInCharStream,
    StreamCharSpan, UserPosn,
};
use std::marker::PhantomData;

use crate::v;

/// Index of a character of the text
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct VPos(pub usize);

impl UserPosn for VPos {
    fn advance_cols(self, num_bytes: usize, num_chars: usize) -> Self {
        v::adv_cols(self, num_bytes, num_chars)
    }
    fn advance_line(self, num_bytes: usize) -> Self {
        v::adv_line(self, num_bytes)
    }
}
impl PosnInCharStream for VPos {
    fn byte_ofs(&self) -> usize {
        v::byte_ofs(*self)
    }
}

pub struct VLex<T>(pub PhantomData<T>);
impl<T> std::fmt::Debug for VLex<T> {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}

impl<T: std::fmt::Debug> Lexer for VLex<T> {
    type Token = T;
    type State = VPos;
    type Error = HmlError<VPos>;

    // as LexerOfStr::parse
    fn parse<'a>(
        &'a self,
        state: Self::State,
        parsers: &[BoxDynLexerParseFn<'a, Self>],
    ) -> LexerParseResult<Self::State, Self::Token, Self::Error> {
        if let Some(ch) = self.peek_at(&state) {
            for p in parsers {
                let result = p(self, state, ch)?;
                if result.is_some() {
                    return Ok(result);
                }
            }
            return Err(HmlError::failed_to_parse(state, ch));
        }
        Ok(None)
    }
    fn iter<'iter>(
        &'iter self,
        _parsers: &'iter [BoxDynLexerParseFn<'iter, Self>],
    ) -> Box<dyn Iterator<Item = Result<Self::Token, Self::Error>> + 'iter> {
        loop {}
    }
}

impl<T> CharStream<VPos> for VLex<T> {
    // as LexerOfStr::do_while, which counts every character as a column
    fn do_while<F: Fn(usize, char) -> bool>(
        &self,
        state: VPos,
        ch: char,
        f: &F,
    ) -> (VPos, Option<(VPos, usize)>) {
        if !f(0, ch) {
            return (state, None);
        }
        let start = state;
        let mut n = 1;
        let mut state = v::step_col(state, ch);
        while let Some(ch) = self.peek_at(&state) {
            if !f(n, ch) {
                break;
            }
            n += 1;
            state = v::step_col(state, ch);
        }
        (state, Some((start, n)))
    }
    fn range_as_bytes(&self, _ofs: usize, _n: usize) -> &[u8] {
        loop {}
    }
    fn matches_bytes(&self, _state: &VPos, _s: &[u8]) -> bool {
        loop {}
    }
    fn get_text_span(&self, span: &StreamCharSpan<VPos>) -> &str {
        v::text(*span.start(), *span.end())
    }
    fn get_text(&self, start: VPos, end: VPos) -> &str {
        v::text(start, end)
    }
    fn matches_str(&self, pos: &VPos, pat: &str) -> bool {
        let mut p = *pos;
        for c in pat.chars() {
            match v::peek(p) {
                Some(d) if d == c => {}
                _ => return false,
            }
            p = VPos(p.0 + 1);
        }
        true
    }
    fn peek_at(&self, state: &VPos) -> Option<char> {
        v::peek(*state)
    }
    fn consumed(&self, state: VPos, num_chars: usize) -> VPos {
        let mut p = state;
        let mut n = num_chars;
        while n > 0 {
            match self.peek_at(&p) {
                None => break,
                Some(ch) => p = self.consumed_char(p, ch),
            }
            n -= 1;
        }
        p
    }
}
