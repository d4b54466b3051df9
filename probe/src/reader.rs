//! Every history of a reader, observed by the monitor.
use crate::lex::VPos;
use crate::mon::Mon;
use crate::v;
use hml_rs::hml_reader::Parser;
use hml_rs::markup::Event;
use hml_rs::names::NamespaceStack;

pub fn r_history(version: usize, ns: &mut NamespaceStack<'_>) {
    let mut parser: Parser<VPos> = Parser::default().set_version(version);
    let mut mon = Mon::new(version);
    loop {
        let r = parser.next_event(ns, || {
            mon.before_token();
            let t = v::token();
            mon.on_token(v::tok_info(&t));
            t
        });
        mon.on_result(&r);
    }
}

/// the event of a comment
pub fn r_comment(ns: &mut NamespaceStack<'_>) {
    let mut parser: Parser<VPos> = Parser::default();
    let _ = parser.next_event(ns, v::token);
    if let Ok(Event::Comment { data, lengths, .. }) = &parser.next_event(ns, v::token) {
        v::check(v::comment_text(data), "C09:text of the comment");
        v::check(v::comment_lengths(lengths), "C09:lengths of the comment's lines");
    }
}
