//! Reference monitor of the reader: what the property list says about the
//! events that follow from tokens.  It observes tokens as they are taken and
//! results as they are returned.
use crate::lex::VPos;
use crate::v;
use hml_rs::markup::{ContentType, Event};
use hml_rs::names::Name;
use hml_rs::{HmlError, Span};

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    White,
    Comment,
    Open,
    Close,
    Attr,
    Chars,
    Raw,
    End,
    Error,
}

#[derive(Clone, Copy)]
pub struct TokInfo {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
    pub depth: usize,
    pub boxed: bool,
    pub prefix: &'static str,
    pub name: &'static str,
    pub value: &'static str,
}

pub struct Elem {
    pub parent: usize,
    pub hashes: usize,
    pub start: usize,
    pub end: usize,
    pub boxed: bool,
    pub prefix: &'static str,
    pub name: &'static str,
    /// the name StartElement was delivered with
    pub ev_pid: usize,
    pub ev_uid: usize,
    pub ev_nid: usize,
}

pub struct Attr {
    pub pid: usize,
    pub nid: usize,
    pub value: &'static str,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Phase {
    Start,
    Body,
    Done,
    Failed,
}

pub struct Mon {
    version: usize,
    phase: Phase,
    /// depth in force
    d: usize,
    stack: Vec<Elem>,
    /// the innermost element's attributes are still being read
    building: bool,
    attrs: Vec<Attr>,
    /// token taken and not yet accounted for
    cur: Option<TokInfo>,
    /// a name did not resolve since the previous result
    ns_failed: bool,
}

fn span_is(s: &Span<VPos>, start: usize, end: usize) -> bool {
    s.start().0 == start && s.end().0 == end
}

impl Mon {
    pub fn new(version: usize) -> Self {
        Mon {
            version,
            phase: Phase::Start,
            d: 0,
            stack: Vec::new(),
            building: false,
            attrs: Vec::new(),
            cur: None,
            ns_failed: false,
        }
    }

    fn fail(&mut self) {
        self.phase = Phase::Failed;
        self.d = 0;
        self.stack.clear();
        self.attrs.clear();
        self.building = false;
        self.cur = None;
        v::failed();
    }

    /// What a token does without an event
    fn settle(&mut self) {
        if let Some(t) = self.cur {
            match t.kind {
                Kind::Open => {
                    if !self.building && t.depth == self.d + 1 {
                        self.stack.push(Elem {
                            parent: self.d,
                            hashes: t.depth,
                            start: t.start,
                            end: t.end,
                            boxed: t.boxed,
                            prefix: t.prefix,
                            name: t.name,
                            ev_pid: 0,
                            ev_uid: 0,
                            ev_nid: 0,
                        });
                        self.d = if t.boxed { 0 } else { t.depth };
                        self.building = true;
                        self.cur = None;
                        v::expect_depth(self.stack.len());
                    }
                }
                Kind::Attr => {
                    if self.building {
                        // a default namespace declaration is known as xmlns:xmlns
                        let default_ns = v::xmlns() && t.prefix.is_empty() && t.name == "xmlns";
                        self.attrs.push(Attr {
                            pid: v::pid(if default_ns { "xmlns" } else { t.prefix }),
                            nid: v::nid(t.name),
                            value: t.value,
                        });
                        self.cur = None;
                    }
                }
                _ => {}
            }
        }
    }

    /// what must have become of the tokens taken so far when another is asked for
    pub fn before_token(&mut self) {
        v::check(!v::ns_err(), "C20:name error not returned");
        if self.phase == Phase::Failed {
            self.cur = None;
            return;
        }
        v::check(self.phase == Phase::Body, "C01:token taken outside the document");
        self.settle();
        v::check(
            match self.cur {
                None => true,
                Some(c) => c.kind != Kind::Error,
            },
            "C20:lexing error not returned",
        );
        v::check(
            match self.cur {
                None => true,
                Some(c) => c.kind != Kind::Open,
            },
            "C03:open tag dropped",
        );
        v::check(
            match self.cur {
                None => true,
                Some(c) => c.kind != Kind::Close,
            },
            "C04:close tag dropped",
        );
        v::check(
            match self.cur {
                None => true,
                Some(c) => c.kind == Kind::Open || c.kind == Kind::Close || c.kind == Kind::Error,
            },
            "C09:token dropped",
        );
        v::check(v::ns_depth() == self.stack.len(), "C02:scope per element at a token");
        self.cur = None;
    }

    pub fn on_token(&mut self, t: TokInfo) {
        if t.kind != Kind::White && (self.phase != Phase::Failed || t.kind == Kind::Error) {
            self.cur = Some(t);
        }
    }

    /// the innermost element must end here
    fn end(&mut self, r: &Result<Event<VPos>, HmlError<VPos>>, tag: &'static str) {
        match r {
            Ok(Event::EndElement { name, .. }) => match self.stack.pop() {
                None => v::check(false, "C01:EndElement with no element open"),
                Some(e) => {
                    v::check(
                        v::id_of(&name.prefix) == e.ev_pid
                            && v::id_of(&name.uri) == e.ev_uid
                            && v::id_of(&name.name) == e.ev_nid,
                        "C01:EndElement name differs from its StartElement",
                    );
                    self.d = e.parent;
                    v::expect_depth(self.stack.len());
                }
            },
            _ => v::check(false, tag),
        }
    }

    fn name_is(n: &Name, pid: usize, nid: usize) -> bool {
        v::id_of(&n.prefix) == pid && v::id_of(&n.name) == nid
    }

    fn start(&mut self, r: &Result<Event<VPos>, HmlError<VPos>>) {
        match r {
            Ok(Event::StartElement { span, tag }) => match self.stack.last_mut() {
                None => v::check(false, "C01:StartElement with no element"),
                Some(e) => {
                    v::check(span_is(span, e.start, e.end), "C09:StartElement span");
                    v::check(Self::name_is(&tag.name, v::pid(e.prefix), v::nid(e.name)), "C09:StartElement name");
                    e.ev_pid = v::id_of(&tag.name.prefix);
                    e.ev_uid = v::id_of(&tag.name.uri);
                    e.ev_nid = v::id_of(&tag.name.name);
                    let have = tag.attributes.attributes();
                    v::check(have.len() == self.attrs.len(), "C09:number of attributes");
                    if !have.is_empty() && have.len() == self.attrs.len() {
                        let i = v::index(have.len());
                        let w = &self.attrs[i];
                        v::check(Self::name_is(&have[i].name, w.pid, w.nid), "C09:attribute name");
                        v::check(have[i].value == w.value, "C09:attribute value");
                    }
                    self.attrs.clear();
                    self.building = false;
                }
            },
            Ok(_) => {
                v::check(false, "C09:other event before StartElement");
                self.fail();
            }
            Err(HmlError::MarkupError { span, .. }) => {
                v::check(
                    self.ns_failed
                        || match self.stack.last() {
                            None => false,
                            Some(e) => e.name.is_empty(),
                        },
                    "C20:not the error met",
                );
                v::check(
                    match self.stack.last() {
                        None => false,
                        Some(e) => span_is(span, e.start, e.end),
                    },
                    "C20:span of the tag",
                );
                self.fail();
            }
            Err(_) => {
                v::check(false, "C09:error instead of StartElement");
                self.fail();
            }
        }
    }

    pub fn on_result(&mut self, r: &Result<Event<VPos>, HmlError<VPos>>) {
        self.result(r);
        self.ns_failed = false;
    }

    fn result(&mut self, r: &Result<Event<VPos>, HmlError<VPos>>) {
        v::check(r.is_err() || !v::ns_err(), "C20:name error not returned");
        self.ns_failed = v::ns_err();
        v::ns_err_clear();
        if self.phase == Phase::Failed {
            if self.cur.is_some() {
                v::check(v::is_token_error(r), "C20:lexing error not returned");
            }
            self.cur = None;
            return;
        }
        if self.phase == Phase::Start {
            v::check(self.cur.is_none(), "C01:token taken before StartDocument");
            match r {
                Ok(Event::StartDocument { version, .. }) => {
                    v::check(*version == self.version, "C01:version");
                    self.phase = Phase::Body;
                }
                _ => {
                    v::check(false, "C01:first event is not StartDocument");
                    self.fail();
                }
            }
            return;
        }
        if self.phase == Phase::Done {
            v::check(
                matches!(r, Err(HmlError::BeyondEndOfTokens)),
                "C01:after EndDocument",
            );
            return;
        }
        match self.cur {
            None => {
                v::check(false, "C09:event without a token");
                self.fail();
            }
            Some(t) => self.on_body(t, r),
        }
        if self.phase == Phase::Body {
            v::check(v::ns_depth() == self.stack.len(), "C02:scope per element at an event");
        }
        if self.phase == Phase::Done {
            v::check(v::ns_depth() == 0, "C02:scopes left at the end");
        }
    }

    fn on_body(&mut self, t: TokInfo, r: &Result<Event<VPos>, HmlError<VPos>>) {
        if t.kind == Kind::Error {
            v::check(v::is_token_error(r), "C20:lexing error not returned");
            self.fail();
            return;
        }
        if self.building && t.kind != Kind::Attr {
            self.start(r);
            return;
        }
        match t.kind {
            Kind::Comment => {
                match r {
                    Ok(Event::Comment { span, .. }) => {
                        v::check(span_is(span, t.start, t.end), "C09:Comment span");
                    }
                    _ => {
                        v::check(false, "C09:comment token");
                        self.fail();
                    }
                }
                self.cur = None;
            }
            Kind::Open => {
                if t.depth <= self.d {
                    if r.is_err() {
                        v::check(false, "C03:error where an element ends");
                        self.fail();
                    } else {
                        self.end(r, "C03:tag with fewer hashes does not end the element");
                    }
                } else if t.depth == self.d + 1 {
                    // opened without an event, so the event is for nothing
                    v::check(false, "C03:tag of the next depth not opened");
                    self.fail();
                } else {
                    match r {
                        Err(HmlError::UnexpectedTagIndent { span, depth }) => {
                            v::check(span_is(span, t.start, t.end), "C20:span of the indent error");
                            v::check(*depth == self.d + 1, "C03:depth in the indent error");
                        }
                        _ => v::check(false, "C03:too many hashes accepted"),
                    }
                    self.fail();
                }
            }
            Kind::Close => match r {
                Ok(_) => {
                    if self.d > 0 {
                        self.end(r, "C04:close tag does not end the inner element");
                    } else {
                        match self.stack.last() {
                            None => {
                                v::check(false, "C04:close tag with no box open");
                                self.fail();
                            }
                            Some(e) => {
                                v::check(
                                    e.ev_pid == v::pid(t.prefix) && e.ev_nid == v::nid(t.name),
                                    "C04:close tag of another name accepted",
                                );
                                v::check(
                                    e.hashes == t.depth,
                                    "C04:close tag of another depth accepted",
                                );
                                self.end(r, "C04:close tag does not end its box");
                                self.cur = None;
                            }
                        }
                    }
                }
                Err(HmlError::MarkupError { span, .. }) => {
                    v::check(span_is(span, t.start, t.end), "C20:span of the close tag");
                    v::check(self.ns_failed || t.name.is_empty(), "C20:not the error met");
                    self.fail();
                }
                Err(e) => {
                    v::check(
                        match e.span() {
                            Some(s) => span_is(s, t.start, t.end),
                            None => false,
                        },
                        "C04:unmatched close tag not located",
                    );
                    v::check(
                        self.d == 0
                            && match self.stack.last() {
                                None => true,
                                Some(e) => {
                                    e.ev_pid != v::pid(t.prefix)
                                        || e.ev_nid != v::nid(t.name)
                                        || e.hashes != t.depth
                                }
                            },
                        "C04:matching close tag refused",
                    );
                    self.fail();
                }
            },
            Kind::Attr => {
                if self.building {
                    match r {
                        Err(HmlError::MarkupError { span, .. }) => {
                            v::check(span_is(span, t.start, t.end), "C20:span of the attribute");
                            v::check(self.ns_failed || t.name.is_empty(), "C20:not the error met");
                        }
                        _ => v::check(false, "C09:result for an attribute"),
                    }
                } else {
                    match r {
                        Err(HmlError::UnexpectedAttribute { span, .. }) => {
                            v::check(
                                span_is(span, t.start, t.end),
                                "C20:span of the misplaced attribute",
                            );
                        }
                        _ => v::check(false, "C09:misplaced attribute accepted"),
                    }
                }
                self.fail();
            }
            Kind::Chars | Kind::Raw => {
                if self.stack.is_empty() {
                    v::check(r.is_err(), "C10:content outside any element");
                    self.fail();
                } else {
                    match r {
                        Ok(Event::Content { span, ctype, data }) => {
                            v::check(span_is(span, t.start, t.end), "C09:Content span");
                            v::check(*data == *t.value, "C09:Content text");
                            let want = if t.kind == Kind::Raw {
                                ContentType::Raw
                            } else {
                                ContentType::Interpretable
                            };
                            v::check(*ctype == want, "C09:Content type");
                        }
                        Ok(_) => {
                            v::check(false, "C09:string token");
                            self.fail();
                        }
                        Err(_) => {
                            v::check(false, "C09:string token refused");
                            self.fail();
                        }
                    }
                    self.cur = None;
                }
            }
            Kind::End => {
                if self.stack.is_empty() {
                    match r {
                        Ok(Event::EndDocument { .. }) => self.phase = Phase::Done,
                        _ => {
                            v::check(false, "C01:no EndDocument at the end");
                            self.fail();
                        }
                    }
                } else if r.is_err() {
                    v::check(false, "C01:error at the end of tokens");
                    self.fail();
                } else {
                    self.end(r, "C01:element not ended at the end of tokens");
                }
            }
            Kind::White | Kind::Error => {}
        }
    }
}
