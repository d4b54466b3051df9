//! XML events: each kind of event against what the writer or reader gets.
use crate::lex::VPos;
use crate::v;
use hml_rs::markup::*;
use hml_rs::names::*;
use xml::common::XmlVersion;
use xml::reader::XmlEvent as R;
use xml::writer::XmlEvent as W;

fn name_is(ns: &NamespaceStack<'_>, n: &Name, local: &str, prefix: Option<&str>) -> bool {
    *local == *ns.name_str(n.name)
        && match prefix {
            None => n.prefix.is_none(),
            Some(p) => !n.prefix.is_none() && *p == *ns.prefix_str(n.prefix),
        }
}

fn text_is(a: &Option<String>, b: Option<&str>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => **x == *y,
        _ => false,
    }
}

pub fn s_writer<'a>(e: &'a Event<VPos>, ns: &'a NamespaceStack<'a>) {
    let r = e.as_xml_writer(ns);
    match e {
        Event::StartDocument { version, .. } => {
            v::check(
                match &r {
                    Some(W::StartDocument { version: x, .. }) => {
                        (*version == 100) == matches!(x, XmlVersion::Version10)
                    }
                    _ => false,
                },
                "C19:writer StartDocument",
            );
        }
        Event::EndDocument { .. } => v::check(r.is_none(), "C19:writer EndDocument"),
        Event::StartElement { tag, .. } => match &r {
            Some(W::StartElement { name, attributes, .. }) => {
                v::check(
                    name_is(ns, &tag.name, name.local_name, name.prefix),
                    "C19:writer StartElement name",
                );
                let want = tag.attributes.attributes();
                v::check(want.len() == attributes.len(), "C19:writer number of attributes");
                if want.len() == attributes.len() && !want.is_empty() {
                    let i = v::index(want.len());
                    let (w, g) = (&want[i], &attributes[i]);
                    v::check(
                        name_is(ns, &w.name, g.name.local_name, g.name.prefix),
                        "C19:writer attribute name",
                    );
                    v::check(*w.value == *g.value, "C19:writer attribute value");
                }
            }
            _ => v::check(false, "C19:writer StartElement"),
        },
        Event::EndElement { .. } => {
            v::check(matches!(&r, Some(W::EndElement { .. })), "C19:writer EndElement")
        }
        Event::Content { data, .. } => v::check(
            match &r {
                Some(W::Characters(s)) => **s == **data,
                Some(W::CData(s)) => **s == **data,
                _ => false,
            },
            "C19:writer Content",
        ),
        Event::ProcessingInstruction { name, data, .. } => v::check(
            match &r {
                Some(W::ProcessingInstruction { name: n, data: d }) => {
                    **n == *ns.name_str(*name) && text_is(data, *d)
                }
                _ => false,
            },
            "C19:writer ProcessingInstruction",
        ),
        Event::Comment { data, .. } => v::check(
            match &r {
                Some(W::Comment(s)) => **s == **data,
                _ => false,
            },
            "C19:writer Comment",
        ),
    }
}

fn owned_is(ns: &NamespaceStack<'_>, n: &Name, x: &xml::name::OwnedName) -> bool {
    *x.local_name == *ns.name_str(n.name)
        && match &x.prefix {
            None => n.prefix.is_none(),
            Some(p) => !n.prefix.is_none() && **p == *ns.prefix_str(n.prefix),
        }
}

pub fn s_reader<'a>(e: &'a Event<VPos>, ns: &'a NamespaceStack<'a>, fill: bool) {
    let r = e.as_xml_reader(ns, fill);
    match e {
        Event::StartDocument { version, .. } => {
            v::check(
                match &r {
                    Some(R::StartDocument { version: x, .. }) => {
                        (*version == 100) == matches!(x, XmlVersion::Version10)
                    }
                    _ => false,
                },
                "C19:reader StartDocument",
            );
        }
        Event::EndDocument { .. } => {
            v::check(matches!(&r, Some(R::EndDocument)), "C19:reader EndDocument")
        }
        Event::StartElement { tag, .. } => match &r {
            Some(R::StartElement { name, attributes, .. }) => {
                v::check(owned_is(ns, &tag.name, name), "C19:reader StartElement name");
                let want = tag.attributes.attributes();
                v::check(want.len() == attributes.len(), "C19:reader number of attributes");
                if want.len() == attributes.len() && !want.is_empty() {
                    let i = v::index(want.len());
                    let (w, g) = (&want[i], &attributes[i]);
                    v::check(owned_is(ns, &w.name, &g.name), "C19:reader attribute name");
                    v::check(*w.value == *g.value, "C19:reader attribute value");
                }
            }
            _ => v::check(false, "C19:reader StartElement"),
        },
        Event::EndElement { name, .. } => match &r {
            Some(R::EndElement { name: x }) => {
                v::check(owned_is(ns, name, x), "C19:reader EndElement name")
            }
            _ => v::check(false, "C19:reader EndElement"),
        },
        Event::Content { data, .. } => v::check(
            match &r {
                Some(R::Characters(s)) => **s == **data,
                Some(R::CData(s)) => **s == **data,
                _ => false,
            },
            "C19:reader Content",
        ),
        Event::ProcessingInstruction { name, data, .. } => v::check(
            match &r {
                Some(R::ProcessingInstruction { name: n, data: d }) => {
                    **n == *ns.name_str(*name) && text_is(data, d.as_deref())
                }
                _ => false,
            },
            "C19:reader ProcessingInstruction",
        ),
        Event::Comment { data, .. } => v::check(
            match &r {
                Some(R::Comment(s)) => **s == **data,
                _ => false,
            },
            "C19:reader Comment",
        ),
    }
}
