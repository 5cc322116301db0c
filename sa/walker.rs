#![allow(dead_code, clippy::all)]
//! Readers written by hand against the public reading interface.  The functions `saw_*` and `pick`
//! are the observation points and free choices of the analysis; their bodies do not matter.
use instant_xml::de::{Deserializer, Limits, Node};
use instant_xml::*;

pub fn touch<T>(t: T) {
    std::hint::black_box(t);
}

/// The reader's own decision: either answer is possible.
#[inline(never)]
pub fn pick(at: u32) -> bool { std::hint::black_box(at) == 0 }
#[inline(never)]
pub fn saw_match(ns: &str, name: &str) { touch((ns, name)) }
#[inline(never)]
pub fn saw_parent(ns: &str, name: &str) { touch((ns, name)) }
#[inline(never)]
pub fn saw_open(ns: &str, name: &str) { touch((ns, name)) }
#[inline(never)]
pub fn saw_open_unknown() { touch(0) }
#[inline(never)]
pub fn saw_open_plain() { touch(0) }
#[inline(never)]
pub fn saw_attr(ns: &str, name: &str, value: &str, slice: bool) { touch((ns, name, value, slice)) }
#[inline(never)]
pub fn saw_attr_unknown() { touch(0) }
#[inline(never)]
pub fn saw_attr_plain(name: &str, value: &str, slice: bool) { touch((name, value, slice)) }
#[inline(never)]
pub fn saw_text(text: &str, slice: bool) { touch((text, slice)) }
#[inline(never)]
pub fn saw_end() { touch(0) }
#[inline(never)]
pub fn saw_close() { touch(0) }
#[inline(never)]
pub fn skipping() { touch(0) }
#[inline(never)]
pub fn skipped() { touch(0) }
#[inline(never)]
pub fn putting_back() { touch(0) }
#[inline(never)]
pub fn fetching() { touch(0) }

macro_rules! root {
    ($name:ident, $walk:ident) => {
        pub struct $name;
        impl<'xml> FromXml<'xml> for $name {
            fn matches(id: Id<'_>, _: Option<Id<'_>>) -> bool {
                saw_match(id.ns, id.name);
                true
            }
            fn deserialize<'cx>(into: &mut Self::Accumulator, _: &'static str, de: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
                $walk(de)?;
                *into = Some($name);
                Ok(())
            }
            type Accumulator = Option<$name>;
            const KIND: Kind = Kind::Element;
        }
    };
}

/// Reads every node and resolves every name.
fn names(de: &mut Deserializer<'_, '_>) -> Result<(), Error> {
    let p = de.parent();
    saw_parent(p.ns, p.name);
    loop {
        fetching();
        match de.next() {
            None => {
                saw_end();
                return Ok(());
            }
            Some(Err(e)) => return Err(e),
            Some(Ok(Node::Open(element))) => {
                match de.element_id(&element) {
                    Ok(id) => saw_open(id.ns, id.name),
                    Err(e) => {
                        saw_open_unknown();
                        return Err(e);
                    }
                }
                names(&mut de.nested(element))?;
            }
            Some(Ok(Node::Attribute(attr))) => match de.attribute_id(&attr) {
                Ok(id) => saw_attr(id.ns, id.name, &attr.value, matches!(attr.value, std::borrow::Cow::Borrowed(_))),
                Err(e) => {
                    saw_attr_unknown();
                    return Err(e);
                }
            },
            Some(Ok(Node::AttributeValue(value))) => saw_text(&value, matches!(value, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::Text(text))) => saw_text(&text, matches!(text, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::Close { .. })) => saw_close(),
        }
    }
}
root!(Names, names);

/// Reads every node, resolving nothing.
fn plain(de: &mut Deserializer<'_, '_>) -> Result<(), Error> {
    loop {
        fetching();
        match de.next() {
            None => {
                saw_end();
                return Ok(());
            }
            Some(Err(e)) => return Err(e),
            Some(Ok(Node::Open(element))) => {
                saw_open_plain();
                plain(&mut de.nested(element))?;
            }
            Some(Ok(Node::Attribute(attr))) => saw_attr_plain(attr.local, &attr.value, matches!(attr.value, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::AttributeValue(value))) => saw_text(&value, matches!(value, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::Text(text))) => saw_text(&text, matches!(text, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::Close { .. })) => saw_close(),
        }
    }
}
root!(Plain, plain);

/// Reads, skips or leaves each element, as it pleases.
fn skip(de: &mut Deserializer<'_, '_>) -> Result<(), Error> {
    loop {
        if pick(0) {
            skipping();
            de.ignore()?;
            skipped();
            return Ok(());
        }
        fetching();
        match de.next() {
            None => {
                saw_end();
                return Ok(());
            }
            Some(Err(e)) => return Err(e),
            Some(Ok(Node::Open(element))) => {
                saw_open_plain();
                skip(&mut de.nested(element))?;
            }
            Some(Ok(Node::Attribute(attr))) => saw_attr_plain(attr.local, &attr.value, matches!(attr.value, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::AttributeValue(value))) => saw_text(&value, matches!(value, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::Text(text))) => saw_text(&text, matches!(text, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::Close { .. })) => saw_close(),
        }
    }
}
root!(Skip, skip);

/// Leaves the root element where it pleases.
fn leave(de: &mut Deserializer<'_, '_>) -> Result<(), Error> {
    loop {
        if pick(0) {
            skipping();
            return Ok(());
        }
        fetching();
        match de.next() {
            None => {
                saw_end();
                return Ok(());
            }
            Some(Err(e)) => return Err(e),
            Some(Ok(Node::Open(element))) => {
                saw_open_plain();
                skipping();
                de.nested(element).ignore()?;
                skipped();
            }
            Some(Ok(Node::Attribute(attr))) => saw_attr_plain(attr.local, &attr.value, matches!(attr.value, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::AttributeValue(value))) => saw_text(&value, matches!(value, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::Text(text))) => saw_text(&text, matches!(text, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::Close { .. })) => saw_close(),
        }
    }
}
root!(Leave, leave);

/// Puts nodes back before reading them.
fn again(de: &mut Deserializer<'_, '_>) -> Result<(), Error> {
    loop {
        fetching();
        let node = match de.next() {
            None => {
                saw_end();
                return Ok(());
            }
            Some(Err(e)) => return Err(e),
            Some(Ok(node)) => node,
        };
        if let Node::Close { .. } = &node {
            saw_close();
            continue;
        }
        putting_back();
        let mut back = de.for_node(node);
        match back.next() {
            None => {
                saw_end();
                return Ok(());
            }
            Some(Err(e)) => return Err(e),
            Some(Ok(Node::Open(element))) => {
                saw_open_plain();
                again(&mut back.nested(element))?;
            }
            Some(Ok(Node::Attribute(attr))) => saw_attr_plain(attr.local, &attr.value, matches!(attr.value, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::AttributeValue(value))) => saw_text(&value, matches!(value, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::Text(text))) => saw_text(&text, matches!(text, std::borrow::Cow::Borrowed(_))),
            Some(Ok(Node::Close { .. })) => saw_close(),
        }
    }
}
root!(Again, again);

fn whole<'xml, T: FromXml<'xml>>(input: &'xml str) -> bool {
    instant_xml::from_str::<T>(input).is_ok()
}

fn limited<'xml, T: FromXml<'xml>>(input: &'xml str, limits: Limits) -> bool {
    match Deserializer::new(input) {
        Ok(de) => de.with_limits(limits).deserialize::<T>().is_ok(),
        Err(_) => false,
    }
}

#[inline(never)]
pub fn root_tok_names(input: &str) -> bool { whole::<Names>(input) }
#[inline(never)]
pub fn root_tok_plain(input: &str) -> bool { whole::<Plain>(input) }
#[inline(never)]
pub fn root_tok_skip(input: &str) -> bool { whole::<Skip>(input) }
#[inline(never)]
pub fn root_tok_leave(input: &str) -> bool { whole::<Leave>(input) }
#[inline(never)]
pub fn root_tok_again(input: &str) -> bool { whole::<Again>(input) }
#[inline(never)]
pub fn root_tok_limited(input: &str, limits: Limits) -> bool { limited::<Skip>(input, limits) }
