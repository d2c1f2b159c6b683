//! Stand-in for html5ever: atoms, the `TreeSink` interface and an HTML tree builder after the
//! standard: implied html/head/body, void and raw text elements, character references, comments,
//! foreign elements, auto-closing, active formatting elements with the adoption agency, tables with
//! foster parenting, templates. Left out: frames, `select` modes.
mod atoms;
mod parser;
pub mod tree_builder;
pub use atoms::*;
pub use parser::{ParseOpts, Parser, parse_document, parse_fragment};
pub use tendril;

pub mod interface {
    pub use crate::{Attribute, LocalName, Namespace, Prefix, QualName};
    pub use crate::tree_builder::{ElemName, ElementFlags, NodeOrText, QuirksMode, TreeSink};
}
#[macro_export]
macro_rules! local_name {
    ($s:tt) => {
        $crate::LocalName::from($s)
    };
}
#[macro_export]
macro_rules! namespace_prefix {
    ($s:tt) => {
        $crate::Prefix::from($s)
    };
}
#[macro_export]
macro_rules! namespace_url {
    ($s:tt) => {
        $crate::Namespace::from($s)
    };
}
#[macro_export]
macro_rules! ns {
    () => {
        $crate::Namespace::from("")
    };
    (*) => {
        $crate::Namespace::from("*")
    };
    (html) => {
        $crate::Namespace::from("http://www.w3.org/1999/xhtml")
    };
    (svg) => {
        $crate::Namespace::from("http://www.w3.org/2000/svg")
    };
    (mathml) => {
        $crate::Namespace::from("http://www.w3.org/1998/Math/MathML")
    };
    (xlink) => {
        $crate::Namespace::from("http://www.w3.org/1999/xlink")
    };
    (xml) => {
        $crate::Namespace::from("http://www.w3.org/XML/1998/namespace")
    };
    (xmlns) => {
        $crate::Namespace::from("http://www.w3.org/2000/xmlns/")
    };
}
