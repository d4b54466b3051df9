//! Entry points for the analysis.  This crate is only ever compiled up to MIR;
//! nothing in it runs.  The functions of module `v` have no body: they are the
//! points where the analysis supplies a value or takes one.
#![allow(dead_code, clippy::all)]

pub mod esc;
pub mod events;
pub mod lex;
pub mod model;
pub mod mon;
pub mod names;
pub mod reader;
pub mod roots;
pub mod spec_lex;
pub mod v;
#[cfg(feature = "xml")]
pub mod xmlev;
