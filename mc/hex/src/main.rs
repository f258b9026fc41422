//! Harnesses over the example programs, the ones the corpora are actually processed with.
#![allow(dead_code)]
#[path = "../../hfull/src/docref.rs"]
mod docref;
#[path = "../../hfull/src/dom.rs"]
mod dom;
#[path = "../../hfull/src/lexical.rs"]
mod lexical;
mod matches;
#[path = "../../hfull/src/patterns.rs"]
mod patterns;
#[path = "../../hpart/src/plot.rs"]
mod plot;
mod program;
#[path = "../../hfull/src/refdnm.rs"]
mod refdnm;
mod report;
#[path = "../../hfull/src/sentences.rs"]
mod sentences;
mod statements;
mod statistics;
#[path = "../../hfull/src/text.rs"]
mod text;
#[path = "../../hfull/src/titles.rs"]
mod titles;
#[path = "../../hfull/src/words.rs"]
mod words;

use mccore::Prop;

static PROPS: &[Prop] = &[statistics::PROP, statements::PROP, report::PROP, matches::PROP];

fn main() { mccore::main(PROPS) }
