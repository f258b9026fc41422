//! Harnesses over the whole library.
mod c14n;
mod corpora;
mod docref;
mod docs;
mod dom;
mod foreign;
mod lexical;
mod loader;
mod model;
mod patterns;
mod pointers;
mod ranges;
mod refdnm;
mod sentences;
mod strings;
mod text;
mod textview;
mod titles;
mod words;

use mccore::Prop;

static PROPS: &[Prop] = &[textview::C01, textview::C02, ranges::PROP, pointers::PROP, loader::PROP, patterns::PROP, sentences::C05, sentences::C06, words::PROP, c14n::C08, c14n::C09, corpora::C10, corpora::C12, docs::C21, docs::C22, model::PROP, lexical::C23, lexical::C31, foreign::C20, foreign::C26, strings::PROP, titles::C18, titles::C19];

fn main() { mccore::main(PROPS) }
