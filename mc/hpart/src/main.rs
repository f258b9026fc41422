//! Harnesses for the modules that stand alone.
mod dict;
mod lex;
mod ngram;
mod helpers;
mod plot;
mod presets;
mod resdocs;
mod stop;

use mccore::Prop;

static PROPS: &[Prop] = &[ngram::PROP, dict::PROP, lex::PROP, plot::PROP, resdocs::PROP, stop::PROP, presets::PROP, helpers::PROP];

fn main() {
  if resdocs::child() {
    return;
  }
  mccore::main(PROPS)
}
