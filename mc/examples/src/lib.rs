//! The example programs of /repo.
#![allow(warnings)]
#[path = "/repo/examples/corpus_heading_stats.rs"]
pub mod corpus_heading_stats;
#[path = "/repo/examples/corpus_math_count.rs"]
pub mod corpus_math_count;
#[path = "/repo/examples/corpus_mathml_stats.rs"]
pub mod corpus_mathml_stats;
#[path = "/repo/examples/corpus_node_model.rs"]
pub mod corpus_node_model;
#[path = "/repo/examples/corpus_statement_paragraphs_model.rs"]
pub mod corpus_statement_paragraphs_model;
#[path = "/repo/examples/corpus_token_model.rs"]
pub mod corpus_token_model;
#[path = "/repo/examples/pattern_example.rs"]
pub mod pattern_example;
#[path = "/repo/examples/pos_tagging.rs"]
pub mod pos_tagging;
#[path = "/repo/examples/pre_ref_words.rs"]
pub mod pre_ref_words;
// their entry points are private
pub mod citation_ngrams {
  include!("/repo/examples/citation_ngrams.rs");
  pub fn run() -> Result<(), Box<dyn Error>> { main() }
}
pub mod word_tokenization {
  include!("/repo/examples/word_tokenization.rs");
  pub fn run() { main() }
}
