//! Stand-in for rust-senna (SENNA itself is not available here): the same data model, with
//! sentences built either by a trivial tokenizer or by the harness. Offsets are byte offsets into
//! the parsed string, as in the original.
pub mod sennapath {
  pub const SENNA_PATH: &str = "/nonexistent/senna";
}
macro_rules! str_enum {
  ($name:ident, $mapfn:ident, $(($v:ident, $s:expr)),*) => {
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
    pub enum $name { $($v),*, NOT_SET }
    impl $name {
      pub fn $mapfn<'t>() -> std::collections::HashMap<&'t str, $name> {
        let mut m = std::collections::HashMap::new();
        $( m.insert($s, $name::$v); )*
        m
      }
      pub fn to_str(self) -> &'static str {
        match self { $($name::$v => $s),*, $name::NOT_SET => "" }
      }
    }
  };
}
pub mod pos {
  str_enum!(POS, generate_str_to_pos_map, (CC, "CC"), (CD, "CD"), (DT, "DT"), (EX, "EX"), (FW, "FW"),
    (IN, "IN"), (JJ, "JJ"), (JJR, "JJR"), (JJS, "JJS"), (LS, "LS"), (MD, "MD"), (NN, "NN"),
    (NNS, "NNS"), (NNP, "NNP"), (NNPS, "NNPS"), (PDT, "PDT"), (POS, "POS"), (PRP, "PRP"),
    (PRPS, "PRP$"), (RB, "RB"), (RBR, "RBR"), (RBS, "RBS"), (RP, "RP"), (SYM, "SYM"), (TO, "TO"),
    (UH, "UH"), (VB, "VB"), (VBD, "VBD"), (VBG, "VBG"), (VBN, "VBN"), (VBP, "VBP"), (VBZ, "VBZ"),
    (WDT, "WDT"), (WP, "WP"), (WPS, "WP$"), (WRB, "WRB"), (DOT, "."), (COMMA, ","), (COLON, ":"));
}
pub mod phrase {
  str_enum!(Phrase, generate_str_to_phrase_map, (ADJP, "ADJP"), (ADVP, "ADVP"), (CONJP, "CONJP"),
    (FRAG, "FRAG"), (INTJ, "INTJ"), (LST, "LST"), (NAC, "NAC"), (NP, "NP"), (NX, "NX"), (PP, "PP"),
    (PRN, "PRN"), (PRT, "PRT"), (QP, "QP"), (RRC, "RRC"), (S, "S"), (S1, "S1"), (SBAR, "SBAR"),
    (SBARQ, "SBARQ"), (SINV, "SINV"), (SQ, "SQ"), (UCP, "UCP"), (VP, "VP"), (WHADJP, "WHADJP"),
    (WHADVP, "WHADVP"), (WHNP, "WHNP"), (WHPP, "WHPP"), (X, "X"));
}
pub mod sentence {
  use crate::phrase::Phrase;
  use crate::pos::POS;
  #[derive(Clone, Debug)]
  pub struct Word<'t> {
    offset_start: usize,
    offset_end: usize,
    string: &'t str,
    index: u32,
    pos: POS,
  }
  impl<'t> Word<'t> {
    pub fn new(s: usize, e: usize, string: &'t str, index: u32) -> Word<'t> {
      Word { offset_start: s, offset_end: e, string, index, pos: POS::NOT_SET }
    }
    pub fn set_pos(&mut self, p: POS) { self.pos = p }
    pub fn get_pos(&self) -> POS { self.pos }
    pub fn get_string(&self) -> &'t str { self.string }
    pub fn get_offset_start(&self) -> usize { self.offset_start }
    pub fn get_offset_end(&self) -> usize { self.offset_end }
    pub fn get_index(&self) -> u32 { self.index }
  }
  #[derive(Clone, Debug)]
  pub enum PSGNode {
    Leaf(usize),
    Parent(PSGContent),
  }
  #[derive(Clone, Debug)]
  pub struct PSGContent {
    label: Phrase,
    children: Vec<PSGNode>,
  }
  impl PSGContent {
    pub fn new(label: Phrase, children: Vec<PSGNode>) -> Self { PSGContent { label, children } }
    pub fn get_label(&self) -> Phrase { self.label }
    pub fn get_children(&self) -> &Vec<PSGNode> { &self.children }
  }
  #[derive(Clone, Debug)]
  pub struct Sentence<'t> {
    string: &'t str,
    words: Vec<Word<'t>>,
    psgroot: Option<PSGNode>,
  }
  impl<'t> Sentence<'t> {
    pub fn new(string: &'t str) -> Self { Sentence { string, words: Vec::new(), psgroot: None } }
    pub fn push_word(&mut self, w: Word<'t>) { self.words.push(w) }
    pub fn set_psgroot(&mut self, r: PSGNode) { self.psgroot = Some(r) }
    pub fn get_string(&self) -> &'t str { self.string }
    pub fn get_words(&self) -> &Vec<Word<'t>> { &self.words }
    pub fn get_psgroot(&self) -> Option<&PSGNode> { self.psgroot.as_ref() }
  }
}
pub mod senna {
  use crate::phrase::Phrase;
  use crate::pos::POS;
  use crate::sentence::*;
  #[derive(Clone, Copy, Debug, Default)]
  pub struct SennaParseOptions {
    pub pos: bool,
    pub psg: bool,
  }
  pub struct Senna {
    _path: String,
  }
  /// (byte start, byte end, part of speech)
  pub type Tokens = Vec<(usize, usize, POS)>;
  thread_local! {
    static HOOK: std::cell::RefCell<Option<fn(&str) -> Tokens>> = const { std::cell::RefCell::new(None) };
  }
  /// harness side: replace the tokenizer
  pub fn set_hook(h: Option<fn(&str) -> Tokens>) { HOOK.with(|c| *c.borrow_mut() = h) }
  thread_local! {
    static TREE: std::cell::RefCell<Option<fn(usize) -> PSGNode>> = const { std::cell::RefCell::new(None) };
  }
  /// harness side: the phrase tree over a number of words
  pub fn set_tree(h: Option<fn(usize) -> PSGNode>) { TREE.with(|c| *c.borrow_mut() = h) }
  /// whitespace separated, punctuation alone
  pub fn tokenize(text: &str) -> Tokens {
    let mut v = Vec::new();
    let mut start: Option<usize> = None;
    for (i, c) in text.char_indices() {
      if c.is_alphanumeric() {
        start.get_or_insert(i);
      } else {
        if let Some(s) = start.take() {
          v.push((s, i, POS::NN));
        }
        if !c.is_whitespace() {
          v.push((i, i + c.len_utf8(), POS::SYM));
        }
      }
    }
    if let Some(s) = start {
      v.push((s, text.len(), POS::NN));
    }
    v
  }
  impl Senna {
    pub fn new(path: String) -> Senna { Senna { _path: path } }
    pub fn parse<'t>(&mut self, text: &'t str, options: SennaParseOptions) -> Sentence<'t> {
      let toks = HOOK.with(|h| h.borrow().map(|f| f(text))).unwrap_or_else(|| tokenize(text));
      let mut s = Sentence::new(text);
      let n = toks.len();
      for (i, (a, b, p)) in toks.into_iter().enumerate() {
        let mut w = Word::new(a, b, &text[a..b], i as u32);
        w.set_pos(p);
        s.push_word(w);
      }
      if options.psg {
        s.set_psgroot(TREE.with(|t| t.borrow().map(|f| f(n))).unwrap_or_else(|| {
          PSGNode::Parent(PSGContent::new(Phrase::S, (0..n).map(PSGNode::Leaf).collect()))
        }));
      }
      s
    }
  }
}
