//! C17: the pattern language. Syntax trees, their XML form, and a reference matcher over the
//! harness's own sentences, phrase trees and formulas.
use crate::dom::{self, el, tx, T};
use libxml::readonly::RoNode;
use libxml::tree::Document;
use llamapun::dnm::{DNMParameters, DNMRange, SpecialTagsOption, DNM};
use llamapun::patterns::{match_sentence, MarkerEnum, Match, PatternFile};
use mccore::gen::{forests, seqs, xml_scalars};
use mccore::{ensure, Ctx, Prop, Verdict};
use senna::phrase::Phrase;
use senna::pos::POS;
use senna::sentence::{PSGContent, PSGNode, Sentence, Word};
use std::cell::RefCell;
use std::rc::Rc;

pub const PROP: Prop = Prop {
  id: "C17",
  run,
  chunk: 8,
  assumptions: &[
    "the view has back mapping; words and phrase trees are those of the sentence; a phrase has at least one word",
    "which patterns a file holds is what C16 decides",
  ],
  bounds: "sequence patterns: all of up to 4 elements over 4 literals and wildcards, references, negation, alternatives, part-of-speech restrictions, markers, 5 kinds of alternatives of sequences, phrases of 2 labels, both match types and no, each or both conditions of every containment, and phrases, sequences and alternatives of all pairs and triples of 12 larger marked patterns, on all sentences of up to 3 words of 4 kinds with 20 shapes of phrase trees (quick: larger patterns on a fixed part of the sentences), at the start, middle and end of a text with multi-byte characters; formula patterns of up to 3 (4) elements on all formulas of up to 3 nodes of 6 kinds; symbol patterns of up to 3 (4) and part-of-speech patterns of up to 4 elements; recursive rules; unknown rules, missing and leaf-only parses; every character an XML document can contain (quick: the first two planes and samples), other than white space, in literals, words and symbols; sequences, alternatives, sentences, phrases and formulas of up to 300 (1025) elements, nested up to 200 deep",
};

// ---- syntax ----

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum W {
  Ref(usize),
  Or(Vec<W>),
  Lit(&'static str),
  Pos(Po, Box<W>),
  Math(M),
  Any,
  Not(Box<W>),
  Mark(Box<W>, usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Po {
  Tag(&'static str),
  Not(Box<Po>),
  Or(Vec<Po>),
  Ref(usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum M {
  Any,
  Ref(usize),
  Mark(Box<M>, usize),
  Or(Vec<M>),
  Node(Option<&'static str>, Option<usize>, Option<(Vec<M>, &'static str)>),
  Desc(Box<M>, &'static str),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum X {
  Any,
  Or(Vec<X>),
  Lit(&'static str),
  Not(Box<X>),
  Ref(usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum S {
  Ref(usize),
  Word(W),
  Seq(Vec<S>),
  Phrase(&'static str, Option<&'static str>, Option<(Box<S>, Option<&'static str>)>, Option<Box<S>>),
  Mark(Box<S>, usize),
  Or(Vec<S>, Option<&'static str>),
}

/// a pattern file: rules by kind; a reference is an index
#[derive(Clone, Debug, Default)]
pub struct File {
  pub seqs: Vec<S>,
  pub words: Vec<W>,
  pub poss: Vec<Po>,
  pub maths: Vec<M>,
  pub texts: Vec<X>,
  /// names and tags of the markers by number; `m<number>` and `marker_tags` if there are none
  pub markers: Vec<(String, Vec<String>)>,
}

/// number the markers
pub fn number_s(s: &mut S, n: &mut usize) {
  match s {
    S::Ref(_) => {},
    S::Word(w) => number_w(w, n),
    S::Seq(v) | S::Or(v, _) => v.iter_mut().for_each(|s| number_s(s, n)),
    S::Phrase(_, _, a, b) => {
      if let Some((a, _)) = a {
        number_s(a, n)
      }
      if let Some(b) = b {
        number_s(b, n)
      }
    },
    S::Mark(s, k) => {
      *k = *n;
      *n += 1;
      number_s(s, n)
    },
  }
}
fn number_w(w: &mut W, n: &mut usize) {
  match w {
    W::Or(v) => v.iter_mut().for_each(|w| number_w(w, n)),
    W::Not(w) | W::Pos(_, w) => number_w(w, n),
    W::Math(m) => number_m(m, n),
    W::Mark(w, k) => {
      *k = *n;
      *n += 1;
      number_w(w, n)
    },
    W::Ref(_) | W::Lit(_) | W::Any => {},
  }
}
fn number_m(m: &mut M, n: &mut usize) {
  match m {
    M::Or(v) | M::Node(_, _, Some((v, _))) => v.iter_mut().for_each(|m| number_m(m, n)),
    M::Desc(m, _) => number_m(m, n),
    M::Mark(m, k) => {
      *k = *n;
      *n += 1;
      number_m(m, n)
    },
    M::Any | M::Ref(_) | M::Node(_, _, None) => {},
  }
}

// ---- XML form ----

pub fn marker_tags(k: usize) -> Vec<String> {
  match k % 3 {
    0 => vec![],
    1 => vec![format!("t{k}")],
    _ => vec![format!("t{k}"), "other".into()],
  }
}
fn marked(name: &str, k: usize, kid: T) -> T {
  let n = format!("m{k}");
  let tags = marker_tags(k);
  // written with and without blanks
  let tags_text = tags.join(if k % 2 == 0 { " , " } else { "," });
  let mut attrs = vec![("name", n.as_str())];
  if !tags.is_empty() {
    attrs.push(("tags", &tags_text));
  }
  el(name, &attrs, vec![kid])
}
fn r(name: &str, kind: &str, i: usize) -> T { el(name, &[("ref", &format!("{kind} {i}"))], vec![]) }

impl S {
  pub fn xml(&self) -> T {
    match self {
      S::Ref(i) => r("seq_ref", "rule", *i),
      S::Word(w) => el("seq_word", &[], vec![w.xml()]),
      S::Seq(v) => el("seq_seq", &[], v.iter().map(S::xml).collect()),
      S::Phrase(tag, mt, a, b) => {
        let mut kids = vec![];
        if let Some(m) = mt {
          kids.push(el("match_type", &[], vec![tx(&format!(" {m}\n"))]));
        }
        if let Some((a, c)) = a {
          let attrs: Vec<(&str, &str)> = c.iter().map(|c| ("containment", *c)).collect();
          kids.push(el("starts_with_seq", &attrs, vec![a.xml()]));
        }
        if let Some(b) = b {
          kids.push(el("ends_with_seq", &[], vec![b.xml()]));
        }
        el("phrase", &[("tag", tag)], kids)
      },
      S::Mark(s, k) => marked("seq_marker", *k, s.xml()),
      S::Or(v, mt) => {
        let attrs: Vec<(&str, &str)> = mt.iter().map(|c| ("match_type", *c)).collect();
        el("seq_or", &attrs, v.iter().map(S::xml).collect())
      },
    }
  }
}
impl W {
  pub fn xml(&self) -> T {
    match self {
      W::Ref(i) => r("word_ref", "rule", *i),
      W::Or(v) => el("word_or", &[], v.iter().map(W::xml).collect()),
      W::Lit(s) => el("word", &[], vec![tx(&format!("\n {s} "))]),
      W::Pos(p, w) => el("word_pos", &[], vec![el("pos", &[], vec![p.xml()]), w.xml()]),
      W::Math(m) => el("word_math", &[], vec![m.xml()]),
      W::Any => el("word_any", &[], vec![]),
      W::Not(w) => el("word_not", &[], vec![w.xml()]),
      W::Mark(w, k) => marked("word_marker", *k, w.xml()),
    }
  }
}
impl Po {
  pub fn xml(&self) -> T {
    match self {
      Po::Tag(t) => el("pos", &[("tag", t)], vec![]),
      Po::Not(p) => el("pos_not", &[], vec![p.xml()]),
      Po::Or(v) => el("pos_or", &[], v.iter().map(Po::xml).collect()),
      Po::Ref(i) => r("pos_ref", "rule", *i),
    }
  }
}
impl M {
  pub fn xml(&self) -> T {
    match self {
      M::Any => el("math_any", &[], vec![]),
      M::Ref(i) => r("math_ref", "rule", *i),
      M::Mark(m, k) => marked("math_marker", *k, m.xml()),
      M::Or(v) => el("math_or", &[], v.iter().map(M::xml).collect()),
      M::Node(name, text, kids) => {
        let attrs: Vec<(&str, &str)> = name.iter().map(|n| ("name", *n)).collect();
        let mut k = vec![];
        if let Some(t) = text {
          k.push(r("mtext_ref", "rule", *t));
        }
        if let Some((v, mt)) = kids {
          k.push(el("math_children", &[("match_type", mt)], v.iter().map(M::xml).collect()));
        }
        el("math_node", &attrs, k)
      },
      M::Desc(m, mt) => el("math_descendant", &[("match_type", mt)], vec![m.xml()]),
    }
  }
}
impl X {
  pub fn xml(&self) -> T {
    match self {
      X::Any => el("mtext_any", &[], vec![]),
      X::Or(v) => el("mtext_or", &[], v.iter().map(X::xml).collect()),
      X::Lit(s) => el("mtext_lit", &[("str", s)], vec![]),
      X::Not(x) => el("mtext_not", &[], vec![x.xml()]),
      X::Ref(i) => r("mtext_ref", "rule", *i),
    }
  }
}
impl File {
  pub fn marker(&self, k: usize) -> (String, Vec<String>) {
    self.markers.get(k).cloned().unwrap_or_else(|| (format!("m{k}"), marker_tags(k)))
  }
  /// does a rule refer, over any number of references, to itself?
  pub fn circular(&self) -> bool {
    // nodes: kind * 1000 + index
    let mut edges: Vec<(usize, usize)> = vec![];
    let mut from;
    fn x(p: &X, f: usize, e: &mut Vec<(usize, usize)>) {
      match p {
        X::Ref(i) => e.push((f, 4000 + i)),
        X::Or(v) => v.iter().for_each(|p| x(p, f, e)),
        X::Not(p) => x(p, f, e),
        X::Any | X::Lit(_) => {},
      }
    }
    fn m(p: &M, f: usize, e: &mut Vec<(usize, usize)>) {
      match p {
        M::Ref(i) => e.push((f, 3000 + i)),
        M::Or(v) => v.iter().for_each(|p| m(p, f, e)),
        M::Mark(p, _) | M::Desc(p, _) => m(p, f, e),
        M::Node(_, t, k) => {
          e.extend(t.iter().map(|i| (f, 4000 + i)));
          k.iter().for_each(|(v, _)| v.iter().for_each(|p| m(p, f, e)));
        },
        M::Any => {},
      }
    }
    fn po(p: &Po, f: usize, e: &mut Vec<(usize, usize)>) {
      match p {
        Po::Ref(i) => e.push((f, 2000 + i)),
        Po::Or(v) => v.iter().for_each(|p| po(p, f, e)),
        Po::Not(p) => po(p, f, e),
        Po::Tag(_) => {},
      }
    }
    fn w(p: &W, f: usize, e: &mut Vec<(usize, usize)>) {
      match p {
        W::Ref(i) => e.push((f, 1000 + i)),
        W::Or(v) => v.iter().for_each(|p| w(p, f, e)),
        W::Pos(q, p) => {
          po(q, f, e);
          w(p, f, e);
        },
        W::Math(p) => m(p, f, e),
        W::Not(p) | W::Mark(p, _) => w(p, f, e),
        W::Lit(_) | W::Any => {},
      }
    }
    fn s(p: &S, f: usize, e: &mut Vec<(usize, usize)>) {
      match p {
        S::Ref(i) => e.push((f, *i)),
        S::Word(p) => w(p, f, e),
        S::Seq(v) | S::Or(v, _) => v.iter().for_each(|p| s(p, f, e)),
        S::Mark(p, _) => s(p, f, e),
        S::Phrase(_, _, a, b) => {
          a.iter().for_each(|(p, _)| s(p, f, e));
          b.iter().for_each(|p| s(p, f, e));
        },
      }
    }
    for i in 0..self.seqs.len() {
      from = i;
      s(&self.seqs[i], from, &mut edges);
    }
    for i in 0..self.words.len() {
      from = 1000 + i;
      w(&self.words[i], from, &mut edges);
    }
    for i in 0..self.poss.len() {
      from = 2000 + i;
      po(&self.poss[i], from, &mut edges);
    }
    for i in 0..self.maths.len() {
      from = 3000 + i;
      m(&self.maths[i], from, &mut edges);
    }
    for i in 0..self.texts.len() {
      from = 4000 + i;
      x(&self.texts[i], from, &mut edges);
    }
    // take away what refers to nothing that is left
    while let Some(k) = (0..edges.len()).find(|k| !edges.iter().any(|e| e.0 == edges[*k].1)) {
      edges.swap_remove(k);
    }
    !edges.is_empty()
  }
  /// the rules in order, or in reverse
  /// (then with the children of the elements that name them in reverse, too)
  pub fn xml(&self, reverse: bool) -> T {
    fn turn(t: T) -> T {
      let T::El(n, a, k) = t else { return t };
      let mut k: Vec<T> = k.into_iter().map(turn).collect();
      if matches!(n.as_str(), "math_node" | "phrase" | "word_pos") {
        k.reverse();
      }
      T::El(n, a, k)
    }
    let rule = |kind: &str, i: usize, t: T| el(kind, &[("name", &format!("rule {i}"))], vec![if reverse { turn(t) } else { t }]);
    let mut v: Vec<T> = vec![];
    v.extend(self.seqs.iter().enumerate().map(|(i, s)| rule("seq_rule", i, s.xml())));
    v.extend(self.words.iter().enumerate().map(|(i, s)| rule("word_rule", i, s.xml())));
    v.extend(self.poss.iter().enumerate().map(|(i, s)| rule("pos_rule", i, s.xml())));
    v.extend(self.maths.iter().enumerate().map(|(i, s)| rule("math_rule", i, s.xml())));
    v.extend(self.texts.iter().enumerate().map(|(i, s)| rule("mtext_rule", i, s.xml())));
    if reverse {
      v.reverse();
    }
    el("pattern_file", &[], v)
  }
}

/// write a pattern file where only this worker writes, and load it
pub fn load(xml: &[u8]) -> Result<PatternFile, String> {
  let path = scratch("p.xml");
  std::fs::write(&path, xml).unwrap_or_else(|e| panic!("harness error: {path}: {e}"));
  PatternFile::load(&path)
}
pub fn scratch(name: &str) -> String {
  thread_local! { static DIR: RefCell<Option<Rc<Scratch>>> = const { RefCell::new(None) } }
  let d = DIR.with(|d| {
    d.borrow_mut()
      .get_or_insert_with(|| {
        let mut p = std::env::temp_dir();
        if std::path::Path::new("/dev/shm").is_dir() {
          p = "/dev/shm".into();
        }
        p.push(format!("mc-patterns-{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap_or_else(|e| panic!("harness error: {p:?}: {e}"));
        Rc::new(Scratch(p))
      })
      .clone()
  });
  d.0.join(name).to_str().unwrap().to_string()
}
struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
  fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

// ---- sentences ----

#[derive(Clone, Debug)]
pub enum G {
  Leaf(usize),
  Phrase(Phrase, Vec<G>),
}
impl G {
  fn first(&self) -> usize {
    match self {
      G::Leaf(i) => *i,
      G::Phrase(_, v) => v[0].first(),
    }
  }
  fn end(&self) -> usize {
    match self {
      G::Leaf(i) => i + 1,
      G::Phrase(_, v) => v[v.len() - 1].end(),
    }
  }
  pub fn real(&self) -> PSGNode {
    match self {
      G::Leaf(i) => PSGNode::Leaf(*i),
      G::Phrase(p, v) => PSGNode::Parent(PSGContent::new(*p, v.iter().map(G::real).collect())),
    }
  }
  /// ends of the phrases with this label that begin at `pos`
  fn ends(&self, pos: usize, label: Phrase, out: &mut Vec<usize>) {
    if let G::Phrase(p, v) = self {
      if *p == label && self.first() == pos {
        out.push(self.end());
      }
      v.iter().for_each(|c| c.ends(pos, label, out));
    }
  }
}

/// a sentence within a text
pub struct Fix {
  _doc: Document,
  dnm: &'static DNM,
  range: DNMRange<'static>,
  /// the text has the sentence in front, in the middle or at the end
  words: Vec<Wd>,
  /// its formulas: trees with their nodes
  text: &'static str,
}
pub struct Wd {
  pub bytes: (usize, usize),
  pub chars: (usize, usize),
  pub string: &'static str,
  pub pos: POS,
  /// a formula and its nodes in preorder
  pub math: Option<(T, Vec<RoNode>)>,
}

pub fn fixture(kinds: &[(&'static str, POS, Option<T>)], place: usize) -> Fix {
  let mut kids: Vec<T> = vec![];
  let push = |s: &str, kids: &mut Vec<T>| {
    if let Some(T::Text(t)) = kids.last_mut() {
      t.push_str(s)
    } else {
      kids.push(tx(s))
    }
  };
  if place > 0 {
    push("\u{e9}x \u{6f22} ", &mut kids);
  }
  for (i, (w, _, m)) in kinds.iter().enumerate() {
    if i > 0 {
      push(" ", &mut kids);
    }
    match m {
      Some(m) => kids.push(m.clone()),
      None => push(w, &mut kids),
    }
  }
  if place == 1 {
    push(" \u{e9}", &mut kids);
  }
  let tree = el("p", &[], kids);
  let d = dom::parse(&tree);
  let params = DNMParameters {
    special_tag_name_options: [("math".to_string(), SpecialTagsOption::Normalize("m\u{fc}h".into()))].into(),
    support_back_mapping: true,
    normalize_white_spaces: false,
    ..Default::default()
  };
  let dnm: &'static DNM = Box::leak(Box::new(DNM::new(d.nodes[0], params)));
  let mut c = if place > 0 { 5 } else { 0 };
  let start = c;
  let mut words = vec![];
  let mut b = 0;
  for (i, (w, pos, m)) in kinds.iter().enumerate() {
    if i > 0 {
      c += 1;
      b += 1;
    }
    let s: &'static str = if m.is_some() { "m\u{fc}h" } else { w };
    let math = m.as_ref().map(|m| {
      // the i-th word's math element: count those before
      let nth = kinds[..i].iter().filter(|k| k.2.is_some()).count();
      let all = tree.all();
      let at = (0..all.len()).filter(|k| all[*k].name() == "math").nth(nth).unwrap();
      (m.clone(), d.nodes[at..at + m.size()].to_vec())
    });
    let n = s.chars().count();
    words.push(Wd { bytes: (b, b + s.len()), chars: (c, c + n), string: s, pos: *pos, math });
    c += n;
    b += s.len();
  }
  let range = DNMRange { start, end: c, dnm };
  let text = range.get_plaintext();
  let want: Vec<&str> = words.iter().map(|w| w.string).collect();
  if text != want.join(" ") {
    panic!("harness error: fixture text {text:?}");
  }
  Fix { _doc: d.doc, dnm, range, words, text }
}

impl Fix {
  fn sentence(&self, g: Option<&G>) -> Sentence<'static> {
    let mut s = Sentence::new(self.text);
    for (i, w) in self.words.iter().enumerate() {
      let mut r = Word::new(w.bytes.0, w.bytes.1, w.string, i as u32);
      r.set_pos(w.pos);
      s.push_word(r);
    }
    if let Some(g) = g {
      s.set_psgroot(g.real());
    }
    s
  }
}

// ---- reference matcher ----

#[derive(Clone, Debug, PartialEq)]
pub enum Mk {
  /// words i..j
  Words(usize, usize),
  /// word and preorder number of the node within its formula
  Node(usize, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Rm {
  pub k: usize,
  pub what: Mk,
  pub subs: Vec<Rm>,
}
/// the matches of a sequence rule on the words of a sentence with this phrase tree
pub fn matches(f: &File, rule: usize, words: &[Wd], g: &G) -> Vec<Rm> { Rf { f, words, g }.all(&f.seqs[rule]) }

struct Rf<'a> {
  f: &'a File,
  words: &'a [Wd],
  g: &'a G,
}
fn pos_of(s: &str) -> POS { POS::generate_str_to_pos_map()[s] }
fn phrase_of(s: &str) -> Phrase { Phrase::generate_str_to_phrase_map()[s] }

impl Rf<'_> {
  fn all(&self, s: &S) -> Vec<Rm> {
    (0..self.words.len()).filter_map(|i| self.seq(s, i)).flat_map(|(_, m)| m).collect()
  }
  fn seq(&self, s: &S, at: usize) -> Option<(usize, Vec<Rm>)> {
    match s {
      S::Ref(i) => self.seq(&self.f.seqs[*i], at),
      S::Word(w) => {
        if at < self.words.len() {
          self.word(w, at).map(|m| (at + 1, m))
        } else {
          None
        }
      },
      S::Seq(v) => {
        let mut all = vec![];
        let mut p = at;
        for s in v {
          let (e, m) = self.seq(s, p)?;
          p = e;
          all.extend(m);
        }
        Some((p, all))
      },
      S::Mark(s, k) => {
        let (e, m) = self.seq(s, at)?;
        Some((e, vec![Rm { k: *k, what: Mk::Words(at, e), subs: m }]))
      },
      S::Or(v, mt) => {
        let hits: Vec<(usize, Vec<Rm>)> = v.iter().filter_map(|s| self.seq(s, at)).collect();
        let far = hits.iter().map(|h| h.0).max();
        match mt.unwrap_or("first") {
          "first" => hits.into_iter().next(),
          "longest" => hits.into_iter().find(|h| Some(h.0) == far),
          "atleastone" => far.map(|e| (e, hits.into_iter().flat_map(|h| h.1).collect())),
          "any" => Some((far.unwrap_or(at), hits.into_iter().flat_map(|h| h.1).collect())),
          _ => unreachable!(),
        }
      },
      S::Phrase(tag, mt, a, b) => {
        let mut ends = vec![];
        self.g.ends(at, phrase_of(tag), &mut ends);
        ends.sort();
        if *mt != Some("shortest") {
          ends.reverse();
        }
        ends.into_iter().find_map(|end| {
          let mut all = vec![];
          if let Some((s, c)) = a {
            let (e, m) = self.seq(s, at)?;
            if *c == Some("lessorequal") && e > end {
              return None;
            }
            all.extend(m);
          }
          if let Some(s) = b {
            let m = (at..end).find_map(|p| self.seq(s, p).filter(|(e, _)| *e == end))?.1;
            all.extend(m);
          }
          Some((end, all))
        })
      },
    }
  }
  fn word(&self, w: &W, at: usize) -> Option<Vec<Rm>> {
    let wd = &self.words[at];
    let yes = |b: bool| if b { Some(vec![]) } else { None };
    match w {
      W::Ref(i) => self.word(&self.f.words[*i], at),
      W::Or(v) => v.iter().find_map(|w| self.word(w, at)),
      W::Lit(s) => yes(*s == wd.string),
      W::Pos(p, w) => {
        if self.pos(p, wd.pos) {
          self.word(w, at)
        } else {
          None
        }
      },
      W::Any => yes(true),
      W::Not(w) => yes(self.word(w, at).is_none()),
      W::Mark(w, k) => Some(vec![Rm { k: *k, what: Mk::Words(at, at + 1), subs: self.word(w, at)? }]),
      W::Math(m) => {
        let (t, _) = wd.math.as_ref()?;
        let (first, n) = kids(t, 0).into_iter().next()?;
        let (top, n) = if first.name() == "semantics" { kids(first, n).into_iter().next()? } else { (first, n) };
        self.math(m, at, top, n)
      },
    }
  }
  fn pos(&self, p: &Po, at: POS) -> bool {
    match p {
      Po::Tag(t) => pos_of(t) == at,
      Po::Not(p) => !self.pos(p, at),
      Po::Or(v) => v.iter().any(|p| self.pos(p, at)),
      Po::Ref(i) => self.pos(&self.f.poss[*i], at),
    }
  }
  /// `n` is the node's preorder number in the formula
  fn math(&self, m: &M, word: usize, t: &T, n: usize) -> Option<Vec<Rm>> {
    match m {
      M::Any => Some(vec![]),
      M::Ref(i) => self.math(&self.f.maths[*i], word, t, n),
      M::Mark(m, k) => Some(vec![Rm { k: *k, what: Mk::Node(word, n), subs: self.math(m, word, t, n)? }]),
      M::Or(v) => v.iter().find_map(|m| self.math(m, word, t, n)),
      M::Node(name, text, ks) => {
        if name.is_some_and(|x| x != t.name()) {
          return None;
        }
        if let Some(i) = text {
          let s = match t.kids() {
            [] => "",
            [T::Text(s)] => s,
            _ => return None,
          };
          if !self.text(&self.f.texts[*i], s) {
            return None;
          }
        }
        let Some((ps, mt)) = ks else { return Some(vec![]) };
        let ns = kids(t, n);
        let starts: Vec<usize> = (0..=ns.len())
          .filter(|s| s + ps.len() <= ns.len())
          .filter(|s| match *mt {
            "starts_with" => *s == 0,
            "ends_with" => s + ps.len() == ns.len(),
            "exact" => *s == 0 && ps.len() == ns.len(),
            _ => true,
          })
          .collect();
        starts.into_iter().find_map(|s| {
          let hits: Option<Vec<Vec<Rm>>> =
            ps.iter().zip(&ns[s..]).map(|(p, (t, n))| self.math(p, word, t, *n)).collect();
          Some(hits?.concat())
        })
      },
      M::Desc(m, mt) => {
        // the node and all below it, in document order
        let mut hits = vec![];
        self.deep(m, word, t, n, &mut hits);
        match *mt {
          "first" => hits.into_iter().next(),
          "at_least_one" if hits.is_empty() => None,
          _ => Some(hits.concat()),
        }
      },
    }
  }
  fn deep(&self, m: &M, word: usize, t: &T, n: usize, out: &mut Vec<Vec<Rm>>) {
    out.extend(self.math(m, word, t, n));
    for (c, i) in kids(t, n) {
      self.deep(m, word, c, i, out);
    }
  }
  fn text(&self, x: &X, s: &str) -> bool {
    match x {
      X::Any => true,
      X::Or(v) => v.iter().any(|x| self.text(x, s)),
      X::Lit(l) => *l == s,
      X::Not(x) => !self.text(x, s),
      X::Ref(i) => self.text(&self.f.texts[*i], s),
    }
  }
}
/// element children with their preorder numbers
fn kids(t: &T, n: usize) -> Vec<(&T, usize)> {
  let mut i = n + 1;
  let mut v = vec![];
  for k in t.kids() {
    if matches!(k, T::El(..)) {
      v.push((k, i));
    }
    i += k.size();
  }
  v
}

// ---- comparison ----

fn agree(f: &File, x: &Fix, got: &[Match], want: &[Rm], list: &mut Vec<usize>) -> Verdict {
  ensure(got.len() == want.len(), || format!("{} matches, expected {}", got.len(), want.len()))?;
  for (g, w) in got.iter().zip(want) {
    let (marker, text) = match &g.marker {
      MarkerEnum::Text(t) => (&t.marker, Some(&t.range)),
      MarkerEnum::Math(m) => (&m.marker, None),
    };
    let (name, tags) = f.marker(w.k);
    ensure(marker.name == name, || format!("marker {}, expected {name}", marker.name))?;
    // an empty tag is left open
    let got: Vec<&String> = marker.tags.iter().filter(|t| !t.is_empty()).collect();
    ensure(got == tags.iter().collect::<Vec<_>>(), || format!("tags {:?}, expected {tags:?}", marker.tags))?;
    list.push(w.k);
    match (&w.what, text, &g.marker) {
      (Mk::Words(i, j), Some(r), _) => {
        ensure(std::ptr::eq(r.dnm, x.dnm), || "range of another text".to_string())?;
        let fine = if i < j {
          r.start == x.words[*i].chars.0 && r.end == x.words[j - 1].chars.1
        } else {
          // nothing marked: an empty range between the words
          let lo = if *i == 0 { x.range.start } else { x.words[i - 1].chars.1 };
          let hi = x.words.get(*i).map_or(x.range.end, |w| w.chars.0);
          r.start == r.end && (lo..=hi).contains(&r.start)
        };
        ensure(fine, || format!("marker m{} covers {}..{}, expected words {i}..{j}", w.k, r.start, r.end))?;
      },
      (Mk::Node(i, n), None, MarkerEnum::Math(m)) => {
        let want = x.words[*i].math.as_ref().unwrap().1[*n];
        ensure(m.node == want, || format!("marker m{} marks another node than {n}", w.k))?;
      },
      _ => return Err(format!("marker m{} is of the wrong kind", w.k).into()),
    }
    agree(f, x, &g.sub_matches, &w.subs, list)?;
  }
  Ok(())
}

fn compare(ctx: &mut Ctx, f: &File, pf: &PatternFile, rule: usize, x: &Fix, g: &G) -> Verdict {
  compare_named(ctx, f, pf, (rule, &format!("rule {rule}")), x, g)
}
pub fn compare_named(ctx: &mut Ctx, f: &File, pf: &PatternFile, rule: (usize, &str), x: &Fix, g: &G) -> Verdict {
  let s = x.sentence(Some(g));
  let want = matches(f, rule.0, &x.words, g);
  let here = || format!("{:?} on {:?} with {g:?}", rule.1, x.text);
  let got = match_sentence(pf, &s, &x.range, rule.1).map_err(|e| format!("{}: error {e}", here()))?;
  ctx.steps(1);
  let mut list = vec![];
  agree(f, x, &got, &want, &mut list).map_err(|e| format!("{}: {}", here(), e.msg))?;
  let flat: Vec<String> = got
    .iter()
    .flat_map(|m| m.get_marker_list())
    .map(|m| match m {
      MarkerEnum::Text(t) => t.marker.name,
      MarkerEnum::Math(m) => m.marker.name,
    })
    .collect();
  let names: Vec<String> = list.iter().map(|k| f.marker(*k).0).collect();
  ensure(flat == names, || format!("{}: marker list {flat:?}, expected {names:?}", here()))
}

// ---- enumeration ----

/// sequences of at least `lo` items with `n` elements in total, at most 3 of them
fn lists<A: Clone>(n: usize, lo: usize, of: &[Vec<A>]) -> Vec<Vec<A>> {
  fn go<A: Clone>(n: usize, room: usize, of: &[Vec<A>], cur: &mut Vec<A>, lo: usize, out: &mut Vec<Vec<A>>) {
    if n == 0 {
      if cur.len() >= lo {
        out.push(cur.clone());
      }
      return;
    }
    if room == 0 {
      return;
    }
    for k in 1..=n {
      for a in &of[k] {
        cur.push(a.clone());
        go(n - k, room - 1, of, cur, lo, out);
        cur.pop();
      }
    }
  }
  let mut out = vec![];
  go(n, 3, of, &mut vec![], lo, &mut out);
  out
}

fn gen_pos(max: usize) -> Vec<Vec<Po>> {
  let mut all: Vec<Vec<Po>> = vec![vec![]];
  for n in 1..=max {
    let mut v = vec![];
    if n == 1 {
      v.extend([Po::Tag("DT"), Po::Tag("NN"), Po::Ref(0)]);
    } else {
      v.extend(all[n - 1].iter().map(|p| Po::Not(Box::new(p.clone()))));
    }
    v.extend(lists(n - 1, 0, &all).into_iter().map(Po::Or));
    all.push(v);
  }
  all
}
fn gen_text(max: usize) -> Vec<Vec<X>> {
  let mut all: Vec<Vec<X>> = vec![vec![]];
  for n in 1..=max {
    let mut v = vec![];
    if n == 1 {
      v.extend([X::Any, X::Lit("x"), X::Lit(""), X::Lit("\u{2208}"), X::Ref(1)]);
    } else {
      v.extend(all[n - 1].iter().map(|p| X::Not(Box::new(p.clone()))));
    }
    v.extend(lists(n - 1, 0, &all).into_iter().map(X::Or));
    all.push(v);
  }
  all
}
pub fn gen_math(max: usize) -> Vec<Vec<M>> {
  let mut all: Vec<Vec<M>> = vec![vec![]];
  for n in 1..=max {
    let mut v = vec![];
    if n == 1 {
      v.extend([M::Any, M::Ref(0), M::Ref(1)]);
      for name in [None, Some("mi"), Some("mrow")] {
        for t in [None, Some(0)] {
          v.push(M::Node(name, t, None));
        }
      }
    } else {
      for p in &all[n - 1] {
        v.push(M::Mark(Box::new(p.clone()), 0));
        for t in ["first", "at_least_one", "arbitrary"] {
          v.push(M::Desc(Box::new(p.clone()), t));
        }
      }
      for l in lists(n - 1, 1, &all) {
        for t in ["starts_with", "exact", "ends_with", "arbitrary"] {
          v.push(M::Node(Some("mrow"), None, Some((l.clone(), t))));
          if n == 2 {
            v.push(M::Node(None, Some(0), Some((l.clone(), t))));
          }
        }
      }
    }
    v.extend(lists(n - 1, 0, &all).into_iter().map(M::Or));
    all.push(v);
  }
  all
}
fn gen_word(max: usize) -> Vec<Vec<W>> {
  let mut all: Vec<Vec<W>> = vec![vec![]];
  let poss = gen_pos(2);
  for n in 1..=max {
    let mut v = vec![];
    if n == 1 {
      v.extend([W::Lit("a"), W::Lit("\u{e9}"), W::Any, W::Ref(0)]);
    } else {
      for p in &all[n - 1] {
        v.push(W::Not(Box::new(p.clone())));
        v.push(W::Mark(Box::new(p.clone()), 0));
        for q in &poss[1] {
          v.push(W::Pos(q.clone(), Box::new(p.clone())));
        }
      }
      if n == 2 {
        v.push(W::Math(M::Any));
        v.push(W::Math(M::Ref(0)));
      }
      if n == 3 {
        v.push(W::Math(M::Mark(Box::new(M::Any), 0)));
      }
    }
    v.extend(lists(n - 1, 0, &all).into_iter().map(W::Or));
    all.push(v);
  }
  all
}
pub fn gen_seq(max: usize) -> Vec<Vec<S>> {
  let words = gen_word(max);
  let mut all: Vec<Vec<S>> = vec![vec![]];
  for n in 1..=max {
    let mut v: Vec<S> = words[n].iter().cloned().map(S::Word).collect();
    if n == 1 {
      v.extend([S::Ref(1), S::Ref(2)]);
      for tag in ["NP", "VP"] {
        for mt in [None, Some("longest"), Some("shortest")] {
          v.push(S::Phrase(tag, mt, None, None));
        }
      }
    } else {
      v.extend(all[n - 1].iter().map(|p| S::Mark(Box::new(p.clone()), 0)));
      for mt in [Some("longest"), Some("shortest")] {
        for a in &all[n - 1] {
          for c in [None, Some("any"), Some("lessorequal")] {
            if n == 2 || c != Some("any") {
              v.push(S::Phrase("NP", mt, Some((Box::new(a.clone()), c)), None));
            }
          }
          v.push(S::Phrase("NP", mt, None, Some(Box::new(a.clone()))));
        }
        for k in 1..n - 1 {
          for a in &all[k] {
            for b in &all[n - 1 - k] {
              v.push(S::Phrase("NP", mt, Some((Box::new(a.clone()), Some("lessorequal"))), Some(Box::new(b.clone()))));
            }
          }
        }
      }
    }
    for l in lists(n - 1, 0, &all) {
      for mt in [None, Some("first"), Some("atleastone"), Some("any"), Some("longest")] {
        if n <= 2 || mt.is_some() {
          v.push(S::Or(l.clone(), mt));
        }
      }
      v.push(S::Seq(l));
    }
    all.push(v);
  }
  all
}

/// larger patterns made of marked parts
pub fn rich(thorough: bool) -> Vec<S> {
  let mark = |s: S| S::Mark(Box::new(s), 0);
  let word = |w: W| S::Word(W::Mark(Box::new(w), 0));
  let a = || word(W::Lit("a"));
  let e = || word(W::Lit("\u{e9}"));
  let any = || word(W::Any);
  let atoms = vec![
    a(),
    any(),
    word(W::Not(Box::new(W::Mark(Box::new(W::Lit("a")), 0)))),
    word(W::Pos(Po::Tag("NN"), Box::new(W::Any))),
    word(W::Math(M::Mark(Box::new(M::Any), 0))),
    mark(S::Seq(vec![any(), e()])),
    mark(S::Seq(vec![a(), any(), any()])),
    mark(S::Phrase("NP", None, None, None)),
    mark(S::Phrase("NP", Some("shortest"), Some((Box::new(a()), None)), None)),
    mark(S::Or(vec![e(), S::Seq(vec![e(), any()])], Some("longest"))),
    mark(S::Or(vec![S::Seq(vec![any(), a()]), e()], Some("any"))),
    mark(S::Seq(vec![])),
  ];
  let mut v = vec![];
  let both: Vec<Vec<S>> = atoms.iter().flat_map(|a| atoms.iter().map(move |b| vec![a.clone(), b.clone()])).collect();
  for l in &both {
    for mt in [None, Some("longest"), Some("shortest")] {
      for c in [None, Some("any"), Some("lessorequal")] {
        for tag in if thorough { vec!["NP", "VP", "S"] } else { vec!["NP"] } {
          v.push(S::Phrase(tag, mt, Some((Box::new(l[0].clone()), c)), Some(Box::new(l[1].clone()))));
        }
      }
    }
  }
  let three = both.iter().flat_map(|l| {
    atoms.iter().map(move |c| {
      let mut l = l.clone();
      l.push(c.clone());
      l
    })
  });
  for l in both.iter().cloned().chain(three) {
    for mt in ["first", "atleastone", "any", "longest"] {
      v.push(S::Or(l.clone(), Some(mt)));
      if thorough {
        v.push(S::Seq(vec![S::Or(l.clone(), Some(mt)), any()]));
      }
    }
    v.push(S::Seq(l));
  }
  v
}

/// rules every file has beside rule 0 of the enumerated kind
pub fn base() -> File {
  File {
    seqs: vec![
      S::Word(W::Any),
      // the first of a run of words, each marked
      S::Or(vec![S::Seq(vec![S::Mark(Box::new(S::Word(W::Lit("a"))), 90), S::Ref(1)]), S::Word(W::Lit("\u{e9}"))], None),
      S::Phrase("VP", None, None, None),
    ],
    words: vec![W::Math(M::Ref(1)), W::Lit("a")],
    poss: vec![Po::Or(vec![Po::Tag("VB"), Po::Not(Box::new(Po::Tag("NN")))])],
    maths: vec![
      // a chain of first children down to a symbol
      M::Or(vec![M::Node(None, Some(1), None), M::Node(None, None, Some((vec![M::Ref(0)], "starts_with")))]),
      M::Node(Some("mi"), None, None),
    ],
    texts: vec![X::Lit("x"), X::Not(Box::new(X::Lit("\u{2208}"))), X::Or(vec![X::Ref(0), X::Lit("")])],
    markers: vec![],
  }
}

pub fn math_of(kids: Vec<T>) -> T { el("math", &[], kids) }
pub fn plain_math() -> T { math_of(vec![el("mi", &[], vec![tx("x")])]) }

/// every phrase tree shape used, over n words
pub fn trees(n: usize) -> Vec<G> {
  use G::*;
  let np = |v: Vec<G>| Phrase(senna::phrase::Phrase::NP, v);
  let vp = |v: Vec<G>| Phrase(senna::phrase::Phrase::VP, v);
  let s = |v: Vec<G>| Phrase(senna::phrase::Phrase::S, v);
  let l = Leaf;
  match n {
    0 => vec![],
    1 => vec![s(vec![l(0)]), np(vec![l(0)]), s(vec![np(vec![vp(vec![np(vec![l(0)])])])])],
    2 => vec![
      s(vec![l(0), l(1)]),
      np(vec![l(0), l(1)]),
      s(vec![np(vec![l(0)]), vp(vec![l(1)])]),
      np(vec![np(vec![l(0)]), l(1)]),
      s(vec![l(0), np(vec![l(1)])]),
      s(vec![vp(vec![np(vec![l(0)]), np(vec![l(1)])])]),
      np(vec![vp(vec![l(0), l(1)])]),
    ],
    _ => vec![
      s(vec![l(0), l(1), l(2)]),
      s(vec![np(vec![l(0), l(1)]), vp(vec![l(2)])]),
      s(vec![l(0), np(vec![l(1), l(2)])]),
      s(vec![np(vec![l(0)]), vp(vec![np(vec![l(1)]), np(vec![l(2)])])]),
      np(vec![np(vec![np(vec![l(0)]), l(1)]), l(2)]),
      np(vec![l(0), np(vec![l(1), np(vec![l(2)])])]),
      s(vec![np(vec![l(0)]), l(1), np(vec![l(2)])]),
      s(vec![l(0), vp(vec![l(1), np(vec![l(2)])])]),
      np(vec![np(vec![l(0), l(1), l(2)])]),
      s(vec![vp(vec![np(vec![l(0), l(1)]), l(2)])]),
    ],
  }
}

fn sentences() -> Vec<(Fix, Vec<G>)> {
  let kinds: Vec<(&'static str, POS, Option<T>)> = vec![
    ("a", POS::DT, None),
    ("\u{e9}", POS::NN, None),
    ("", POS::NN, Some(plain_math())),
    ("a", POS::VB, None),
  ];
  seqs(4, 0, 3)
    .enumerate()
    .map(|(i, ks)| {
      let v: Vec<_> = ks.iter().map(|k| kinds[*k].clone()).collect();
      (fixture(&v, i % 3), trees(ks.len()))
    })
    .collect()
}

/// formulas of up to n nodes below the math element
fn formulas(n: usize) -> Vec<T> {
  fn node(k: usize, kids: Vec<T>) -> Option<T> {
    let leaf = |t: T| if kids.is_empty() { Some(t) } else { None };
    match k {
      0 => leaf(el("mi", &[], vec![tx("x")])),
      1 => leaf(el("mo", &[], vec![tx("\u{2208}")])),
      2 => Some(el("mrow", &[], {
        // blanks and comments between children do not count
        let mut v = vec![];
        for (i, k) in kids.into_iter().enumerate() {
          if i > 0 {
            v.push(T::Comment("c".into()));
          }
          v.push(tx("\n "));
          v.push(k);
        }
        v
      })),
      3 => Some(el("semantics", &[], kids)),
      4 => Some(el("mi", &[], kids)),
      _ => Some(el("mrow", &[], kids)),
    }
  }
  let mut out = vec![math_of(vec![]), math_of(vec![tx("x")])];
  for n in 1..=n {
    for parents in forests(n) {
      for ks in seqs(6, n, n) {
        fn build(me: usize, parents: &[usize], ks: &[usize]) -> Option<T> {
          let kids: Option<Vec<T>> =
            (me + 1..parents.len()).filter(|&j| parents[j] == me).map(|j| build(j, parents, ks)).collect();
          node(ks[me], kids?)
        }
        let kids: Option<Vec<T>> =
          (0..n).filter(|&i| parents[i] == usize::MAX).map(|i| build(i, &parents, &ks)).collect();
        if let Some(kids) = kids {
          out.push(math_of(kids));
        }
      }
    }
  }
  out
}

fn text_of(f: &File, rev: bool) -> String { f.xml(rev).xml() }
fn loaded(f: &File, rev: bool) -> Result<PatternFile, String> {
  load(text_of(f, rev).as_bytes()).map_err(|e| format!("a well-formed pattern file is refused: {e}"))
}

fn errors(ctx: &mut Ctx) -> Verdict {
  let f = base();
  let pf = loaded(&f, false)?;
  for (x, gs) in sentences() {
    for rule in ["rule 3", "rule", "", "Rule 0", "rule 0 "] {
      for g in &gs {
        let r = match_sentence(&pf, &x.sentence(Some(g)), &x.range, rule);
        ensure(r.is_err(), || format!("unknown rule {rule:?} is no error"))?;
        ctx.steps(1);
      }
    }
    ensure(match_sentence(&pf, &x.sentence(None), &x.range, "rule 0").is_err(), || "no error without parse".into())?;
    if !x.words.is_empty() {
      let r = match_sentence(&pf, &x.sentence(Some(&G::Leaf(0))), &x.range, "rule 0");
      ensure(r.is_err(), || "no error with a parse that is only a word".into())?;
    }
  }
  Ok(())
}

extern "C" {
  fn fork() -> i32;
  fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
  fn _exit(code: i32) -> !;
  fn close(fd: i32) -> i32;
  fn alarm(seconds: u32) -> u32;
}
/// does this end normally in a process of its own?
fn survives(f: impl FnOnce()) -> bool {
  unsafe {
    let pid = fork();
    if pid < 0 {
      panic!("harness error: fork failed");
    }
    if pid == 0 {
      alarm(3);
      close(1);
      close(2);
      f();
      _exit(0);
    }
    let mut status = 0;
    if waitpid(pid, &mut status, 0) != pid {
      panic!("harness error: waitpid failed");
    }
    status == 0
  }
}

/// rules that reach themselves without taking a word or going down in the formula
fn circular() -> Vec<(&'static str, File)> {
  let word = |f: &mut File, w: W| f.seqs[0] = S::Word(w);
  let mut v = vec![];
  let mut f = base();
  f.seqs[0] = S::Ref(0);
  v.push(("seq_rule", f));
  let mut f = base();
  f.seqs[0] = S::Seq(vec![S::Or(vec![], Some("any")), S::Ref(0)]);
  v.push(("seq_rule after an empty sequence", f));
  let mut f = base();
  f.words[0] = W::Ref(0);
  word(&mut f, W::Ref(0));
  v.push(("word_rule", f));
  let mut f = base();
  f.poss[0] = Po::Not(Box::new(Po::Ref(0)));
  word(&mut f, W::Pos(Po::Ref(0), Box::new(W::Any)));
  v.push(("pos_rule", f));
  let mut f = base();
  f.maths[0] = M::Desc(Box::new(M::Ref(0)), "first");
  word(&mut f, W::Math(M::Ref(0)));
  v.push(("math_rule", f));
  let mut f = base();
  f.texts[0] = X::Ref(0);
  word(&mut f, W::Math(M::Node(None, Some(0), None)));
  v.push(("mtext_rule", f));
  v
}

fn run(ctx: &mut Ctx) {
  for (what, f) in circular() {
    let what = format!("circular {what}");
    ctx.case(
      || what.clone(),
      |_| {
        let kinds = [("a", POS::DT, None), ("", POS::NN, Some(plain_math()))];
        let x = fixture(&kinds, 1);
        let g = &trees(2)[0];
        // refusing such a file is fine
        let Ok(pf) = load(text_of(&f, false).as_bytes()) else { return Ok(()) };
        let fine = survives(|| {
          let _ = match_sentence(&pf, &x.sentence(Some(g)), &x.range, "rule 0");
        });
        ensure(fine, || "matching does not end, or ends the process".to_string())
      },
    );
  }
  ctx.case(|| "unknown rules and missing parses".to_string(), errors);
  let fixes = sentences();
  // sequence patterns
  let quick = ctx.quick();
  let mut groups = gen_seq(4);
  groups.push(rich(!quick));
  for (n, pats) in groups.into_iter().enumerate() {
    for (i, p) in pats.into_iter().enumerate() {
      if ctx.mine() {
        let mut f = base();
        f.seqs[0] = p;
        number_s(&mut f.seqs[0], &mut 0);
        let rev = i % 2 == 1;
        ctx.run(
          || f.seqs[0].xml().xml(),
          |ctx| {
            let pf = loaded(&f, rev)?;
            for (k, (x, gs)) in fixes.iter().enumerate() {
              let part = match (n, x.words.len()) {
                (3, 3) if quick => 4,
                (4, 2) if quick => 8,
                (4, 3) if quick => 32,
                (5, 3) if quick => 2,
                (4, 3) => 2,
                _ => 1,
              };
              if (k + i) % part != 0 {
                continue;
              }
              for g in gs {
                compare(ctx, &f, &pf, 0, x, g)?;
              }
            }
            ctx.state(&f.seqs[0]);
            Ok(())
          },
        );
      }
      if ctx.done() {
        return;
      }
    }
  }
  // part-of-speech patterns
  for p in gen_pos(4).into_iter().flatten() {
    if ctx.mine() {
      let mut f = base();
      f.seqs[0] = S::Word(W::Mark(Box::new(W::Pos(p.clone(), Box::new(W::Any))), 0));
      ctx.run(
        || p.xml().xml(),
        |ctx| {
          let pf = loaded(&f, false)?;
          for (x, gs) in fixes.iter().filter(|f| f.0.words.len() == 2) {
            compare(ctx, &f, &pf, 0, x, &gs[0])?;
          }
          ctx.state(&p);
          Ok(())
        },
      );
    }
    if ctx.done() {
      return;
    }
  }
  // formulas
  let forms: Vec<Fix> = formulas(3)
    .into_iter()
    .enumerate()
    .map(|(i, m)| fixture(&[("a", POS::DT, None), ("", POS::NN, Some(m))], i % 3))
    .collect();
  let g = G::Phrase(Phrase::S, vec![G::Leaf(0), G::Leaf(1)]);
  let mut turn = false;
  let mut go = |ctx: &mut Ctx, f: File, what: &dyn Fn() -> String| -> bool {
    turn = !turn;
    if ctx.mine() {
      ctx.run(what, |ctx| {
        let pf = loaded(&f, turn)?;
        for x in &forms {
          compare(ctx, &f, &pf, 0, x, &g)?;
        }
        ctx.state(&(&f.seqs[0], &f.texts[0]));
        Ok(())
      });
    }
    !ctx.done()
  };
  for x in gen_text(ctx.pick(3, 4)).into_iter().flatten() {
    let mut f = base();
    f.texts[0] = x.clone();
    f.texts[2] = X::Lit("");
    f.seqs[0] = S::Word(W::Math(M::Desc(Box::new(M::Mark(Box::new(M::Node(None, Some(0), None)), 0)), "arbitrary")));
    if !go(ctx, f, &|| x.xml().xml()) {
      return;
    }
  }
  for m in gen_math(ctx.pick(3, 4)).into_iter().flatten() {
    let mut f = base();
    let mut m = M::Mark(Box::new(m), 0);
    number_m(&mut m, &mut 0);
    f.seqs[0] = S::Word(W::Math(m.clone()));
    if !go(ctx, f, &|| m.xml().xml()) {
      return;
    }
  }
  // every character in literals, words and formulas
  for cs in xml_scalars(!quick, 96) {
    if ctx.mine() {
      let cs: Vec<char> = cs.into_iter().filter(|c| !c.is_whitespace()).collect();
      ctx.run(|| format!("literals with {:?} to {:?}", cs.first(), cs.last()), |ctx| characters(ctx, &cs));
    }
    if ctx.done() {
      return;
    }
  }
  // words with blanks in them
  ctx.case(|| "words with blanks in them".into(), |ctx| characters(ctx, &[' ', '\t', '\u{a0}', '\u{2003}', '\u{3000}', '\u{85}']));
  // long sentences, many alternatives, deep nesting
  for n in [31, 63, 64, 65, 127, 129, 255, 257, ctx.pick(300, 1025)] {
    for what in 0..8 {
      ctx.case(|| format!("large pattern {what} of size {n}"), |ctx| large(ctx, n, what));
    }
  }
}

fn keep(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
fn flat(n: usize) -> G { G::Phrase(Phrase::S, (0..n).map(G::Leaf).collect()) }

fn characters(ctx: &mut Ctx, cs: &[char]) -> Verdict {
  let ws: Vec<&'static str> = cs.iter().map(|c| keep(format!("a{c}b"))).collect();
  let ss: Vec<&'static str> = cs.iter().map(|c| keep(c.to_string())).collect();
  let kinds: Vec<_> = ws.iter().map(|w| (*w, POS::NN, None)).collect();
  let x = fixture(&kinds, cs.len() % 3);
  let g = flat(ws.len());
  // parted by each bit of the index: every two characters are told apart
  let bits = (usize::BITS - cs.len().leading_zeros()) as usize;
  let half = |b: usize, k: usize| ws.iter().enumerate().filter(|(i, _)| i >> b & 1 == k).map(|(_, w)| W::Lit(w)).collect::<Vec<_>>();
  // what they map to
  let mapped: Vec<&'static str> =
    cs.iter().flat_map(|c| [c.to_lowercase().to_string(), c.to_uppercase().to_string()]).filter(|m| !cs.iter().any(|c| c.to_string() == *m)).map(keep).collect();
  let mark = |w: W| S::Word(W::Mark(Box::new(w), 0));
  let mut pats = vec![mark(W::Or(half(0, 1))), mark(W::Not(Box::new(W::Or(half(0, 0)))))];
  pats.extend((0..bits).map(|b| mark(W::Or(half(b, 0)))));
  pats.push(mark(W::Or(mapped.iter().map(|m| W::Lit(keep(format!("a{m}b")))).collect())));
  pats.push(mark(W::Or(ws.iter().flat_map(|w| [format!("{w}b"), format!("a{w}"), w[1..].to_string(), w[..w.len() - 1].to_string()]).map(|w| W::Lit(keep(w))).collect())));
  pats.push(S::Mark(Box::new(S::Seq(ws.iter().map(|w| S::Word(W::Lit(w))).collect())), 0));
  for p in pats {
    let mut f = base();
    f.seqs[0] = p;
    compare(ctx, &f, &loaded(&f, false)?, 0, &x, &g)?;
  }
  // the symbols of a formula, also with blanks around them
  let symbols = |f: &dyn Fn(&str) -> String| fixture(&[("a", POS::DT, None), ("", POS::NN, Some(math_of(ss.iter().map(|s| el("mi", &[], vec![tx(&f(s))])).collect())))], 1);
  let x = symbols(&|s| s.to_string());
  let spaced = [symbols(&|s| format!(" {s}")), symbols(&|s| format!("{s} ")), symbols(&|s| format!("\u{a0}{s}")), symbols(&|s| format!("{s}{s}"))];
  let lits = |b: usize, k: usize| ss.iter().enumerate().filter(|(i, _)| i >> b & 1 == k).map(|(_, w)| X::Lit(w)).collect::<Vec<_>>();
  let mut texts = vec![X::Or(lits(0, 1)), X::Not(Box::new(X::Or(lits(0, 1)))), X::Not(Box::new(X::Or(lits(0, 0))))];
  texts.extend((0..bits).map(|b| X::Or(lits(b, 0))));
  texts.push(X::Or(mapped.iter().map(|m| X::Lit(m)).collect()));
  texts.push(X::Or(ss.iter().flat_map(|s| [format!(" {s}"), format!("{s} "), format!("\u{a0}{s}")]).map(|s| X::Lit(keep(s))).collect()));
  let last = texts.len() - 1;
  for (k, t) in texts.into_iter().enumerate() {
    let mut f = base();
    f.texts[0] = t;
    f.texts[2] = X::Lit("");
    f.seqs[0] = S::Word(W::Math(M::Desc(Box::new(M::Mark(Box::new(M::Node(Some("mi"), Some(0), None)), 0)), "arbitrary")));
    let pf = loaded(&f, false)?;
    compare(ctx, &f, &pf, 0, &x, &flat(2))?;
    if k == 0 || k == 2 || k == last {
      for x in &spaced {
        compare(ctx, &f, &pf, 0, x, &flat(2))?;
      }
    }
  }
  ctx.state(&cs);
  Ok(())
}

fn large(ctx: &mut Ctx, n: usize, what: usize) -> Verdict {
  let word = |i: usize| keep(format!("w{i}"));
  let kinds: Vec<_> = (0..n).map(|i| (word(i), if i % 3 == 0 { POS::NN } else { POS::DT }, None)).collect();
  let lit = |i: usize| S::Word(W::Lit(word(i)));
  let marked = |i: usize| S::Mark(Box::new(lit(i)), 0);
  let nested = |n: usize| {
    let mut t = G::Phrase(Phrase::NP, vec![G::Leaf(n - 1)]);
    for i in (0..n - 1).rev() {
      t = G::Phrase(if i % 2 == 0 { Phrase::S } else { Phrase::NP }, vec![G::Leaf(i), t]);
    }
    t
  };
  let mut f = base();
  let depth = n.min(200);
  let (x, g) = match what {
    // a long sequence, all marked, and almost
    0 => {
      f.seqs[0] = S::Mark(Box::new(S::Seq((0..n).map(marked).collect())), 0);
      (fixture(&kinds, 1), flat(n))
    },
    1 => {
      f.seqs[0] = S::Seq((0..n).map(|i| if i + 1 < n { marked(i) } else { lit(0) }).collect());
      (fixture(&kinds, 0), flat(n))
    },
    // many alternatives, of which the last fit
    2 => {
      f.seqs[0] = S::Word(W::Mark(Box::new(W::Or((0..n).rev().map(|i| W::Lit(word(2 * i))).collect())), 0));
      (fixture(&kinds, 2), flat(n))
    },
    3 => {
      f.seqs[0] = S::Or((0..n).rev().map(|i| S::Seq(vec![marked(i), lit(i + 1)])).collect(), None);
      (fixture(&kinds, 2), flat(n))
    },
    // a word, negated and marked many times
    4 => {
      let mut w = W::Lit(word(1));
      for i in 0..depth {
        w = if i % 2 == 0 { W::Not(Box::new(w)) } else { W::Mark(Box::new(w), 0) };
      }
      f.seqs[0] = S::Word(w);
      (fixture(&kinds[..8], 1), flat(8))
    },
    // deep phrases
    5 => {
      f.seqs[0] = S::Mark(Box::new(S::Phrase("NP", None, None, None)), 0);
      (fixture(&kinds[..depth], 1), nested(depth))
    },
    // a rule that takes word by word
    6 => {
      let v: Vec<_> = (0..n).map(|i| (if i + 1 < n { "a" } else { "\u{e9}" }, POS::NN, None)).collect();
      f.seqs[0] = S::Seq(vec![S::Word(W::Any), S::Ref(1)]);
      let n = n.min(130);
      (fixture(&v[v.len() - n..], 1), flat(n))
    },
    // deep and wide formulas
    _ => {
      let mut m = el("mi", &[], vec![tx("x")]);
      for _ in 0..depth {
        m = el("mrow", &[], vec![m]);
      }
      let mut kids = vec![m];
      kids.extend((0..n).map(|i| el("mi", &[], vec![tx(if i % 2 == 0 { "x" } else { "y" })])));
      f.texts[0] = X::Lit("x");
      f.seqs[0] = S::Word(W::Math(M::Desc(Box::new(M::Mark(Box::new(M::Node(Some("mi"), Some(0), None)), 0)), "arbitrary")));
      (fixture(&[("a", POS::DT, None), ("", POS::NN, Some(math_of(kids)))], 1), flat(2))
    },
  };
  number_s(&mut f.seqs[0], &mut 0);
  compare(ctx, &f, &loaded(&f, what % 2 == 0)?, 0, &x, &g)?;
  ctx.state(&(n, what));
  Ok(())
}
