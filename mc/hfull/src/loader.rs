//! C16: the pattern file loader against a grammar of pattern files.
use crate::dom::{el, tx, T};
use crate::patterns::{compare_named, fixture, load, math_of, scratch, trees, File, Fix, Po, G, M, S, W, X};
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::NodeType;
use llamapun::patterns::PatternFile;
use mccore::gen::{seqs, xml_scalars};
use mccore::{ensure, Ctx, Prop, Verdict};
use senna::pos::POS;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

pub const PROP: Prop = Prop {
  id: "C16",
  run,
  chunk: 32,
  assumptions: &[
    "a file that is not well-formed XML is the tree that libxml2 recovers from it (the format's own example is such a file)",
    "the root element's name and attributes the format does not know are not looked at; no comments within words and descriptions, no processing instructions, no namespaces",
    "what a file means is compared for files without circular references, as matches of each of its rules on 10 parsed sentences; what patterns mean is what C17 decides",
  ],
  bounds: "all elements of the format with 0 to 2 children of all 44 elements, texts and comments, and all their known attributes and values set, unset, empty or unknown, within a file that is otherwise well-formed; all single changes of three, and all pairs of a full and a smaller change of one (thorough: of three) complete files: every node removed, doubled, exchanged with its neighbour, moved to the end of the file, or renamed to every element, every attribute removed, emptied or given another value, every element, text or comment inserted at every place; all sets of up to 3 rules with names and references over 2 names and 5 kinds in every order; every truncation and every deletion of a byte of three files; every character an XML document can contain (quick: the first two planes and samples) in names, references, descriptions, words, values and between elements; up to 1500 (4097) rules, names of up to 4500 (12291) bytes; the format's example; unreadable, empty and malformed files",
};

const ELEMENTS: &[&str] = &[
  "pattern_file", "meta", "description", "pos_rule", "math_rule", "mtext_rule", "word_rule", "seq_rule", "math_any",
  "math_marker", "math_ref", "math_or", "math_node", "math_children", "math_descendant", "mtext_ref", "mtext_any",
  "mtext_or", "mtext_lit", "mtext_not", "seq_ref", "seq_word", "seq_seq", "phrase", "match_type", "starts_with_seq",
  "ends_with_seq", "seq_marker", "seq_or", "word_ref", "word_or", "word", "word_math", "word_any", "word_not",
  "word_marker", "word_pos", "pos", "pos_not", "pos_ref", "pos_or", "foo", "Word", "word_rules",
];

// ---- reference ----

/// what a file holds: rule kind and name to its description, references, the file's own description
#[derive(Default, Debug, PartialEq)]
struct Held {
  about: String,
  rules: BTreeMap<(&'static str, String), String>,
  refs: Vec<(&'static str, String)>,
}
type R<A = ()> = Result<A, ()>;

fn no(c: bool) -> R {
  if c {
    Ok(())
  } else {
    Err(())
  }
}
fn elements(t: &T) -> R<Vec<&T>> {
  let mut v = vec![];
  for k in t.kids() {
    match k {
      T::Text(s) => no(s.trim().is_empty())?,
      T::El(..) => v.push(k),
      _ => {},
    }
  }
  Ok(v)
}
fn single(t: &T) -> R<&T> {
  match elements(t)?[..] {
    [k] => Ok(k),
    _ => Err(()),
  }
}
fn childless(t: &T) -> R { no(elements(t)?.is_empty()) }
fn plain(t: &T) -> R<String> {
  match t.kids() {
    [] => Ok(String::new()),
    [T::Text(s)] => Ok(s.trim().to_string()),
    _ => Err(()),
  }
}
fn has(t: &T, a: &str) -> R<String> { t.attr(a).map(String::from).ok_or(()) }
fn among(v: &str, l: &[&str]) -> R { no(l.contains(&v)) }

impl Held {
  fn meta(t: &T) -> R<String> {
    let mut found = None;
    for k in elements(t)? {
      no(k.name() == "description" && found.is_none())?;
      found = Some(plain(k)?);
    }
    Ok(found.unwrap_or_default())
  }
  fn file(t: &T) -> R<Held> {
    let mut h = Held::default();
    let mut meta = false;
    for k in elements(t)? {
      let kind = match k.name() {
        "meta" => {
          no(!meta)?;
          meta = true;
          h.about = Held::meta(k)?;
          continue;
        },
        "pos_rule" => "pos",
        "math_rule" => "math",
        "mtext_rule" => "mtext",
        "word_rule" => "word",
        "seq_rule" => "seq",
        _ => return Err(()),
      };
      let name = has(k, "name")?;
      let mut about = None;
      let mut body = false;
      for c in elements(k)? {
        if c.name() == "meta" {
          no(about.is_none())?;
          about = Some(Held::meta(c)?);
        } else {
          no(!body)?;
          body = true;
          h.pattern(kind, c)?;
        }
      }
      no(body)?;
      no(h.rules.insert((kind, name), about.unwrap_or_default()).is_none())?;
    }
    for r in &h.refs {
      no(h.rules.contains_key(r))?;
    }
    Ok(h)
  }
  fn refer(&mut self, kind: &'static str, t: &T) -> R {
    childless(t)?;
    self.refs.push((kind, has(t, "ref")?));
    Ok(())
  }
  fn each(&mut self, kind: &'static str, t: &T) -> R {
    for k in elements(t)? {
      self.pattern(kind, k)?;
    }
    Ok(())
  }
  fn pattern(&mut self, kind: &'static str, t: &T) -> R {
    match (kind, t.name()) {
      ("math", "math_any") | ("word", "word_any") | ("mtext", "mtext_any") => childless(t),
      ("math", "math_marker") | ("seq", "seq_marker") | ("word", "word_marker") => {
        has(t, "name")?;
        self.pattern(kind, single(t)?)
      },
      ("math", "math_ref")
      | ("seq", "seq_ref")
      | ("word", "word_ref")
      | ("pos", "pos_ref")
      | ("mtext", "mtext_ref") => self.refer(kind, t),
      ("math", "math_or") | ("word", "word_or") | ("pos", "pos_or") | ("mtext", "mtext_or") | ("seq", "seq_seq") => {
        self.each(kind, t)
      },
      ("seq", "seq_or") => {
        if let Some(m) = t.attr("match_type") {
          among(m, &["first", "atleastone", "any", "longest"])?;
        }
        self.each(kind, t)
      },
      ("word", "word_not") | ("pos", "pos_not") | ("mtext", "mtext_not") => self.pattern(kind, single(t)?),
      ("math", "math_descendant") => {
        among(&has(t, "match_type")?, &["first", "at_least_one", "arbitrary"])?;
        self.pattern(kind, single(t)?)
      },
      ("math", "math_node") => {
        let (mut text, mut kids) = (false, false);
        for k in elements(t)? {
          match k.name() {
            "mtext_ref" => {
              no(!text)?;
              text = true;
              self.refer("mtext", k)?;
            },
            "math_children" => {
              no(!kids)?;
              kids = true;
              among(&has(k, "match_type")?, &["starts_with", "exact", "ends_with", "arbitrary"])?;
              no(!elements(k)?.is_empty())?;
              self.each("math", k)?;
            },
            _ => return Err(()),
          }
        }
        Ok(())
      },
      ("seq", "seq_word") => self.pattern("word", single(t)?),
      ("seq", "phrase") => {
        no(senna::phrase::Phrase::generate_str_to_phrase_map().contains_key(has(t, "tag")?.as_str()))?;
        let mut seen = vec![];
        for k in elements(t)? {
          no(!seen.contains(&k.name()))?;
          seen.push(k.name());
          match k.name() {
            "match_type" => among(&plain(k)?, &["shortest", "longest"])?,
            "starts_with_seq" => {
              if let Some(c) = k.attr("containment") {
                among(c, &["lessorequal", "any"])?;
              }
              self.pattern("seq", single(k)?)?;
            },
            "ends_with_seq" => self.pattern("seq", single(k)?)?,
            _ => return Err(()),
          }
        }
        Ok(())
      },
      ("word", "word") => plain(t).map(|_| ()),
      ("word", "word_math") => self.pattern("math", single(t)?),
      ("word", "word_pos") => {
        let (mut pos, mut word) = (false, false);
        for k in elements(t)? {
          if k.name() == "pos" {
            no(!pos)?;
            pos = true;
            self.pattern("pos", single(k)?)?;
          } else {
            no(!word)?;
            word = true;
            self.pattern("word", k)?;
          }
        }
        no(pos && word)
      },
      ("pos", "pos") => {
        childless(t)?;
        no(senna::pos::POS::generate_str_to_pos_map().contains_key(has(t, "tag")?.as_str()))
      },
      ("mtext", "mtext_lit") => {
        childless(t)?;
        has(t, "str").map(|_| ())
      },
      _ => Err(()),
    }
  }
}

// ---- what a well-formed file means ----

/// patterns of the grammar from the elements of a well-formed file
#[derive(Default)]
struct Meaning {
  f: File,
  /// rule names by kind, in file order
  names: BTreeMap<&'static str, Vec<String>>,
}
/// the literals of patterns are static
fn keep(s: &str) -> &'static str {
  thread_local! { static KEPT: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new()) }
  KEPT.with(|k| {
    let mut k = k.borrow_mut();
    if let Some(s) = k.get(s) {
      return *s;
    }
    let s: &'static str = Box::leak(s.to_string().into_boxed_str());
    k.insert(s);
    s
  })
}
fn some(t: &T, a: &str) -> Option<&'static str> { t.attr(a).map(keep) }
fn els(t: &T) -> Vec<&T> { t.kids().iter().filter(|k| matches!(k, T::El(..))).collect() }
fn content(t: &T) -> String { plain(t).unwrap_or_default() }

impl Meaning {
  fn of(t: &T) -> Meaning {
    let mut me = Meaning::default();
    let rules: Vec<(&'static str, &T)> =
      els(t).into_iter().filter_map(|k| Some((keep(k.name().strip_suffix("_rule")?), k))).collect();
    for (kind, k) in &rules {
      me.names.entry(kind).or_default().push(k.attr("name").unwrap().to_string());
    }
    for (kind, k) in rules {
      let body = els(k).into_iter().find(|c| c.name() != "meta").unwrap();
      match kind {
        "seq" => {
          let p = me.seq(body);
          me.f.seqs.push(p)
        },
        "word" => {
          let p = me.word(body);
          me.f.words.push(p)
        },
        "pos" => {
          let p = me.pos(body);
          me.f.poss.push(p)
        },
        "math" => {
          let p = me.math(body);
          me.f.maths.push(p)
        },
        _ => {
          let p = me.text(body);
          me.f.texts.push(p)
        },
      }
    }
    me
  }
  fn at(&self, kind: &str, t: &T) -> usize {
    let name = t.attr("ref").unwrap();
    self.names[kind].iter().position(|n| n == name).unwrap()
  }
  fn mark(&mut self, t: &T) -> usize {
    let tags = t.attr("tags").unwrap_or("").split(',').map(|t| t.trim().to_string()).filter(|t| !t.is_empty());
    self.f.markers.push((t.attr("name").unwrap().to_string(), tags.collect()));
    self.f.markers.len() - 1
  }
  fn seq(&mut self, t: &T) -> S {
    let k = els(t);
    match t.name() {
      "seq_ref" => S::Ref(self.at("seq", t)),
      "seq_word" => S::Word(self.word(k[0])),
      "seq_seq" => S::Seq(k.into_iter().map(|k| self.seq(k)).collect()),
      "seq_or" => S::Or(k.into_iter().map(|k| self.seq(k)).collect(), some(t, "match_type")),
      "seq_marker" => {
        let n = self.mark(t);
        S::Mark(Box::new(self.seq(k[0])), n)
      },
      "phrase" => {
        let (mut mt, mut a, mut b) = (None, None, None);
        for k in k {
          match k.name() {
            "match_type" => mt = Some(keep(&content(k))),
            "starts_with_seq" => a = Some((Box::new(self.seq(els(k)[0])), some(k, "containment"))),
            _ => b = Some(Box::new(self.seq(els(k)[0]))),
          }
        }
        S::Phrase(some(t, "tag").unwrap(), mt, a, b)
      },
      n => panic!("harness error: {n}"),
    }
  }
  fn word(&mut self, t: &T) -> W {
    let k = els(t);
    match t.name() {
      "word_ref" => W::Ref(self.at("word", t)),
      "word_or" => W::Or(k.into_iter().map(|k| self.word(k)).collect()),
      "word" => W::Lit(keep(&content(t))),
      "word_math" => W::Math(self.math(k[0])),
      "word_any" => W::Any,
      "word_not" => W::Not(Box::new(self.word(k[0]))),
      "word_marker" => {
        let n = self.mark(t);
        W::Mark(Box::new(self.word(k[0])), n)
      },
      "word_pos" => {
        let (p, w) = if k[0].name() == "pos" { (k[0], k[1]) } else { (k[1], k[0]) };
        W::Pos(self.pos(els(p)[0]), Box::new(self.word(w)))
      },
      n => panic!("harness error: {n}"),
    }
  }
  fn pos(&mut self, t: &T) -> Po {
    let k = els(t);
    match t.name() {
      "pos_ref" => Po::Ref(self.at("pos", t)),
      "pos" => Po::Tag(some(t, "tag").unwrap()),
      "pos_not" => Po::Not(Box::new(self.pos(k[0]))),
      "pos_or" => Po::Or(k.into_iter().map(|k| self.pos(k)).collect()),
      n => panic!("harness error: {n}"),
    }
  }
  fn math(&mut self, t: &T) -> M {
    let k = els(t);
    match t.name() {
      "math_ref" => M::Ref(self.at("math", t)),
      "math_any" => M::Any,
      "math_or" => M::Or(k.into_iter().map(|k| self.math(k)).collect()),
      "math_marker" => {
        let n = self.mark(t);
        M::Mark(Box::new(self.math(k[0])), n)
      },
      "math_descendant" => M::Desc(Box::new(self.math(k[0])), some(t, "match_type").unwrap()),
      "math_node" => {
        let (mut text, mut kids) = (None, None);
        for k in k {
          if k.name() == "mtext_ref" {
            text = Some(self.at("mtext", k));
          } else {
            kids = Some((els(k).into_iter().map(|k| self.math(k)).collect(), some(k, "match_type").unwrap()));
          }
        }
        M::Node(some(t, "name"), text, kids)
      },
      n => panic!("harness error: {n}"),
    }
  }
  fn text(&mut self, t: &T) -> X {
    let k = els(t);
    match t.name() {
      "mtext_ref" => X::Ref(self.at("mtext", t)),
      "mtext_any" => X::Any,
      "mtext_or" => X::Or(k.into_iter().map(|k| self.text(k)).collect()),
      "mtext_not" => X::Not(Box::new(self.text(k[0]))),
      "mtext_lit" => X::Lit(some(t, "str").unwrap()),
      n => panic!("harness error: {n}"),
    }
  }
}

/// sentences on which the patterns of files without circular references are compared
fn probes() -> Vec<(Fix, G)> {
  let m = |k: Vec<T>| math_of(k);
  let sy = |n: &str, s: &str| el(n, &[], vec![tx(s)]);
  let row = |k: Vec<T>| el("mrow", &[], k);
  let nested = m(vec![row(vec![sy("mi", "<"), el("mi", &[], vec![sy("mi", "z"), row(vec![])]), e0("mi")])]);
  let v: Vec<Vec<(&'static str, POS, Option<T>)>> = vec![
    vec![("let", POS::NN, None), ("a", POS::DT, None), ("z", POS::VB, None)],
    vec![("Let", POS::VB, None), ("", POS::NN, Some(m(vec![el("mi", &[], vec![sy("mi", "<"), e0("mi")])])))],
    vec![("", POS::DT, Some(nested)), ("x", POS::NN, None), ("a", POS::NN, None)],
    vec![("", POS::NN, Some(m(vec![sy("mi", "<")]))), ("a", POS::NN, None)],
    vec![("", POS::NN, Some(m(vec![el("mi", &[], vec![e0("mrow"), sy("mi", "z")])])))],
  ];
  let mut out = vec![];
  for (i, v) in v.iter().enumerate() {
    let n = v.len();
    let t = trees(n);
    out.push((fixture(v, i % 3), t[[0, 2, 3, 4][i % 4] % t.len()].clone()));
    out.push((fixture(v, i % 3), t[t.len() - 1].clone()));
  }
  out
}

thread_local! { static PROBES: Vec<(Fix, G)> = probes() }

/// the file with a rule more for each rule, which applies the rule to every word, formula or phrase and marks where it did
fn with_probes(t: &T, me: &Meaning) -> T {
  let T::El(n, a, k) = t else { unreachable!() };
  let mut k = k.clone();
  let none = vec![];
  let deep = |m: T| {
    let m = el("math_marker", &[("name", "m"), ("tags", "on")], vec![m]);
    let d = el("math_descendant", &[("match_type", "arbitrary")], vec![m]);
    el("seq_word", &[], vec![el("word_math", &[], vec![d])])
  };
  for kind in ["seq", "word", "pos", "math", "mtext"] {
    for (i, name) in me.names.get(kind).unwrap_or(&none).iter().enumerate() {
      let r = refer(kind, name);
      let s = match kind {
        "seq" => r,
        "word" => el("seq_word", &[], vec![r]),
        "pos" => el("seq_word", &[], vec![el("word_pos", &[], vec![el("pos", &[], vec![r]), e0("word_any")])]),
        "math" => deep(r),
        _ => deep(el("math_node", &[], vec![r])),
      };
      k.push(rule("seq", &format!("probe {kind} {i}"), el("seq_marker", &[("name", "p")], vec![s])));
    }
  }
  T::El(n.clone(), a.clone(), k)
}

/// does the file match as the patterns written in it?
fn means(ctx: &mut Ctx, t: &T) -> Verdict {
  let me = Meaning::of(t);
  if me.f.circular() {
    return Ok(());
  }
  let t = with_probes(t, &me);
  let g = load(t.xml().as_bytes()).map_err(|e| format!("with more rules, the file is refused: {e}"))?;
  let me = Meaning::of(&t);
  ctx.count("files compared by what they match", 1);
  for (i, name) in me.names.get("seq").into_iter().flatten().enumerate().filter(|(_, n)| n.starts_with("probe ")) {
    PROBES.with(|p| p.iter().try_for_each(|(x, tree)| compare_named(ctx, &me.f, &g, (i, name), x, tree)))?;
  }
  Ok(())
}

// ---- comparison ----

fn judge(ctx: &mut Ctx, t: &T) -> Verdict {
  let want = Held::file(t);
  let got = load(t.xml().as_bytes());
  ctx.steps(1);
  ctx.count(if want.is_ok() { "well-formed files" } else { "malformed files" }, 1);
  match (&got, &want) {
    (Err(_), Err(())) => Ok(()),
    (Ok(_), Err(())) => Err("a malformed pattern file is loaded".into()),
    (Err(e), Ok(_)) => Err(format!("a well-formed pattern file is refused: {e}").into()),
    (Ok(g), Ok(w)) => {
      holds(g, w)?;
      means(ctx, t)
    },
  }
}
fn holds(g: &PatternFile, w: &Held) -> Verdict {
  ensure(g.description.get_summary() == w.about, || format!("description {:?}", g.description.get_summary()))?;
  macro_rules! kind {
    ($k:expr, $rules:expr, $names:expr) => {
      let mine: Vec<(&String, &String)> = w.rules.iter().filter(|r| r.0 .0 == $k).map(|r| (&r.0 .1, r.1)).collect();
      ensure($rules.len() == mine.len() && $names.len() == mine.len(), || {
        format!("{} {} rules under {} names, expected {}", $rules.len(), $k, $names.len(), mine.len())
      })?;
      let mut at: Vec<usize> = vec![];
      for (name, about) in mine {
        let i = *$names.get(name).ok_or_else(|| format!("no {} rule {name:?}", $k))?;
        ensure(i < $rules.len() && !at.contains(&i), || format!("{} rule {name:?} is rule {i}", $k))?;
        at.push(i);
        let got = $rules[i].description.get_summary();
        ensure(got == about, || format!("description of {} rule {name:?}: {got:?}, expected {about:?}", $k))?;
      }
    };
  }
  kind!("pos", g.pos_rules, g.pos_rule_names);
  kind!("math", g.math_rules, g.math_rule_names);
  kind!("mtext", g.mtext_rules, g.mtext_rule_names);
  kind!("word", g.word_rules, g.word_rule_names);
  kind!("seq", g.sequence_rules, g.sequence_rule_names);
  Ok(())
}

// ---- enumeration ----

fn rule(kind: &str, name: &str, body: T) -> T { el(&format!("{kind}_rule"), &[("name", name)], vec![body]) }
fn e0(n: &str) -> T { el(n, &[], vec![]) }
fn refer(kind: &str, name: &str) -> T { el(&format!("{kind}_ref"), &[("ref", name)], vec![]) }
fn lit(s: &str) -> T { el("word", &[], vec![tx(s)]) }
fn about(s: &str) -> T { el("meta", &[], vec![el("description", &[], vec![tx(s)])]) }

/// rules that define a reference of each kind
fn frame() -> Vec<T> {
  vec![
    rule("pos", "r", el("pos", &[("tag", "NN")], vec![])),
    rule("math", "r", e0("math_any")),
    rule("mtext", "r", e0("mtext_any")),
    rule("word", "r", e0("word_any")),
    rule("seq", "r", e0("seq_seq")),
  ]
}
/// complete files
fn wholes() -> Vec<T> {
  let sp = || tx("\n  ");
  vec![
    el("pattern_file", &[], vec![
      sp(),
      about(" all \n of it "),
      rule("pos", "p", el("pos_or", &[], vec![el("pos", &[("tag", "DT")], vec![]), sp(), el("pos_not", &[], vec![refer("pos", "q")])])),
      rule("pos", "q", el("pos", &[("tag", "NN")], vec![])),
      T::Comment("words".into()),
      el("word_rule", &[("name", "w")], vec![
        about("a word"),
        el("word_or", &[], vec![
          lit("let"),
          el("word_not", &[], vec![refer("word", "v")]),
          el("word_pos", &[], vec![el("pos", &[], vec![refer("pos", "p")]), e0("word_any")]),
        ]),
      ]),
      rule("word", "v", el("word_marker", &[("name", "m"), ("tags", "a,b")], vec![lit("Let")])),
    ]),
    el("pattern_file", &[], vec![
      rule("mtext", "x", el("mtext_or", &[], vec![el("mtext_lit", &[("str", "<")], vec![]), el("mtext_not", &[], vec![refer("mtext", "y")])])),
      rule("mtext", "y", e0("mtext_any")),
      rule("math", "m", el("math_or", &[], vec![
        el("math_node", &[("name", "mi")], vec![
          refer("mtext", "x"),
          el("math_children", &[("match_type", "exact")], vec![e0("math_any"), refer("math", "n")]),
        ]),
        el("math_marker", &[("name", "k")], vec![el("math_descendant", &[("match_type", "first")], vec![e0("math_any")])]),
      ])),
      el("math_rule", &[("name", "n")], vec![refer("math", "m"), T::Comment("c".into()), about("")]),
      rule("word", "w", el("word_math", &[], vec![refer("math", "m")])),
    ]),
    el("pattern_file", &[], vec![
      rule("seq", "s", el("seq_or", &[("match_type", "longest")], vec![
        el("seq_seq", &[], vec![el("seq_word", &[], vec![lit("a")]), refer("seq", "t")]),
        el("seq_marker", &[("name", "k"), ("tags", "")], vec![el("phrase", &[("tag", "NP")], vec![
          el("match_type", &[], vec![tx(" shortest ")]),
          el("starts_with_seq", &[("containment", "lessorequal")], vec![refer("seq", "t")]),
          el("ends_with_seq", &[], vec![el("seq_word", &[], vec![e0("word_any")])]),
        ])]),
      ])),
      rule("seq", "t", el("seq_or", &[], vec![])),
      about("sequences"),
    ]),
  ]
}

/// elements as inserted by the changes, as complete as they can be alone
fn stock(n: &str) -> T {
  match n {
    "meta" => about("z"),
    "description" => el(n, &[], vec![tx("z")]),
    "pos" => el(n, &[("tag", "VB")], vec![]),
    "phrase" => el(n, &[("tag", "VP")], vec![]),
    "mtext_lit" => el(n, &[("str", "z")], vec![]),
    "match_type" => el(n, &[], vec![tx("longest")]),
    "math_ref" | "word_ref" | "pos_ref" | "seq_ref" | "mtext_ref" => el(n, &[("ref", "r")], vec![]),
    "math_marker" => el(n, &[("name", "z")], vec![e0("math_any")]),
    "word_marker" => el(n, &[("name", "z")], vec![e0("word_any")]),
    "seq_marker" => el(n, &[("name", "z")], vec![e0("seq_seq")]),
    "math_children" => el(n, &[("match_type", "arbitrary")], vec![e0("math_any")]),
    "math_descendant" => el(n, &[("match_type", "arbitrary")], vec![e0("math_any")]),
    "mtext_not" => el(n, &[], vec![e0("mtext_any")]),
    "word_not" | "seq_word" => el(n, &[], vec![e0("word_any")]),
    "word_math" => el(n, &[], vec![e0("math_any")]),
    "pos_not" => el(n, &[], vec![stock("pos")]),
    "starts_with_seq" | "ends_with_seq" => el(n, &[], vec![e0("seq_seq")]),
    "word_pos" => el(n, &[], vec![el("pos", &[], vec![stock("pos")]), e0("word_any")]),
    "word" => lit("z"),
    "pos_rule" => rule("pos", "z", stock("pos")),
    "math_rule" => rule("math", "z", e0("math_any")),
    "mtext_rule" => rule("mtext", "z", e0("mtext_any")),
    "word_rule" => rule("word", "z", e0("word_any")),
    "seq_rule" => rule("seq", "z", e0("seq_seq")),
    n => e0(n),
  }
}
fn values(attr: &str) -> &'static [&'static str] {
  match attr {
    "name" | "ref" => &["r", "p", "q", "w", "n", "t", "", " r", "R"],
    "tag" => &["NN", "NP", "DT", "S", "nn", "", " NP", "."],
    "match_type" => &[
      "first", "longest", "shortest", "any", "atleastone", "at_least_one", "arbitrary", "exact", "starts_with",
      "ends_with", "First", "", " first",
    ],
    "containment" => &["any", "lessorequal", "Any", "", "less"],
    "tags" => &["", ",", "a"],
    _ => &["", "z"],
  }
}
const ATTRS: &[&str] = &["name", "ref", "tag", "str", "match_type", "containment", "tags", "id"];

/// every tree one change away
fn changes(t: &T, small: bool) -> Vec<T> {
  let mut out = vec![];
  fn go(t: &T, small: bool, root: bool, out: &mut Vec<T>) {
    let T::El(n, a, k) = t else { return };
    // attributes
    for (i, (x, _)) in a.iter().enumerate() {
      let mut b = a.clone();
      b.remove(i);
      out.push(T::El(n.clone(), b, k.clone()));
      for v in values(x) {
        let mut b = a.clone();
        b[i].1 = v.to_string();
        out.push(T::El(n.clone(), b, k.clone()));
      }
    }
    if !small {
      for x in ATTRS {
        if !a.iter().any(|b| b.0 == *x) {
          for v in values(x) {
            let mut b = a.clone();
            b.push((x.to_string(), v.to_string()));
            out.push(T::El(n.clone(), b, k.clone()));
          }
        }
      }
    }
    if !root {
      let names: &[&str] = if small { &["word_any", "math_any", "seq_ref", "pos", "meta", "foo"] } else { ELEMENTS };
      for m in names {
        out.push(T::El(m.to_string(), a.clone(), k.clone()));
        out.push(stock(m));
      }
    }
    // children
    let with = |k: Vec<T>| T::El(n.clone(), a.clone(), k);
    for i in 0..k.len() {
      let mut c = k.clone();
      c.remove(i);
      out.push(with(c));
      let mut c = k.clone();
      c.insert(i, k[i].clone());
      out.push(with(c));
      if i + 1 < k.len() {
        let mut c = k.clone();
        c.swap(i, i + 1);
        out.push(with(c));
      }
      // a child's own children in its place
      let mut c = k.clone();
      c.splice(i..=i, k[i].kids().to_vec());
      out.push(with(c));
    }
    for i in 0..=k.len() {
      let mut extra = vec![tx("x"), tx("\n\t "), T::Comment("c".into())];
      let names: &[&str] = if small { &["word_any", "meta", "seq_ref"] } else { ELEMENTS };
      extra.extend(names.iter().map(|n| stock(n)));
      for x in extra {
        let mut c = k.clone();
        c.insert(i, x);
        out.push(with(c));
      }
    }
    for i in 0..k.len() {
      let mut inner = vec![];
      go(&k[i], small, false, &mut inner);
      for x in inner {
        let mut c = k.clone();
        c[i] = x;
        out.push(with(c));
      }
    }
  }
  go(t, small, true, &mut out);
  out.into_iter().filter(fit).collect()
}
/// the parser gives this very tree, and nothing is left open by the property
fn fit(t: &T) -> bool {
  fn simple(t: &T) -> bool {
    let text_only = matches!(t.name(), "word" | "description" | "match_type");
    !(text_only && t.kids().iter().any(|k| matches!(k, T::Comment(_)))) && t.kids().iter().all(simple)
  }
  t.parse_stable() && simple(t)
}

fn go(ctx: &mut Ctx, t: &T) -> bool {
  if ctx.mine() {
    ctx.run(
      || t.xml(),
      |ctx| {
        ctx.state(t);
        judge(ctx, t)
      },
    );
  }
  !ctx.done()
}

/// places for any element: kind of rule and a wrapper
fn hosts() -> Vec<(&'static str, &'static dyn Fn(T) -> T)> {
  vec![
    ("file", &|t| t),
    ("seq", &|t| t),
    ("word", &|t| t),
    ("pos", &|t| t),
    ("math", &|t| t),
    ("mtext", &|t| t),
    ("math", &|t| el("math_node", &[], vec![t])),
    ("seq", &|t| el("phrase", &[("tag", "NP")], vec![t])),
    ("word", &|t| el("word_pos", &[], vec![t, e0("word_any")])),
    ("word", &|t| el("word_pos", &[], vec![el("pos", &[], vec![stock("pos")]), t])),
  ]
}
fn within(kind: &str, t: T) -> T {
  let mut v = frame();
  v.push(if kind == "file" { t } else { rule(kind, "s", t) });
  el("pattern_file", &[], v)
}

fn run(ctx: &mut Ctx) {
  for t in wholes() {
    if Held::file(&t).is_err() {
      panic!("harness error: not well-formed by the grammar: {}", t.xml());
    }
    if !go(ctx, &t) {
      return;
    }
  }
  // any element anywhere, with any attribute and up to two children
  let few: Vec<T> = ["word_any", "math_any", "mtext_any", "seq_seq", "pos", "mtext_ref", "math_children", "meta", "match_type", "starts_with_seq", "foo", "word", "pos_or"]
    .iter()
    .map(|n| stock(n))
    .chain([tx("x"), tx("longest"), tx(" "), T::Comment("c".into()), el("pos", &[], vec![stock("pos")])])
    .collect();
  let all: Vec<T> = ELEMENTS.iter().map(|n| stock(n)).chain(few.iter().cloned()).collect();
  for (kind, host) in hosts() {
    for name in ELEMENTS {
      let base = match stock(name) {
        T::El(n, a, _) => (n, a),
        _ => unreachable!(),
      };
      let mut bodies: Vec<Vec<T>> = vec![vec![]];
      bodies.extend(all.iter().map(|x| vec![x.clone()]));
      bodies.extend(few.iter().flat_map(|x| all.iter().map(move |y| vec![x.clone(), y.clone()])));
      for b in bodies {
        let t = within(kind, host(T::El(base.0.clone(), base.1.clone(), b)));
        if fit(&t) && !go(ctx, &t) {
          return;
        }
      }
      for x in ATTRS {
        for v in values(x) {
          let a = vec![(x.to_string(), v.to_string())];
          let t = within(kind, host(T::El(base.0.clone(), a, stock(name).kids().to_vec())));
          if fit(&t) && !go(ctx, &t) {
            return;
          }
        }
      }
    }
  }
  // definitions and references
  let kinds = ["pos", "math", "mtext", "word", "seq"];
  let one = |c: usize| -> T {
    // kind, name, and what it refers to: nothing, a, b
    let (k, n, r) = (kinds[c % 5], ["a", "b"][c / 5 % 2], c / 10);
    let plain = ["pos", "math_any", "mtext_any", "word_any", "seq_seq"][c % 5];
    rule(k, n, if r == 0 { stock(plain) } else { refer(k, ["a", "b"][r - 1]) })
  };
  for v in seqs(30, 0, 3) {
    let t = el("pattern_file", &[], v.iter().map(|c| one(*c)).collect());
    if !go(ctx, &t) {
      return;
    }
  }
  // changes of complete files
  for t in wholes() {
    for c in changes(&t, false) {
      if !go(ctx, &c) {
        return;
      }
    }
  }
  let firsts: Vec<T> = wholes();
  for (i, t) in firsts.iter().enumerate() {
    if ctx.quick() && i != 2 {
      continue;
    }
    for c in changes(t, ctx.quick()) {
      for d in changes(&c, true) {
        if !go(ctx, &d) {
          return;
        }
      }
    }
  }
  // every character in names, descriptions, words and elsewhere
  for cs in xml_scalars(!ctx.quick(), 48) {
    ctx.case(
      || format!("files with {:?} to {:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        let n = |i: usize| format!("n{}", cs[i % cs.len()]);
        let mut k = vec![about(&format!("all{}. {}", n(0), n(1)))];
        for (i, c) in cs.iter().enumerate() {
          let m = about(&format!("{c}x{c}"));
          k.push(el("word_rule", &[("name", &n(i))], vec![m, if i + 1 < cs.len() { refer("word", &n(i + 1)) } else { lit("let") }]));
          k.push(el("math_rule", &[("name", &c.to_string())], vec![e0("math_any"), about(&c.to_string())]));
          k.push(rule("mtext", &format!("{c}z"), el("mtext_lit", &[("str", &c.to_string())], vec![])));
          k.push(rule("seq", &n(i), el("seq_word", &[], vec![lit(&format!("{c}w{c}"))])));
        }
        let whole = el("pattern_file", &[], k);
        if Held::file(&whole).is_err() {
          panic!("harness error: not well-formed: {}", whole.xml());
        }
        judge(ctx, &whole)?;
        for c in &cs {
          let t = tx(&c.to_string());
          for (kind, x) in [
            ("file", t.clone()),
            ("seq", el("seq_or", &[("match_type", &format!("any{c}"))], vec![])),
            ("pos", el("pos", &[("tag", &format!("N{c}"))], vec![])),
            ("pos", el("pos_not", &[], vec![stock("pos"), t.clone()])),
            ("word", el("word_any", &[], vec![t.clone()])),
            ("mtext", refer("mtext", &format!("r{c}"))),
          ] {
            let t = within(kind, x);
            if fit(&t) {
              judge(ctx, &t).map_err(|mut e| {
                e.msg = format!("{}: {}", t.xml(), e.msg);
                e
              })?;
            }
          }
        }
        ctx.state(&cs);
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // many rules, and long ones
  for n in [31, 64, 129, 255, 257, 1025, ctx.pick(1500, 4097)] {
    for kind in kinds {
      ctx.case(
        || format!("{n} {kind} rules"),
        |ctx| {
          let plain = ["pos", "math_any", "mtext_any", "word_any", "seq_seq"][kinds.iter().position(|k| *k == kind).unwrap()];
          let of = |i: usize| if i % 3 == 0 || n > 300 { stock(plain) } else { refer(kind, &format!("r{}", (i / 3) * 3)) };
          let mut k: Vec<T> = (0..n).map(|i| el(&format!("{kind}_rule"), &[("name", &format!("r{i}"))], vec![of(i), about(&format!("rule {i}"))])).collect();
          let t = el("pattern_file", &[], k.clone());
          let w = Held::file(&t).map_err(|_| "harness error: not well-formed".to_string())?;
          holds(&load(t.xml().as_bytes()).map_err(|e| format!("refused: {e}"))?, &w)?;
          // what they match, for some of them
          if n < 260 && kind != "seq" {
            judge(ctx, &t)?;
          }
          // one name twice
          k.push(rule(kind, &format!("r{}", n / 2), stock(plain)));
          judge(ctx, &el("pattern_file", &[], k.clone()))?;
          k.pop();
          k.push(rule(kind, "s", refer(kind, &format!("r{n}"))));
          judge(ctx, &el("pattern_file", &[], k))?;
          let long = "ab ".repeat(n);
          let t = el("pattern_file", &[], vec![about(&long), el(&format!("{kind}_rule"), &[("name", &long)], vec![about(&long), stock(plain)])]);
          let t = match t { T::El(a, b, mut k) => { k.push(rule(kind, "s", refer(kind, &long))); k.extend(frame()); T::El(a, b, k) }, t => t };
          ctx.state(&(n, kind));
          judge(ctx, &t)
        },
      );
    }
  }
  files(ctx);
}

/// the tree libxml2 makes of a file
fn recovered(path: &str) -> Option<T> {
  fn tree(n: RoNode) -> T {
    match n.get_type() {
      Some(NodeType::TextNode) => tx(&n.get_content()),
      Some(NodeType::CommentNode) => T::Comment(n.get_content()),
      Some(NodeType::ElementNode) => {
        let mut attrs: Vec<(String, String)> = n.get_attributes().into_iter().collect();
        attrs.sort();
        T::El(n.get_name(), attrs, n.get_child_nodes().into_iter().map(tree).collect())
      },
      _ => e0("other"),
    }
  }
  Parser::default().parse_file(path).ok()?.get_root_readonly().map(tree)
}

/// unreadable and malformed files
fn files(ctx: &mut Ctx) {
  let mut bad: Vec<(String, Vec<u8>)> = vec![];
  for (i, t) in wholes().into_iter().enumerate() {
    let xml = format!("<?xml version=\"1.0\"?>\n{}", t.xml());
    for n in 0..xml.len() {
      bad.push((format!("file {i} cut at byte {n}"), xml.as_bytes()[..n].to_vec()));
      let mut b = xml.as_bytes().to_vec();
      b.remove(n);
      bad.push((format!("file {i} without byte {n}"), b));
    }
    bad.push((format!("file {i} twice"), format!("{}{}", t.xml(), t.xml()).into_bytes()));
    bad.push((format!("file {i} and text"), format!("{}x", t.xml()).into_bytes()));
  }
  let raw: [&[u8]; 10] = [b"", b" ", b"\n", b"x", b"{}", b"\0\0", b"\xff\xfe\xff", b"<", b"<pattern_file><seq_rule name='a'></pattern_file>", b"<pattern_file>&nope;</pattern_file>"];
  for r in raw {
    bad.push((format!("{:?}", String::from_utf8_lossy(r)), r.to_vec()));
  }
  let judge = |ctx: &mut Ctx, path: &str| -> Verdict {
    let tree = recovered(path);
    let want = tree.as_ref().ok_or(()).and_then(Held::file);
    match (PatternFile::load(path), want) {
      (Err(_), Err(())) => Ok(()),
      (Ok(_), Err(())) => Err("a malformed pattern file is loaded".into()),
      (Err(e), Ok(_)) => Err(format!("a well-formed pattern file is refused: {e}").into()),
      (Ok(g), Ok(w)) => {
        holds(&g, &w)?;
        match tree {
          Some(t) if fit(&t) => means(ctx, &t),
          _ => Ok(()),
        }
      },
    }
  };
  for (what, b) in bad {
    if ctx.mine() {
      ctx.run(
        || what.clone(),
        |ctx| {
          ctx.steps(1);
          let path = scratch("b.xml");
          std::fs::write(&path, &b).map_err(|e| format!("harness error: {e}"))?;
          judge(ctx, &path)
        },
      );
    }
    if ctx.done() {
      return;
    }
  }
  ctx.case(
    || "missing files and directories, and the example".to_string(),
    |ctx| {
      let example = "/repo/examples/declaration_pattern.xml";
      if std::path::Path::new(example).exists() {
        judge(ctx, example)?;
        let g = PatternFile::load(example)?;
        ensure(g.sequence_rule_names.contains_key("declaration"), || "the example has no rule declaration".into())?;
      }
      let dir = scratch("dir");
      std::fs::create_dir_all(&dir).map_err(|e| format!("harness error: {e}"))?;
      for p in [scratch("nothing.xml"), dir, String::new(), "/".into(), "nul\0byte".into(), scratch("no/p.xml")] {
        ensure(PatternFile::load(&p).is_err(), || format!("{p:?} is loaded"))?;
      }
      Ok(())
    },
  );
}
