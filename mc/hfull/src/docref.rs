//! Reference document: which nodes each selector describes, over the harness's own tree.
use crate::dom::T;
use crate::refdnm::{view, View, P};
use crate::words;

pub struct Doc<'a> {
  pub all: Vec<&'a T>,
  /// parent of each node; the root's is usize::MAX
  pub parent: Vec<usize>,
}

impl<'a> Doc<'a> {
  pub fn new(t: &'a T) -> Doc<'a> {
    let all = t.all();
    let mut parent = vec![usize::MAX; all.len()];
    for i in 0..all.len() {
      let mut c = i + 1;
      for k in all[i].kids() {
        parent[c] = i;
        c += k.size();
      }
    }
    Doc { all, parent }
  }
  fn has(&self, i: usize, s: &str) -> bool { self.all[i].attr("class").is_some_and(|c| c.contains(s)) }
  fn inside(&self, i: usize) -> std::ops::Range<usize> { i + 1..i + self.all[i].size() }
  fn clean(&self, i: usize) -> bool { !self.inside(i).any(|k| self.has(k, "ltx_ERROR")) }
  fn pick(&self, f: impl Fn(usize) -> bool) -> Vec<usize> {
    (0..self.all.len()).filter(|&i| matches!(self.all[i], T::El(..)) && f(i)).collect()
  }
  pub fn headings(&self) -> Vec<usize> {
    self.pick(|i| {
      ["h1", "h2", "h3", "h4", "h5", "h6"].contains(&self.all[i].name())
        && self.has(i, "ltx_title")
        && !self.has(i, "ltx_title_document")
        && self.clean(i)
    })
  }
  pub fn paragraphs(&self) -> Vec<usize> {
    self.pick(|i| {
      self.all[i].name() == "div"
        && self.has(i, "ltx_para")
        && self.clean(i)
        && !(0..i).any(|k| self.parent[k] == self.parent[i] && self.has(k, "ltx_ERROR"))
    })
  }
  pub fn maths(&self) -> Vec<usize> { self.pick(|i| self.all[i].name() == "math") }
  pub fn refs(&self) -> Vec<usize> {
    self.pick(|i| ["span", "a"].contains(&self.all[i].name()) && self.all[i].classes().contains(&"ltx_ref"))
  }
  fn part(&self, name: &str, class: &str) -> Vec<usize> { self.pick(|i| self.all[i].name() == name && self.has(i, class) && self.clean(i)) }
  pub fn extended(&self) -> Vec<usize> {
    let mut v = Vec::new();
    let abstracts = self.part("div", "ltx_abstract");
    v.extend(self.pick(|i| self.all[i].name() == "p" && self.has(i, "ltx_p") && abstracts.iter().any(|&a| self.inside(a).contains(&i))).first());
    v.extend(self.part("div", "ltx_keywords").first());
    v.extend(self.paragraphs());
    v.extend(self.part("div", "ltx_acknowledgement").first());
    v.extend(self.part("figcaption", "ltx_caption"));
    v
  }
}

const MARK: [&str; 14] = [
  "OPFUNCTION", "OPERATOR", "OPEN", "CLOSE", "UNKNOWN", "RELOP", "ADDOP", "MULOP", "ARROW", "BIGOP",
  "BINOP", "ID", "OVERACCENT", "UNDERACCENT",
];
/// the lexemes of a formula node (C15 decides the real ones in full)
pub fn lexemes(t: &T) -> String {
  let mut out: Vec<String> = Vec::new();
  for n in t.all().into_iter().skip(1) {
    if n.name() != "annotation" || n.attr("encoding") != Some("application/x-llamapun") {
      continue;
    }
    let mut a = n.content();
    for m in MARK {
      assert!(!a.contains(&format!("{m}:end")) || a.split_whitespace().any(|w| w == format!("{m}:end")), "harness error: glued marker");
    }
    a = a.replace(":end", ":end ").replace(":start", ":start ");
    for w in a.split_whitespace() {
      let short = ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP"].iter().find(|p| w.starts_with(**p));
      out.push(short.map_or_else(|| w.replace([':', '-'], "_"), |s| s.to_string()));
    }
  }
  if out.is_empty() {
    "mathformula".into()
  } else {
    out.join(" ")
  }
}

fn members(class: &str) -> std::collections::HashSet<char> {
  let one = regex::Regex::new(&format!("^{class}$")).unwrap();
  ('\u{80}'..=char::MAX).filter(|c| one.is_match(c.encode_utf8(&mut [0; 4]))).collect()
}
/// decimal digits of any script
pub fn digit(c: char) -> bool {
  static D: std::sync::OnceLock<std::collections::HashSet<char>> = std::sync::OnceLock::new();
  if c.is_ascii() { c.is_ascii_digit() } else { D.get_or_init(|| members(r"\d")).contains(&c) }
}
/// word characters of any script: letters, digits, marks, connectors
pub fn word_char(c: char) -> bool {
  static D: std::sync::OnceLock<std::collections::HashSet<char>> = std::sync::OnceLock::new();
  if c.is_ascii() { c.is_ascii_alphanumeric() || c == '_' } else { D.get_or_init(|| members(r"\w")).contains(&c) }
}

/// digits then one of a to k, or a fraction with an optional exponent
pub fn numeric(w: &str) -> bool {
  let cs: Vec<char> = w.strip_prefix('-').unwrap_or(w).chars().collect();
  let run = |i: usize| cs[i..].iter().take_while(|c| digit(**c)).count();
  let n = run(0);
  if n == 0 {
    return false;
  }
  let mut i = n;
  match cs.get(i) {
    None => return true,
    Some('a'..='k') => return i + 1 == cs.len(),
    Some('.') => {
      i += 1;
      let m = run(i);
      if m == 0 {
        return false;
      }
      i += m;
    },
    _ => return false,
  }
  if i == cs.len() {
    return true;
  }
  if !['e', 'E'].contains(&cs[i]) {
    return false;
  }
  i += 1;
  if i < cs.len() && ['+', '-'].contains(&cs[i]) {
    i += 1;
  }
  i < cs.len() && i + run(i) == cs.len()
}

/// the lowest node containing all the characters of a stretch of a view
pub fn node_of(d: &T, v: &View, a: usize, b: usize) -> usize {
  let doc = Doc::new(d);
  let path = |mut n: usize| {
    let mut p = vec![n];
    while doc.parent[n] != usize::MAX {
      n = doc.parent[n];
      p.push(n);
    }
    p.reverse();
    p
  };
  let mut common = path(v.back[a].0);
  for i in a..b {
    let p = path(v.back[i].0);
    let k = common.iter().zip(&p).take_while(|(x, y)| x == y).count();
    common.truncate(k);
  }
  *common.last().unwrap()
}

/// the preset's view of a node
pub fn preset(t: &T) -> View { view(t, &P::llamapun()) }

/// counts and text of one document of a token model
pub struct Block {
  pub text: String,
  pub counts: [u64; 7],
}
pub const COUNTS: [&str; 7] =
  ["document_count", "paragraph_count", "word_count", "overflow_count", "formula_count", "citation_count", "num_count"];

pub fn block(t: &T, discard_math: bool) -> Block {
  let doc = Doc::new(t);
  let mut b = Block { text: String::new(), counts: [1, 0, 0, 0, 0, 0, 0] };
  for p in doc.extended() {
    b.counts[1] += 1;
    let t = doc.all[p];
    let v = preset(t);
    let mut line = String::from("\n");
    let mut whole = true;
    for (x, y) in words::items(&v.chars) {
      let w: String = v.chars[x..y].iter().collect::<String>().to_lowercase();
      if w.len() > 25 {
        b.counts[3] += 1;
        whole = false;
        break;
      }
      if w.contains("mathformula") {
        b.counts[4] += 1;
        if !discard_math {
          line += &lexemes(t.all()[node_of(t, &v, x, y)]);
        }
      } else if w.contains("citationelement") {
        b.counts[5] += 1;
        line += "citationelement";
      } else if numeric(&w) {
        b.counts[6] += 1;
        line += "NUM";
      } else {
        b.counts[2] += 1;
        line += &w;
      }
      line += " ";
    }
    if whole {
      b.text += &line;
    }
  }
  b
}
