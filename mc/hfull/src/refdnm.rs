//! Reference text view: an independent reading of the parameters over the harness's tree.
use crate::dom::T;
use llamapun::dnm::{DNMParameters, SpecialTagsOption};
use std::collections::HashMap;
use std::sync::Arc;

/// what an element rule says
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Rule {
  Enter,
  Skip,
  Token(String),
  /// computed: "F" + element name + number of child nodes
  Func,
}
pub fn func(n: libxml::readonly::RoNode) -> String {
  format!("F{}{}", n.get_name(), n.get_child_nodes().len())
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct P {
  pub names: Vec<(String, Rule)>,
  pub classes: Vec<(String, Rule)>,
  pub ws: bool,
  pub wrap: bool,
  pub uni: bool,
  pub once: bool,
  pub full: bool,
  pub lower: bool,
  pub back: bool,
  /// computes tokens instead of `func`
  pub compute: Option<fn(&T) -> String>,
}
impl P {
  pub fn real(&self) -> DNMParameters {
    let tab = |v: &[(String, Rule)]| -> HashMap<String, SpecialTagsOption> {
      v.iter()
        .map(|(k, r)| {
          (k.clone(), match r {
            Rule::Enter => SpecialTagsOption::Enter,
            Rule::Skip => SpecialTagsOption::Skip,
            Rule::Token(t) => SpecialTagsOption::Normalize(t.clone()),
            Rule::Func => SpecialTagsOption::FunctionNormalize(Arc::new(func)),
          })
        })
        .collect()
    };
    DNMParameters {
      special_tag_name_options: tab(&self.names),
      special_tag_class_options: tab(&self.classes),
      normalize_white_spaces: self.ws,
      wrap_tokens: self.wrap,
      normalize_unicode: self.uni,
      stem_words_once: self.once,
      stem_words_full: self.full,
      convert_to_lowercase: self.lower,
      support_back_mapping: self.back,
    }
  }
  /// the documented llamapun preset
  pub fn llamapun() -> P {
    let t = |s: &str| Rule::Token(s.into());
    let f = || t("\nmathformula\n");
    let own = |v: Vec<(&str, Rule)>| v.into_iter().map(|(a, b)| (a.to_string(), b)).collect();
    P {
      names: own(vec![
        ("math", t("mathformula")),
        ("cite", t("CitationElement")),
        ("img", Rule::Skip),
        ("table", Rule::Skip),
        ("head", Rule::Skip),
        ("footer", Rule::Skip),
      ]),
      classes: own(vec![
        ("ltx_equation", f()),
        ("ltx_equationgroup", f()),
        ("ltx_ref", t("REF")),
        ("ltx_authors", Rule::Skip),
        ("ltx_TOC", Rule::Skip),
        ("ltx_note_mark", Rule::Skip),
        ("ltx_note_outer", Rule::Skip),
        ("ltx_bibliography", Rule::Skip),
        ("ltx_tag_figure", Rule::Skip),
        ("ltx_tag_table", Rule::Skip),
      ]),
      wrap: true,
      uni: true,
      back: true,
      ..P::default()
    }
  }
}

/// the reference view; nodes are preorder indices of the start tree
pub struct View {
  pub chars: Vec<char>,
  pub back: Vec<(usize, i32)>,
  /// None for nodes that are not traversed
  pub ranges: Vec<Option<(usize, usize)>>,
  /// the text node or the replaced element whose rule produced it; None for entered nodes
  pub entered: Vec<bool>,
  pub text: String,
}

struct B<'a> {
  p: &'a P,
  v: View,
  /// the text so far ends in whitespace, or is empty
  blank: bool,
}

pub fn view(t: &T, p: &P) -> View {
  let n = t.size();
  let mut b = B {
    p,
    v: View { chars: vec![], back: vec![], ranges: vec![None; n], entered: vec![false; n], text: String::new() },
    blank: true,
  };
  b.node(t, 0);
  b.v.text = b.v.chars.iter().collect();
  b.v
}

impl B<'_> {
  fn put(&mut self, c: char, node: usize, off: i32) {
    self.v.chars.push(c);
    self.v.back.push((node, off));
  }
  fn pad(&mut self, node: usize) {
    if self.p.wrap && !(self.p.ws && self.blank) {
      self.put(' ', node, -1);
      self.blank = true;
    }
  }
  fn token(&mut self, s: &str, node: usize) {
    self.pad(node);
    for c in s.chars() {
      self.put(c, node, -1);
    }
    self.blank = false;
    self.pad(node);
  }
  fn node(&mut self, t: &T, id: usize) {
    let start = self.v.chars.len();
    match t {
      T::Text(s) => self.text(s, id),
      T::El(_, _, kids) => {
        let rule = t
          .classes()
          .iter()
          .find_map(|c| self.p.classes.iter().find(|(k, _)| k == c))
          .or_else(|| self.p.names.iter().find(|(k, _)| k == t.name()))
          .map(|(_, r)| r.clone())
          .unwrap_or(Rule::Enter);
        match rule {
          Rule::Skip => {},
          Rule::Token(s) => self.token(&s, id),
          Rule::Func => self.token(&self.p.compute.map_or_else(|| format!("F{}{}", t.name(), kids.len()), |f| f(t)), id),
          Rule::Enter => {
            self.v.entered[id] = true;
            let mut k = id + 1;
            for c in kids {
              self.node(c, k);
              k += c.size();
            }
          },
        }
      },
      _ => {},
    }
    self.v.ranges[id] = Some((start, self.v.chars.len()));
  }
  fn text(&mut self, s: &str, id: usize) {
    // (character, index of the original)
    let mut cs: Vec<(char, i32)> = s.chars().enumerate().map(|(i, c)| (c, i as i32)).collect();
    if self.p.uni {
      cs = cs.into_iter().flat_map(|(c, i)| unidecode::unidecode_char(c).chars().map(move |d| (d, i))).collect();
    }
    if self.p.once || self.p.full {
      let w: String = cs.iter().map(|x| x.0).collect();
      let w = if self.p.full { rustmorpha::full_stem(&w) } else { rustmorpha::stem(&w) };
      cs = w.chars().map(|c| (c, 0)).collect(); // no back mapping with stemming
    }
    if self.p.lower {
      let w: String = cs.iter().map(|x| x.0).collect();
      let low: Vec<char> = w.to_lowercase().chars().collect();
      let from: Vec<i32> = cs.iter().flat_map(|(c, i)| std::iter::repeat_n(*i, c.to_lowercase().count())).collect();
      assert!(low.len() == from.len(), "harness error: lowercasing");
      cs = low.into_iter().zip(from).collect();
    }
    for (c, i) in cs {
      if self.p.ws && c.is_whitespace() {
        if !self.blank {
          self.blank = true;
          self.put(' ', id, i);
        }
      } else {
        self.blank = false;
        self.put(c, id, i);
      }
    }
  }
}
