//! Generated documents: the harness's own tree, its XML form, and the parsed DOM in step with it.
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::{Document, NodeType};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
  El(String, Vec<(String, String)>, Vec<T>),
  Text(String),
  Comment(String),
  Pi(String),
}

pub fn el(name: &str, attrs: &[(&str, &str)], kids: Vec<T>) -> T {
  T::El(name.into(), attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), kids)
}
pub fn tx(s: &str) -> T { T::Text(s.into()) }

fn esc(s: &str, attr: bool, out: &mut String) {
  for c in s.chars() {
    match c {
      '&' => out.push_str("&amp;"),
      '<' => out.push_str("&lt;"),
      '>' => out.push_str("&gt;"),
      '"' if attr => out.push_str("&quot;"),
      '\r' => out.push_str("&#13;"),
      '\n' if attr => out.push_str("&#10;"),
      '\t' if attr => out.push_str("&#9;"),
      c => out.push(c),
    }
  }
}

impl T {
  pub fn xml(&self) -> String {
    let mut s = String::new();
    self.write(&mut s);
    s
  }
  fn write(&self, s: &mut String) {
    match self {
      T::El(n, a, k) => {
        s.push('<');
        s.push_str(n);
        for (x, v) in a {
          s.push_str(&format!(" {x}=\""));
          esc(v, true, s);
          s.push('"');
        }
        s.push('>');
        for c in k {
          c.write(s);
        }
        s.push_str(&format!("</{n}>"));
      },
      T::Text(t) => esc(t, false, s),
      T::Comment(t) => s.push_str(&format!("<!--{t}-->")),
      T::Pi(t) => s.push_str(&format!("<?{t}?>")),
    }
  }
  pub fn kids(&self) -> &[T] {
    match self {
      T::El(_, _, k) => k,
      _ => &[],
    }
  }
  pub fn name(&self) -> &str {
    match self {
      T::El(n, _, _) => n.rsplit(':').next().unwrap(),
      _ => "",
    }
  }
  pub fn attr(&self, a: &str) -> Option<&str> {
    match self {
      T::El(_, l, _) => l.iter().find(|(x, _)| x == a).map(|(_, v)| v.as_str()),
      _ => None,
    }
  }
  pub fn classes(&self) -> Vec<&str> { self.attr("class").unwrap_or("").split_whitespace().collect() }
  /// number of nodes
  pub fn size(&self) -> usize { 1 + self.kids().iter().map(T::size).sum::<usize>() }
  /// all nodes in preorder
  pub fn all(&self) -> Vec<&T> {
    let mut v = Vec::new();
    fn go<'a>(t: &'a T, v: &mut Vec<&'a T>) {
      v.push(t);
      for k in t.kids() {
        go(k, v);
      }
    }
    go(self, &mut v);
    v
  }
  /// concatenated text content
  pub fn content(&self) -> String {
    match self {
      T::Text(t) => t.clone(),
      T::El(_, _, k) => k.iter().map(|c| c.content()).collect(),
      _ => String::new(),
    }
  }
  /// false if two texts are adjacent (the parser would merge them) or a text is empty
  pub fn parse_stable(&self) -> bool {
    let k = self.kids();
    k.windows(2).all(|w| !(matches!(w[0], T::Text(_)) && matches!(w[1], T::Text(_))))
      && k.iter().all(|c| !matches!(c, T::Text(t) if t.is_empty()) && c.parse_stable())
  }
}

/// A parsed document with its nodes in preorder, index-aligned with `tree.all()`
pub struct Parsed {
  pub doc: Document,
  pub nodes: Vec<RoNode>,
}

/// parse the tree's XML and check that the DOM is the tree
pub fn parse(tree: &T) -> Parsed {
  let xml = tree.xml();
  let doc = Parser::default()
    .parse_string(&xml)
    .unwrap_or_else(|e| panic!("harness error: {xml:?} does not parse: {e:?}"));
  let root = doc.get_root_readonly().unwrap_or_else(|| panic!("harness error: no root in {xml:?}"));
  let mut nodes = Vec::new();
  align(tree, root, &mut nodes);
  Parsed { doc, nodes }
}

pub fn align(t: &T, n: RoNode, out: &mut Vec<RoNode>) {
  let fine = match t {
    T::El(..) => n.get_type() == Some(NodeType::ElementNode) && n.get_name() == t.name(),
    T::Text(s) => n.get_type() == Some(NodeType::TextNode) && n.get_content() == *s,
    T::Comment(_) => n.get_type() == Some(NodeType::CommentNode),
    T::Pi(_) => n.get_type() == Some(NodeType::PiNode),
  };
  let mut kids = Vec::new();
  if matches!(t, T::El(..)) {
    let mut c = n.get_first_child();
    while let Some(x) = c {
      kids.push(x);
      c = x.get_next_sibling();
    }
  }
  if !fine || kids.len() != t.kids().len() {
    panic!("harness error: the parsed DOM differs from the tree {t:?}");
  }
  out.push(n);
  for (t, n) in t.kids().iter().zip(kids) {
    align(t, n, out);
  }
}

/// every tree made by labelling a forest of the given shapes under `root`; `label(i, leaf)` lists the
/// labels a node may take
pub fn label_forest(parents: &[usize], labels: &[usize], make: &dyn Fn(usize, Vec<T>) -> T) -> Vec<T> {
  fn go(me: usize, parents: &[usize], labels: &[usize], make: &dyn Fn(usize, Vec<T>) -> T) -> T {
    let kids = (me + 1..parents.len()).filter(|&j| parents[j] == me).map(|j| go(j, parents, labels, make)).collect();
    make(labels[me], kids)
  }
  (0..parents.len())
    .filter(|&i| parents[i] == usize::MAX)
    .map(|i| go(i, parents, labels, make))
    .collect()
}
