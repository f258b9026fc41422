//! C01 and C02: text views of generated trees.
use crate::dom::{self, el, tx, Parsed, T};
use crate::refdnm::{view, Rule, P};
use llamapun::dnm::DNM;
use mccore::gen::{forests, seqs, xml_scalars, LENGTHS};
use mccore::{ensure, same, Ctx, Prop, Verdict};

const ASSUME: &[&str] = &[
  "libxml2 gives the DOM of the generated XML (checked for every tree)",
  "transliteration and stemming are table-driven stand-ins for unidecode and morpha, shared by code and reference",
  "tokens are not empty; no CDATA sections or entity references in the DOM",
];
const BOUNDS: &str = "all trees of up to 2 nodes (3 thorough) below the root over 18 node kinds (elements with and without rules and class combinations, texts with blanks and non-ASCII, comment, PI) under every flag setting and 4 rule tables, from every start node; all trees of 3 nodes (thorough 4) over all kinds and of 4 nodes over 9 kinds under 12 settings; all assignments of the 5 rule kinds to 2 classes and 2 names on class/name combinations; texts of up to 3 (4) pieces of 12 under every flag setting; every character of the first two planes and samples of the others (thorough: every character) inside, at the ends of and alone in texts under 9 flag settings; texts, child lists, class lists and nestings of up to 65537, 4097, 4097 and 129 items under 20 settings; llamapun preset on all 2-node trees over every name and class it mentions";

pub const C01: Prop = Prop { id: "C01", run: |c| run(c, false), chunk: 16, assumptions: ASSUME, bounds: BOUNDS };
pub const C02: Prop = Prop { id: "C02", run: |c| run(c, true), chunk: 16, assumptions: ASSUME, bounds: BOUNDS };

/// structural invariants of a view (C01)
fn structure(t: &T, d: &Parsed, at: usize, p: &P) -> Verdict {
  let start = d.nodes[at];
  let sub = t.all()[at].clone();
  let n = sub.size();
  let dnm = DNM::new(start, p.real());
  // characters, bytes, text
  let chars: Vec<char> = dnm.plaintext.chars().collect();
  let len = chars.len();
  let mut at_byte = 0;
  let mut bytes = Vec::new();
  for c in &chars {
    bytes.push(at_byte);
    at_byte += c.len_utf8();
  }
  bytes.push(at_byte);
  same("byte offsets", &dnm.byte_offsets, &bytes)?;
  same("get_plaintext", &dnm.get_plaintext(), &dnm.plaintext.as_str())?;
  // ranges
  let all = sub.all();
  let texts: Vec<Vec<char>> = all.iter().map(|t| if let T::Text(s) = t { s.chars().collect() } else { vec![] }).collect();
  let index: std::collections::HashMap<_, _> = (0..n).map(|k| (d.nodes[at + k].to_hashable(), k)).collect();
  let mut got = Vec::new();
  for k in 0..n {
    let r = dnm.get_range_of_node(d.nodes[at + k]).ok().map(|r| (r.start, r.end));
    if let Some((a, b)) = r {
      ensure(a <= b && b <= len, || format!("range {a}..{b} of node {k} in a text of {len} characters"))?;
    }
    got.push(r);
  }
  // which nodes were entered shows in their children: all or none are traversed
  let mut entered = vec![false; n];
  for k in 0..n {
    let mut c = k + 1;
    let mut kids = Vec::new();
    for kid in all[k].kids() {
      kids.push(c);
      c += kid.size();
    }
    let seen = kids.iter().filter(|c| got[**c].is_some()).count();
    ensure(seen == 0 || (seen == kids.len() && got[k].is_some()), || {
      format!("{seen} of {} children of node {k} have ranges, itself: {:?}", kids.len(), got[k])
    })?;
    entered[k] = seen > 0;
  }
  same("whole range", &got[0], &Some((0, len)))?;
  let whole = dnm.get_range().map(|r| (r.start, r.end)).ok();
  same("get_range", &whole, &Some((0, len)))?;
  for (k, nd) in d.nodes.iter().enumerate() {
    if (k < at || k >= at + n) && dnm.get_range_of_node(*nd).is_ok() {
      return Err(format!("node {k} outside the start node has a range").into());
    }
  }
  for k in 0..n {
    if !entered[k] {
      continue;
    }
    let (s, e) = got[k].unwrap();
    let mut c = k + 1;
    let mut pos = s;
    for kid in all[k].kids() {
      let (a, b) = got[c].ok_or("child without range")?;
      ensure(a == pos, || format!("child {c} starts at {a}, expected {pos}"))?;
      pos = b;
      c += kid.size();
    }
    ensure(pos == e, || format!("children of {k} end at {pos}, the node at {e}"))?;
  }
  // back map
  if !p.back {
    return Ok(());
  }
  same("back map length", &dnm.back_map.len(), &len)?;
  let mut last: Option<(usize, i32)> = None;
  for (i, (node, off)) in dnm.back_map.iter().enumerate() {
    let k = *index
      .get(&node.to_hashable())
      .ok_or_else(|| format!("character {i} maps to a node outside the start node"))?;
    let (a, b) = got[k].ok_or_else(|| format!("character {i} maps to an untraversed node"))?;
    ensure(a <= i && i < b, || format!("character {i} maps to node {k} with range {a}..{b}"))?;
    match all[k] {
      T::Text(s) => {
        let orig = usize::try_from(*off).ok().and_then(|o| texts[k].get(o).copied());
        let orig = orig.ok_or_else(|| format!("character {i} maps to offset {off} of {s:?}"))?;
        // the character must be one the original can become
        let mut forms: Vec<char> = vec![orig];
        if p.uni {
          forms = unidecode::unidecode_char(orig).chars().collect();
        }
        if p.lower {
          forms = forms.iter().flat_map(|c| c.to_lowercase()).collect();
          if forms.contains(&'σ') {
            forms.push('ς');
          }
        }
        if p.ws {
          forms.iter_mut().for_each(|c| {
            if c.is_whitespace() {
              *c = ' '
            }
          });
        }
        ensure(forms.contains(&chars[i]), || {
          format!("character {i} is {:?} but maps to offset {off} of {s:?}, which is {orig:?}", chars[i])
        })?;
        if let Some((lk, lo)) = last {
          ensure(lk != k || lo <= *off, || format!("offsets fall from {lo} to {off} at character {i}"))?;
        }
      },
      _ => {
        ensure(*off == -1, || format!("character {i} maps to element {k} with offset {off}"))?;
        ensure(!entered[k], || format!("character {i} maps to an entered element"))?;
      },
    }
    last = Some((k, *off));
  }
  // exact, where text and traversal are what they should be
  let want = view(&sub, p);
  if dnm.plaintext == want.text && (0..n).all(|k| got[k].is_some() == want.ranges[k].is_some()) {
    for (i, (node, off)) in dnm.back_map.iter().enumerate() {
      let (k, o) = want.back[i];
      ensure(*node == d.nodes[at + k] && *off == o, || {
        format!("character {i} of {:?} maps to offset {off}, expected node {k} offset {o}", want.text)
      })?;
    }
    for k in 0..n {
      same("range", &got[k], &want.ranges[k])?;
    }
  }
  Ok(())
}

fn content(t: &T, d: &Parsed, at: usize, p: &P) -> Verdict {
  let dnm = DNM::new(d.nodes[at], p.real());
  let sub = t.all()[at];
  let want = view(sub, p);
  same("plain text", &dnm.plaintext, &want.text)
}

fn check(ctx: &mut Ctx, t: &T, starts: bool, ps: &[P], text: bool) -> Verdict {
  let d = dom::parse(t);
  for p in ps {
    if (p.once || p.full) && p.back {
      continue;
    }
    for at in 0..if starts { d.nodes.len() } else { 1 } {
      let r = if text { content(t, &d, at, p) } else { structure(t, &d, at, p) };
      ctx.steps(1);
      r.map_err(|mut e| {
        e.msg = format!("{} (start node {at}, parameters {p:?})", e.msg);
        e
      })?;
    }
    ctx.state(&(t, p));
  }
  Ok(())
}

fn flags(m: u32, base: &P) -> P {
  let b = |i: u32| m >> i & 1 == 1;
  P { ws: b(0), wrap: b(1), uni: b(2), once: b(3), full: b(4), lower: b(5), back: b(6), ..base.clone() }
}
fn all_flags(base: &P) -> Vec<P> {
  (0..128).map(|m| flags(m, base)).filter(|p| !((p.once || p.full) && p.back)).collect()
}

fn own(v: &[(&str, Rule)]) -> Vec<(String, Rule)> { v.iter().map(|(a, b)| (a.to_string(), b.clone())).collect() }
fn tok(s: &str) -> Rule { Rule::Token(s.into()) }

fn tables() -> Vec<P> {
  vec![
    P::default(),
    P { names: own(&[("math", tok("mathformula")), ("img", Rule::Skip)]), classes: own(&[("A", Rule::Skip), ("B", tok("\nT t\n"))]), ..P::default() },
    P { names: own(&[("math", Rule::Func), ("p", Rule::Enter), ("span", tok("Ü"))]), classes: own(&[("A", Rule::Enter), ("B", Rule::Func)]), ..P::default() },
    P { names: own(&[("span", Rule::Skip), ("math", tok("x"))]), classes: own(&[("AB", Rule::Skip), ("B", Rule::Enter)]), ..P::default() },
  ]
}

/// the full node alphabet; None if the kind cannot have children
fn node(k: usize, kids: Vec<T>) -> Option<T> {
  let leaf = |t: T| if kids.is_empty() { Some(t) } else { None };
  match k {
    0 => leaf(tx("a b")),
    1 => leaf(tx("  ")),
    2 => leaf(tx("\n Xs\u{a0}")),
    3 => leaf(tx("Üß\u{2014}İ")),
    4 => leaf(tx("ΑΣ \u{301}runs")),
    5 => leaf(T::Comment(" c ".into())),
    6 => leaf(T::Pi("pi x".into())),
    7 => Some(el("p", &[], kids)),
    8 => Some(el("math", &[], kids)),
    9 => Some(el("span", &[("class", "A")], kids)),
    10 => Some(el("span", &[("class", "A B")], kids)),
    11 => Some(el("span", &[("class", " B  A ")], kids)),
    12 => Some(el("math", &[("class", "C B")], kids)),
    13 => Some(el("p", &[("class", "C\nA\tB")], kids)),
    14 => Some(el("img", &[("id", "i")], kids)),
    15 => Some(el("math", &[("class", "AB")], kids)),
    16 => leaf(tx("é")),
    17 => leaf(tx(" \u{2003}漢 ")),
    _ => unreachable!(),
  }
}
const KINDS: usize = 18;
/// the kinds of the deeper trees
const FEW: [usize; 9] = [0, 1, 3, 5, 7, 8, 9, 11, 2];

/// a tree below the root from a shape and labels
fn build(shape: &[usize], labels: &[usize]) -> Option<T> {
  use std::cell::Cell;
  let ok = Cell::new(true);
  let kids = dom::label_forest(shape, labels, &|k, kids| match node(k, kids) {
    Some(t) => t,
    None => {
      ok.set(false);
      tx("?")
    },
  });
  let t = el("r", &[], kids);
  if ok.get() && t.parse_stable() {
    Some(t)
  } else {
    None
  }
}

/// long texts, deep and wide trees, many classes
fn large() -> Vec<(T, String)> {
  let mut v = Vec::new();
  for n in LENGTHS {
    for unit in ["a", " ", "é", "漢 ", "\u{1d518}", "b\n\n", "\u{a0}"] {
      let w = unit.repeat(n);
      v.push((el("r", &[], vec![tx(&w), el("math", &[], vec![tx("i")]), tx(" y")]), format!("{n} times {unit:?}")));
    }
    if n > 5000 {
      continue;
    }
    for k in [0, 7, 8, 9, 11, 12] {
      let kid = |i: usize| node(k, if k == 0 { vec![] } else { vec![tx(["a", " b ", "é"][i % 3])] }).unwrap();
      let sep = |i: usize| node([8, 9, 7, 5, 14][i % 5], vec![]).unwrap_or_else(|| T::Comment("c".into()));
      v.push((el("r", &[], (0..n).flat_map(|i| [kid(i), sep(i)]).collect()), format!("{n} children of kind {k}")));
    }
    let filler: String = (0..n).map(|i| format!("c{i} ")).collect();
    for c in [format!("{filler}A"), format!("A {filler}"), format!("B{} A", " ".repeat(n)), format!("{filler}B A"), "A".repeat(n)] {
      v.push((el("r", &[], vec![tx("a"), el("math", &[("class", &c)], vec![tx("in")]), tx("b")]), format!("{n} classes: {}", &c[..c.len().min(9)])));
    }
    if n < 250 {
      for k in [7, 8, 9, 11, 12, 14] {
        let mut t = tx("core");
        for i in 0..n {
          let kids = vec![tx(["a", " ", "é\n"][i % 3]), t, tx("z ")];
          let kids = if matches!(kids[1], T::Text(_)) { kids[1..2].to_vec() } else { kids };
          t = node(if i + 1 == n { k } else { 7 }, kids).unwrap();
        }
        v.push((el("r", &[], vec![t, tx("end")]), format!("{n} levels, the outermost of kind {k}")));
      }
    }
  }
  v
}

fn run(ctx: &mut Ctx, text: bool) {
  // the preset on the names and classes it mentions
  let pre = P::llamapun();
  let mut labels: Vec<(&str, String)> = Vec::new();
  for n in ["math", "cite", "img", "table", "head", "footer", "p", "span", "m:math", "thead", "header"] {
    labels.push((n, String::new()));
  }
  for c in pre.classes.iter().map(|c| c.0.clone()).collect::<Vec<_>>().into_iter().chain(["ltx_p".into(), "ltx_tag".into(), "ltx_Math".into()]) {
    for n in ["span", "table", "math"] {
      labels.push((n, c.clone()));
      labels.push((n, format!("ltx_p {c} ltx_x")));
    }
  }
  let mk = |i: usize, kids: Vec<T>| {
    let (n, c) = &labels[i];
    let a: Vec<(&str, &str)> = if c.is_empty() { vec![] } else { vec![("class", c.as_str())] };
    el(n, &a, kids)
  };
  for i in 0..labels.len() {
    for j in 0..=labels.len() {
      if !ctx.mine() {
        continue;
      }
      let inner = if j == labels.len() { vec![tx("Word\u{2019}s é.")] } else { vec![tx("x "), mk(j, vec![tx("é1")]), tx("\n\ny")] };
      let t = el("r", &[("xmlns:m", "urn:m")], vec![tx(" A "), mk(i, inner), tx(" B")]);
      ctx.run(|| t.xml(), |ctx| check(ctx, &t, false, std::slice::from_ref(&pre), text));
      if ctx.done() {
        return;
      }
    }
  }
  // rule assignments
  let kinds = [None, Some(Rule::Enter), Some(Rule::Skip), Some(tok("T")), Some(Rule::Func)];
  let elems: Vec<T> = [("span", ""), ("span", "A"), ("span", "B"), ("span", "A B"), ("span", "B A"), ("math", "B A"), ("math", "C A"), ("math", "")]
    .iter()
    .map(|(n, c)| el(n, &[("class", c)], vec![tx("in "), el("math", &[("class", "B")], vec![tx("i")])]))
    .collect();
  for s in seqs(5, 4, 4) {
    if !ctx.mine() {
      continue;
    }
    let mut base = P { wrap: true, back: true, ..P::default() };
    for (i, c) in ["A", "B"].iter().enumerate() {
      if let Some(r) = &kinds[s[i]] {
        base.classes.push((c.to_string(), r.clone()));
      }
    }
    for (i, c) in ["span", "math"].iter().enumerate() {
      if let Some(r) = &kinds[s[2 + i]] {
        base.names.push((c.to_string(), r.clone()));
      }
    }
    let ps = [base.clone(), P { ws: true, ..base.clone() }, P { ws: true, wrap: false, ..base }];
    ctx.run(
      || format!("rules {:?} {:?}", ps[0].classes, ps[0].names),
      |ctx| {
        for e in &elems {
          let t = el("r", &[], vec![tx("a"), e.clone(), tx(" b")]);
          check(ctx, &t, false, &ps, text)?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // single texts under every flag setting
  let pieces = ["a", " ", "\n\t", "B", "\u{a0}", "İ", "ß", "ΣΑΣ", "\u{301}", "漢", "tilings", "\u{2026}"];
  let base = P::default();
  let flagged = all_flags(&base);
  for s in seqs(pieces.len(), 1, ctx.pick(3, 4)) {
    if !ctx.mine() {
      continue;
    }
    let w: String = s.iter().map(|&i| pieces[i]).collect();
    let t = el("r", &[], vec![tx(&w)]);
    ctx.run(|| t.xml(), |ctx| check(ctx, &t, true, &flagged, text));
    if ctx.done() {
      return;
    }
  }
  // every character: inside, at the ends of, and alone in a text
  let some: Vec<P> = [0b1000000u32, 0b1000001, 0b1000100, 0b1000101, 0b1100000, 0b1100101, 0b0001000, 0b0010101, 0b0101001]
    .map(|m| flags(m, &base))
    .to_vec();
  for cs in xml_scalars(ctx.pick(false, true), 128) {
    if !ctx.mine() {
      continue;
    }
    let kids = cs.iter().flat_map(|c| [el("p", &[], vec![tx(&format!("{c}a{c}S {c}"))]), el("q", &[], vec![tx(&c.to_string())])]).collect();
    let t = el("r", &[], kids);
    ctx.run(|| format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]), |ctx| check(ctx, &t, false, &some, text));
    if ctx.done() {
      return;
    }
  }
  // large documents
  let some: Vec<P> = tables().iter().flat_map(|b| [0b1000011u32, 0b1000010, 0b1100101, 0b0010111, 0b1000000].map(|m| flags(m, b))).collect();
  for t in large() {
    if ctx.mine() {
      ctx.run(|| t.1.clone(), |ctx| check(ctx, &t.0, false, &some, text));
    }
    if ctx.done() {
      return;
    }
  }
  // trees under every flag setting and rule table
  let every: Vec<P> = tables().iter().flat_map(all_flags).collect();
  for n in 1..=ctx.pick(2, 3) {
    for shape in forests(n) {
      for l in seqs(KINDS, n, n) {
        if let Some(t) = build(&shape, &l) {
          if ctx.mine() {
            ctx.run(|| t.xml(), |ctx| check(ctx, &t, true, &every, text));
          }
          if ctx.done() {
            return;
          }
        }
      }
    }
  }
  let some: Vec<P> = tables()[1..]
    .iter()
    .flat_map(|b| [0b1000011u32, 0b1000010, 0b1100101, 0b0010111].map(|m| flags(m, b)))
    .collect();
  let few = FEW.to_vec();
  let wide: Vec<usize> = (0..KINDS).collect();
  for (n, kinds) in if ctx.quick() { [(3, wide), (4, few)] } else { [(3, few), (4, wide)] } {
    for shape in forests(n) {
      for l in seqs(kinds.len(), n, n) {
        let l: Vec<usize> = l.iter().map(|&i| kinds[i]).collect();
        if let Some(t) = build(&shape, &l) {
          if ctx.mine() {
            ctx.run(|| t.xml(), |ctx| check(ctx, &t, false, &some, text));
          }
          if ctx.done() {
            return;
          }
        }
      }
    }
  }
}
