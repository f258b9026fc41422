//! C04: ranges through their serialized form and back.
use crate::dom::{self, el, tx, T};
use crate::refdnm::{Rule, P};
use libxml::readonly::RoNode;
use libxml::xpath::Context;
use llamapun::dnm::{DNMRange, DNM};
use mccore::gen::{forests, seqs, xml_scalars, LENGTHS};
use mccore::{ensure, Ctx, Prop, Verdict};
use std::collections::HashMap;

pub const PROP: Prop = Prop {
  id: "C04",
  run,
  chunk: 16,
  assumptions: &["ids are XML names and unique in the document; views start at elements or texts; no CDATA sections or entity references in the DOM"],
  bounds: "all trees of up to 3 nodes below the root over 16 node kinds (plain, replaced, computed, skipped elements, ids, xml:ids, prefixed and default namespaces, elements named like node tests, texts, comment, PI) and 5 roots (thorough: all trees of 4 nodes over 13 kinds and 3 roots); every start node; 6 parameter sets; every range; deserialized with the view itself and with a view of the whole document under other parameters; every character up to U+3400 and samples of the others (thorough: every character) in a text of 3 under 3 parameter sets; texts, child lists and nestings of up to 65537, 257 and 129 items, ranges between positions near powers of two and ten",
};

/// node kinds; None if the kind takes no children
fn node(k: usize, id: usize, kids: Vec<T>) -> Option<T> {
  let leaf = |t: T| if kids.is_empty() { Some(t) } else { None };
  let name = ["i", "abc\u{e9}d", "\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}"][id % 3];
  let id = format!("{name}{id}");
  match k {
    0 => Some(el("p", &[], kids)),
    1 => Some(el("a", &[], kids)),
    2 => leaf(tx("ab")),
    3 => leaf(tx(" \u{e9} \u{130}")),
    4 => leaf(T::Comment("c d".into())),
    5 => Some(el("p", &[("id", &id)], kids)),
    6 => Some(el("a", &[("id", &id)], kids)),
    7 => Some(el("p", &[("xmlns", "urn:u")], kids)),
    8 => Some(el("x:p", &[("xmlns:x", "urn:u")], kids)),
    9 => Some(el("p", &[("xml:id", &id)], kids)),
    10 => Some(el("text", &[], kids)),
    11 => leaf(T::Pi("text x".into())),
    12 => Some(el("sk", &[], kids)),
    13 => Some(el("f", &[], kids)),
    14 => leaf(tx("  ")),
    15 => Some(el("x:a", &[("xmlns:x", "urn:v"), ("xml:id", &id)], kids)),
    _ => unreachable!(),
  }
}
const KINDS: usize = 16;

fn root(k: usize, kids: Vec<T>) -> T {
  match k {
    0 => el("r", &[], kids),
    1 => el("p", &[], kids),
    2 => el("r", &[("id", "root")], kids),
    3 => el("p", &[("xmlns", "urn:u")], kids),
    4 => el("a", &[("xml:id", "root")], kids),
    _ => unreachable!(),
  }
}
const ROOTS: usize = 5;

fn params() -> Vec<P> {
  let names = |a: Rule| -> Vec<(String, Rule)> {
    vec![("a".into(), a), ("sk".into(), Rule::Skip), ("f".into(), Rule::Func)]
  };
  let tok = || names(Rule::Token("[l]".into()));
  vec![
    P { names: tok(), ws: true, wrap: true, back: true, ..P::default() },
    P { names: tok(), back: true, ..P::default() },
    P { names: tok(), ws: true, uni: true, back: true, ..P::default() },
    P { names: tok(), wrap: true, lower: true, back: true, ..P::default() },
    P { names: names(Rule::Enter), ws: true, wrap: true, uni: true, lower: true, back: true, ..P::default() },
    P { names: names(Rule::Skip), wrap: true, uni: true, back: true, ..P::default() },
  ]
}

/// the two pointers of `arange(A,B)`, each an XPath and maybe a position in its text
fn pointers(s: &str) -> Option<[(String, Option<i64>); 2]> {
  let inner = s.strip_prefix("arange(")?.strip_suffix(')')?;
  let mut depth = 0;
  let mut quote = None;
  let mut cut = vec![];
  for (i, c) in inner.char_indices() {
    match (quote, c) {
      (Some(q), c) if c == q => quote = None,
      (Some(_), _) => {},
      (None, '"' | '\'') => quote = Some(c),
      (None, '(' | '[') => depth += 1,
      (None, ')' | ']') => depth -= 1,
      (None, ',') if depth == 0 => cut.push(i),
      _ => {},
    }
  }
  if cut.len() != 1 {
    return None;
  }
  let one = |p: &str| -> Option<(String, Option<i64>)> {
    match p.strip_prefix("string-index(") {
      None => Some((p.to_string(), None)),
      Some(r) => {
        let (x, n) = r.strip_suffix(')')?.rsplit_once(',')?;
        Some((x.to_string(), Some(n.parse().ok()?)))
      },
    }
  };
  Some([one(&inner[..cut[0]])?, one(&inner[cut[0] + 1..])?])
}

/// where the character at `i` of view `from` begins or ends in view `to`
fn place(from: &DNM, i: usize, to: &DNM, end: bool) -> Option<usize> {
  let (node, off): (RoNode, i32) = from.back_map[i];
  let r = to.get_range_of_node(node).ok()?;
  if off < 0 {
    return Some(if end { r.end } else { r.start });
  }
  let after = |o: i32| if end { o > off } else { o >= off };
  Some((r.start..r.end).find(|k| after(to.back_map[*k].1)).unwrap_or(r.end))
}

/// `keep` says which ranges of a view of so many characters are tried
fn one(ctx: &mut Ctx, t: &T, ps: &[P], all_others: bool, starts: bool, keep: &dyn Fn(usize, usize, usize) -> bool) -> Verdict {
  let d = dom::parse(t);
  let xp = Context::new(&d.doc).map_err(|_| "harness error: no XPath context")?;
  let mut seen: HashMap<String, ()> = HashMap::new();
  let whole: Vec<DNM> = ps.iter().map(|p| DNM::new(d.nodes[0], p.real())).collect();
  for (pi, p) in ps.iter().enumerate() {
    for at in 0..if starts { d.nodes.len() } else { 1 } {
      if !d.nodes[at].is_element_node() && !d.nodes[at].is_text_node() {
        continue;
      }
      let dnm = DNM::new(d.nodes[at], p.real());
      let n = dnm.back_map.len();
      for s in 0..=n {
        if !keep(n, s, s) {
          continue;
        }
        for e in s..=n {
          if !keep(n, s, e) {
            continue;
          }
          let r = DNMRange { start: s, end: e, dnm: &dnm };
          let xml = r.serialize();
          let here = || format!("{s}..{e} of {:?} (start node {at}, parameters {p:?}) is {xml}", dnm.plaintext);
          for (x, _) in pointers(&xml).ok_or_else(|| format!("{}: malformed", here()))? {
            if seen.insert(x.clone(), ()).is_none() {
              let k = xp.evaluate(&x).map(|o| o.get_number_of_nodes()).map_err(|_| format!("{}: {x} is no XPath", here()))?;
              ensure(k == 1, || format!("{}: {x} selects {k} nodes", here()))?;
            }
          }
          let check = |what: &str, to: &DNM, must: bool| -> Verdict {
            // an empty range is one point: before its first character, or else after the last one
            let a = match (s < n, s) {
              (true, _) => place(&dnm, s, to, false),
              (false, 0) => to.get_range_of_node(d.nodes[at]).ok().map(|r| r.start),
              _ => place(&dnm, s - 1, to, true),
            };
            let b = if s == e { a } else { place(&dnm, e - 1, to, true) };
            let (Some(a), Some(b)) = (a, b) else {
              return if must { Err(format!("{}: unmapped", here()).into()) } else { Ok(()) };
            };
            let got = DNMRange::deserialize(&xml, to, &xp);
            ensure((got.start, got.end) == (a, b), || {
              format!("{}: deserialized {what} to {}..{}, expected {a}..{b}", here(), got.start, got.end)
            })
          };
          check("with the view itself", &dnm, true)?;
          ctx.steps(1);
          for (o, other) in whole.iter().enumerate() {
            if o == (pi + 1) % whole.len() || all_others {
              check(&format!("with the view {:?} of the document", other.plaintext), other, false)?;
            }
          }
        }
      }
      ctx.state(&(t, at, p));
    }
  }
  Ok(())
}

fn trees(n: usize, kinds: usize, roots: usize, f: &mut dyn FnMut(T) -> bool) {
  for parents in forests(n) {
    for ks in seqs(kinds, n, n) {
      fn build(me: usize, parents: &[usize], ks: &[usize]) -> Option<T> {
        let kids: Option<Vec<T>> =
          (me + 1..parents.len()).filter(|&j| parents[j] == me).map(|j| build(j, parents, ks)).collect();
        node(ks[me], me, kids?)
      }
      let kids: Option<Vec<T>> =
        (0..n).filter(|&i| parents[i] == usize::MAX).map(|i| build(i, &parents, &ks)).collect();
      let Some(kids) = kids else { continue };
      for r in 0..roots {
        let t = root(r, kids.clone());
        if t.parse_stable() && !f(t) {
          return;
        }
      }
    }
  }
}

fn run(ctx: &mut Ctx) {
  let ps = params();
  // large documents
  for n in LENGTHS {
    let near = move |all: usize, s: usize, e: usize| {
      let mark = |x: usize| x < 3 || x + 3 > all || [10, 100, 127, 255, 999, 4095, 32767, 65535].iter().any(|m| x + 1 >= *m && x <= m + 2);
      mark(s) && mark(e)
    };
    let mut docs: Vec<(T, String)> = ["ab", "é", "漢 ", "\n "]
      .iter()
      .map(|u| (el("r", &[], vec![el("p", &[], vec![tx(&u.repeat(n)), el("a", &[], vec![]), tx("z")])]), format!("{n} times {u:?}")))
      .collect();
    if n < 300 {
      for k in [0, 1, 3, 5, 8, 9, 10] {
        let kid = |i: usize| node(k, i, if k == 3 { vec![] } else { vec![tx(["u", " ", "é"][i % 3])] }).unwrap();
        let sep = |i: usize| if k == 3 { node(4, i, vec![]).unwrap() } else { tx(["-", " "][i % 2]) };
        docs.push((el("r", &[], (0..n).flat_map(|i| [kid(i), sep(i)]).collect()), format!("{n} children of kind {k}")));
      }
    }
    if n < 250 {
      for k in [0, 5, 8, 9] {
        let mut t = tx("\u{130}b");
        for i in 0..n {
          t = node(k, i, if i == 0 { vec![t] } else { vec![tx("a"), t, tx("é")] }).unwrap();
        }
        docs.push((el("r", &[], vec![tx("s"), t]), format!("{n} levels of kind {k}")));
      }
    }
    for (t, what) in docs {
      if ctx.mine() {
        ctx.run(|| what.clone(), |ctx| one(ctx, &t, &ps[..ctx.pick(2, 4)], false, false, &near));
      }
      if ctx.done() {
        return;
      }
    }
  }
  // every character
  let few = [P { ws: false, ..ps[2].clone() }, ps[2].clone(), ps[3].clone()];
  for mut cs in xml_scalars(ctx.pick(false, true), 8) {
    if ctx.quick() {
      cs.retain(|c| !matches!(*c as u32, 0x3400..=0xf8ff | 0x1_0800..=0x1_fdff));
    }
    if cs.is_empty() {
      continue;
    }
    if ctx.mine() {
      let kids = cs.iter().map(|c| el("p", &[], vec![tx(&format!("{c}b{c}"))])).collect();
      let t = el("r", &[], kids);
      ctx.run(
        || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
        |ctx| one(ctx, &t, &few, false, false, &|n, s, e| e - s <= 2 && s < n),
      );
    }
    if ctx.done() {
      return;
    }
  }
  for (n, kinds, roots) in
    if ctx.quick() { vec![(0, KINDS, ROOTS), (1, KINDS, ROOTS), (2, KINDS, ROOTS), (3, KINDS, ROOTS)] } else { vec![(0, KINDS, ROOTS), (1, KINDS, ROOTS), (2, KINDS, ROOTS), (3, KINDS, ROOTS), (4, 13, 3)] }
  {
    let mut go = |t: T| {
      if ctx.mine() {
        ctx.run(|| t.xml(), |ctx| one(ctx, &t, &ps, n < 3, true, &|_, _, _| true));
      }
      !ctx.done()
    };
    trees(n, kinds, roots, &mut go);
    if ctx.done() {
      return;
    }
  }
}
