//! C30: the child list helpers against the generator's own child list.
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::NodeType;
use llamapun::patterns::utils::*;
use mccore::gen::{seqs, xml_scalars, LENGTHS};
use mccore::{ensure, same, Ctx, Prop, Verdict};

pub const PROP: Prop = Prop {
  id: "C30",
  run,
  chunk: 64,
  assumptions: &["libxml2 parses the generated XML into the nodes it describes; no CDATA sections or processing instructions among the children"],
  bounds: "all child lists of up to 5 (6 thorough) pieces from 8 kinds (two elements, an element with content, comment, blank text in two forms, words with and without surrounding blanks), under 2 element names; all presence patterns of 3 attributes with 9 values, every character in values; all node kinds; every character of the first two planes and samples of the others (thorough: every character) as text, at the ends of texts and behind an element; up to 65537 equal texts and 4097 other children",
};

#[derive(Clone, PartialEq, Debug)]
enum Item {
  El(&'static str),
  Comment,
  Text(String),
}

const PIECES: [(&str, &str); 8] = [
  ("el", "<a/>"),
  ("el", "<b x='1'/>"),
  ("el", "<a><c/>t</a>"),
  ("comment", "<!-- a -->"),
  ("text", " \n\t"),
  ("text", "\u{a0}\u{2003}"),
  ("text", "wörd"),
  ("text", " x y "),
];

fn expected(seq: &[usize]) -> Vec<Item> {
  let mut out: Vec<Item> = Vec::new();
  for &i in seq {
    match PIECES[i].0 {
      "el" => out.push(Item::El(if i == 1 { "b" } else { "a" })),
      "comment" => out.push(Item::Comment),
      _ => match out.last_mut() {
        Some(Item::Text(t)) => t.push_str(PIECES[i].1),
        _ => out.push(Item::Text(PIECES[i].1.to_string())),
      },
    }
  }
  out
}

/// the result of a listing helper, comparable
fn ids(r: &[RoNode]) -> Vec<usize> { r.iter().map(|n| n.to_hashable()).collect() }

fn named_err<T: std::fmt::Debug>(what: &str, r: Result<T, String>, name: &str) -> Verdict {
  match r {
    Ok(x) => Err(format!("{what}: got {x:?}, expected an error").into()),
    Err(e) => ensure(e.contains(name), || format!("{what}: error {e:?} does not name {name:?}")),
  }
}

fn one(ctx: &mut Ctx, seq: &[usize], name: &str) -> Verdict {
  let body: String = seq.iter().map(|&i| PIECES[i].1).collect();
  with(ctx, &body, &expected(seq), name)
}

/// an element with this content, which parses into these items
fn with(ctx: &mut Ctx, body: &str, items: &[Item], name: &str) -> Verdict {
  // the element stands among siblings, which must not matter
  let xml = format!("<r>pre<!-- s --><{name}>{body}</{name}><z/>post</r>");
  let doc = Parser::default().parse_string(&xml).expect("harness error: generated XML does not parse");
  let root = doc.get_root_readonly().expect("harness error: no root");
  let node = root
    .get_child_nodes()
    .into_iter()
    .find(|n| n.get_type() == Some(NodeType::ElementNode) && n.get_name() == name)
    .expect("harness error: element not found");
  ctx.state(&(name, format!("{items:?}")));
  ctx.steps(9);
  // comments
  let kids = node.get_child_nodes();
  if kids.len() != items.len() {
    panic!("harness error: {} children, expected {}", kids.len(), items.len());
  }
  for (k, it) in kids.iter().zip(items) {
    same("is_comment_node", &is_comment_node(*k), &(*it == Item::Comment))?;
  }
  same("is_comment_node of the element", &is_comment_node(node), &false)?;
  // simple content
  for trim in [false, true] {
    let got = get_simple_node_content(node, trim);
    match items {
      [] => same("simple content", &got, &Ok(String::new()))?,
      [Item::Text(t)] => {
        let w = if trim { t.trim().to_string() } else { t.clone() };
        same("simple content", &got, &Ok(w))?
      },
      _ => named_err("simple content", got, name)?,
    }
  }
  // listings
  let els: Vec<usize> = kids
    .iter()
    .zip(items)
    .filter(|(_, it)| matches!(it, Item::El(_)))
    .map(|(k, _)| k.to_hashable())
    .collect();
  same("unchecked listing", &ids(&fast_get_non_text_children(node)), &els)?;
  let other_text = items.iter().any(|i| matches!(i, Item::Text(t) if !t.trim().is_empty()));
  let strict = get_non_text_children(node);
  let only = get_only_child(node).map(|n| n.to_hashable());
  let none = assert_no_child(node);
  if other_text {
    named_err("listing", strict.map(|v| ids(&v)), name)?;
    named_err("only child", only, name)?;
    named_err("no child", none, name)
  } else {
    same("listing", &strict.map(|v| ids(&v)), &Ok(els.clone()))?;
    if els.len() == 1 {
      same("only child", &only, &Ok(els[0]))?;
    } else {
      named_err("only child", only, name)?;
    }
    if els.is_empty() {
      same("no child", &none, &Ok(()))
    } else {
      named_err("no child", none, name)
    }
  }
}

fn run(ctx: &mut Ctx) {
  for name in ["rule", "r"] {
    for s in seqs(PIECES.len(), 0, ctx.pick(5, 6)) {
      if ctx.mine() {
        ctx.run(
          || format!("<{name}> with {:?}", s.iter().map(|&i| PIECES[i].1).collect::<Vec<_>>()),
          |ctx| one(ctx, &s, name),
        );
      }
      if ctx.done() {
        return;
      }
    }
  }
  // every character
  for cs in xml_scalars(ctx.pick(false, true), 64) {
    if ctx.mine() {
      ctx.run(
        || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
        |ctx| {
          for c in &cs {
            let esc = match c {
              '<' => "&lt;".to_string(),
              '&' => "&amp;".to_string(),
              c => format!("&#{};", *c as u32),
            };
            with(ctx, &esc, &[Item::Text(c.to_string())], "rule")?;
            with(ctx, &format!("{esc}x{esc}"), &[Item::Text(format!("{c}x{c}"))], "rule")?;
            with(ctx, &format!("<a/> {esc}"), &[Item::El("a"), Item::Text(format!(" {c}"))], "rule")?;
          }
          Ok(())
        },
      );
    }
    if ctx.done() {
      return;
    }
  }
  for n in LENGTHS {
    for (i, (kind, xml)) in PIECES.iter().enumerate() {
      if ctx.mine() {
        ctx.run(
          || format!("{n} times {xml}"),
          |ctx| {
            if *kind == "text" || n < 5000 {
              one(ctx, &vec![i; n], "rule")?;
            }
            if n < 5000 {
              let mut s = vec![3; n];
              s.push(i);
              one(ctx, &s, "rule")?;
              s.insert(n / 2, 4);
              s.insert(n / 2, 1);
              one(ctx, &s, "rule")?;
            }
            Ok(())
          },
        );
      }
    }
  }
  // properties
  let attrs = ["name", "ref", "id"];
  for m in 0..8usize {
    for val in ["v", "", "ä b", " ", " v", "\tv \n", "\u{a0}v\u{2003}", "V", "<&>\"'"] {
      if !ctx.mine() {
        continue;
      }
      ctx.run(
        || format!("attributes {m:03b} with value {val:?}"),
        |ctx| {
          // one character behind the value keeps the attributes apart
          let esc: String = val.chars().map(|c| format!("&#{};", c as u32)).collect();
          let list: String = (0..3).filter(|i| m >> i & 1 == 1).map(|i| format!(" {}=\"{i}{esc}\"", attrs[i])).collect();
          let xml = format!("<node{list} other=\"q\"><node name=\"inner\" ref=\"inner\" id=\"inner\"/></node>");
          let doc = Parser::default().parse_string(&xml).expect("harness error: generated XML does not parse");
          let node = doc.get_root_readonly().unwrap();
          for (i, a) in attrs.iter().enumerate() {
            let got = require_node_property(node, a);
            if m >> i & 1 == 1 {
              same("required property", &got, &Ok(format!("{i}{val}")))?;
            } else {
              named_err("required property", got.clone(), "node")?;
              named_err("required property", got, a)?;
            }
            ctx.steps(1);
          }
          ctx.state(&(m, val));
          Ok(())
        },
      );
    }
  }
  // every character in a value
  for cs in xml_scalars(ctx.pick(false, true), 64) {
    ctx.case(
      || format!("values with {:?} to {:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        for &c in &cs {
          let e = format!("&#{};", c as u32);
          let xml = format!("<node a=\"{e}\" b=\"{e}x{e}\" c=\"x{e}y\"/>");
          let doc = Parser::default().parse_string(&xml).expect("harness error: generated XML does not parse");
          let node = doc.get_root_readonly().unwrap();
          for (k, v) in [("a", format!("{c}")), ("b", format!("{c}x{c}")), ("c", format!("x{c}y"))] {
            same("required property", &require_node_property(node, k), &Ok(v))?;
          }
          ctx.steps(3);
        }
        Ok(())
      },
    );
  }
  for p in [None, Some(String::new()), Some("x".to_string())] {
    if !ctx.mine() {
      continue;
    }
    ctx.run(
      || format!("repeated property {p:?}"),
      |ctx| {
        ctx.state(&p);
        ctx.steps(1);
        let got = check_found_property_already(&p, "description", "meta");
        if p.is_none() {
          same("repeated property", &got, &Ok(()))
        } else {
          named_err("repeated property", got.clone(), "description")?;
          named_err("repeated property", got, "meta")
        }
      },
    );
  }
  // node kinds
  if ctx.mine() {
    ctx.run(
      || "node kinds".into(),
      |ctx| {
        let doc = Parser::default()
          .parse_string("<r>t<?pi x?><!-- c --><e/><![CDATA[<x>]]><comment/></r>")
          .expect("harness error: generated XML does not parse");
        for n in doc.get_root_readonly().unwrap().get_child_nodes() {
          same("is_comment_node", &is_comment_node(n), &(n.get_type() == Some(NodeType::CommentNode)))?;
          ctx.steps(1);
        }
        ctx.state(&"kinds");
        Ok(())
      },
    );
  }
}
