//! C23 and C31: lexical normalization of words, and the text of headings.
use crate::docref::{lexemes, node_of, numeric, preset};
use crate::dom::{self, el, tx, T};
use crate::text::over;
use crate::words;
use libxml::xpath::Context;
use llamapun::dnm::{DNMParameters, DNMRange, DNM};
use llamapun::tokenizer::Tokenizer;
use llamapun::util::data_helpers::{ams_normalize_word_range, heading_from_node_aux, LexicalOptions};
use mccore::gen::{scalars, seqs, xml_scalars, LENGTHS};
use mccore::{ensure, same, Ctx, Prop, Verdict};

pub const C23: Prop = Prop {
  id: "C23",
  run: run23,
  chunk: 32,
  assumptions: &["the range is one of a text view with back mapping (C01 decides those)", "case mapping and letter classes are the standard library's"],
  bounds: "all words of up to 5 (6 thorough) pieces of a 25-piece alphabet (digits, signs, exponent letters, letters inside and outside a to k, non-ASCII letters whose case mapping changes their length, punctuation, spelled-out tokens) and all words of 20 to 30 bytes over letters of 1 to 4 bytes with every position of one punctuation mark; all documents of up to 3 (4) nodes of 12 kinds (formulas with lexemes, without, in tables and glued to words; citations; text), every word of them and every range within one node's text of up to 40 characters; every character of the first two planes and samples of the others (thorough: every character) in 10 contexts; words of up to 65537 repeated units; up to 257 formulas, lexemes and cells, up to 200 levels; all 8 option combinations",
};
pub const C31: Prop = Prop {
  id: "C31",
  run: run31,
  chunk: 32,
  assumptions: &["the text view and word tokenization are those C02 and C07 decide"],
  bounds: "all headings of up to 4 (5 thorough) pieces of a 15-piece alphabet, flat and nested in a title markup; every character of the first two planes and samples of the others (thorough: every character) in 3 headings; headings of up to 257 pieces of each kind (4097 of texts) and 129 levels",
};

pub fn normalized(word: &str, math: impl Fn() -> String, discard_math: bool, discard_punct: bool, discard_case: bool) -> Option<String> {
  let cased = if discard_case { word.to_lowercase() } else { word.to_string() };
  let kept: String = if discard_punct { cased.chars().filter(|c| c.is_alphanumeric()).collect() } else { cased };
  if kept.len() > 25 {
    return None;
  }
  let low = kept.to_lowercase();
  Some(if low.contains("mathformula") {
    if discard_math { String::new() } else { math() }
  } else if low.contains("citationelement") {
    "citationelement".into()
  } else if numeric(&low) {
    "NUM".into()
  } else {
    kept
  })
}

pub fn options(k: usize) -> LexicalOptions {
  LexicalOptions { discard_math: k & 1 > 0, discard_punct: k & 2 > 0, discard_case: k & 4 > 0 }
}

fn check(r: &DNMRange, context: &mut Context, word: &str, math: &dyn Fn() -> String) -> Verdict {
  for k in 0..8 {
    let want = normalized(word, math, k & 1 > 0, k & 2 > 0, k & 4 > 0);
    let got = ams_normalize_word_range(r, context, options(k)).ok();
    ensure(got == want, || {
      format!(
        "{word:?} becomes {got:?}, expected {want:?} (discard_math {}, discard_punct {}, discard_case {})",
        k & 1 > 0,
        k & 2 > 0,
        k & 4 > 0
      )
    })?;
  }
  Ok(())
}

fn math(lex: Option<&str>) -> T {
  let mut kids = vec![el("mi", &[], vec![tx("x")])];
  if let Some(l) = lex {
    kids.push(el("annotation", &[("encoding", "application/x-llamapun")], vec![tx(l)]));
  }
  el("math", &[], kids)
}

fn merged(kids: Vec<T>) -> Vec<T> {
  let mut out: Vec<T> = Vec::new();
  for k in kids {
    match (out.last_mut(), k) {
      (Some(T::Text(a)), T::Text(b)) => a.push_str(&b),
      (_, k) => out.push(k),
    }
  }
  out
}

fn piece(k: usize) -> T {
  match k {
    0 => math(Some("UNKNOWN:x RELOP:less-than")),
    1 => math(None),
    2 => math(Some("NUMBER:7")),
    3 => tx("-Dim "),
    4 => el("cite", &[], vec![tx("[1]")]),
    5 => el("table", &[("class", "ltx_equation")], vec![math(Some("ID:a")), math(Some("ID:b"))]),
    6 => tx("X"),
    7 => el("em", &[], vec![tx("ÀB’s"), math(Some("ID:c"))]),
    8 => tx(" 12"),
    9 => el("table", &[], vec![tx("gone")]),
    10 => el("a", &[("class", "ltx_ref")], vec![tx("4.2")]),
    11 => T::Comment("c".into()),
    _ => unreachable!(),
  }
}

fn run23(ctx: &mut Ctx) {
  let host = dom::parse(&el("p", &[], vec![tx("x")]));
  let mut context = Context::new(&host.doc).unwrap();
  let none = || "mathformula".to_string();
  let whole = |ctx: &mut Ctx, context: &mut Context, text: &str| -> Verdict {
    let d = over(text, &[host.nodes[1]]);
    ctx.state(text);
    ctx.steps(8);
    let n = text.chars().count();
    check(&DNMRange { start: 0, end: n, dnm: &d }, context, text, &none)
  };
  let alpha = [
    "1", "20", "\u{661}", ".", "-", "+", "e", "E", "a", "k", "K", "l", "Z", "'", "’", "ß", "İ", "ΑΣ", "É", "ſ", "漢", "½", " ",
    "MathFormula", "CitationElement",
  ];
  let core = 8;
  for s in seqs(alpha.len(), 0, 2) {
    let tail = ctx.pick(3, 4);
    ctx.case(
      || format!("words starting {:?}", s.iter().map(|&i| alpha[i]).collect::<String>()),
      |ctx| {
        for t in seqs(if s.len() < 2 { 0 } else { alpha.len() }, 0, if s.len() < 2 { 0 } else { tail }) {
          let text: String = s.iter().chain(&t).map(|&i| alpha[i]).collect();
          whole(ctx, &mut context, &text)?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // longer numbers
  for s in seqs(core, 1, 1) {
    ctx.case(
      || format!("numbers starting {:?}", alpha[s[0]]),
      |ctx| {
        for t in seqs(core + 1, 5, ctx.pick(6, 7)) {
          let text: String = s.iter().chain(&t).map(|&i| alpha[i]).collect();
          whole(ctx, &mut context, &text)?;
        }
        Ok(())
      },
    );
  }
  // lengths around the limit
  for total in 20..=30usize {
    for (wide, w) in [("a", 1), ("É", 2), ("漢", 3), ("𝒳", 4), ("İ", 2), ("Ⱥ", 2)] {
      ctx.case(
        || format!("words of {total} bytes with {wide:?}"),
        |ctx| {
          for many in 0..=total / w {
            let mut cs: Vec<char> = wide.repeat(many).chars().collect();
            cs.extend("b".repeat(total - many * w).chars());
            whole(ctx, &mut context, &cs.iter().collect::<String>())?;
            for at in 0..=cs.len() {
              for mark in ["-", "’", "\u{301}", "'s"] {
                let text: String = cs[..at].iter().collect::<String>() + mark + &cs[at..].iter().collect::<String>();
                whole(ctx, &mut context, &text)?;
              }
            }
          }
          Ok(())
        },
      );
    }
  }
  // every character
  for cs in scalars(ctx.pick(false, true), 64) {
    ctx.case(
      || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        for c in &cs {
          let many = c.to_string().repeat(25 / c.len_utf8());
          for w in [format!("{c}"), format!("a{c}b"), format!("1{c}2"), format!("{c}1."), format!("3e{c}"), format!("{c}{}", "b".repeat(24)), format!("b{many}"), many.clone(), format!("math{c}formula"), format!("CitationElement{c}")] {
            whole(ctx, &mut context, &w)?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  for n in LENGTHS {
    for unit in ["1", "a", "-", "É", "漢-", "mathformula", "1.", "’", "citationelement", "0e"] {
      ctx.case(
        || format!("{n} times {unit:?}"),
        |ctx| {
          let w = unit.repeat(n);
          whole(ctx, &mut context, &w)?;
          whole(ctx, &mut context, &format!("{}x", "-".repeat(n)))?;
          whole(ctx, &mut context, &format!("1{}", &w))
        },
      );
    }
  }
  // long formulas, and many of them
  for n in LENGTHS.into_iter().filter(|n| *n < 300) {
    ctx.case(
      || format!("{n} formulas, and a formula of {n} lexemes"),
      |ctx| {
        let long: String = (0..n).map(|i| format!("{}:{i} ", ["ID", "UNKNOWN", "NUMBER", "RELOP"][i % 4])).collect();
        let long = long.trim_end();
        let mut kids = vec![math(Some(long))];
        let mut deep = math(Some(long));
        for i in 0..n {
          kids.push(tx(&format!(" x{i}")));
          kids.push(math(if i % 3 == 2 { None } else { Some(&long[..long.find(' ').unwrap_or(long.len())]) }));
          if i < 200 {
            deep = el(["em", "p", "span"][i % 3], &[], vec![tx(" a "), deep]);
          }
        }
        kids.push(el("table", &[("class", "ltx_equation")], (0..n).map(|i| math(Some(["ID:a", "ID:b c"][i % 2]))).collect()));
        for t in [el("div", &[], kids), el("div", &[], vec![deep])] {
          let p = dom::parse(&t);
          let mut context = Context::new(&p.doc).unwrap();
          let dnm = DNM::new(p.nodes[0], DNMParameters::llamapun_normalization());
          let v = preset(&t);
          let all = t.all();
          same("the plain text", &dnm.plaintext, &v.chars.iter().collect::<String>())?;
          for (a, b) in words::words(&v.chars) {
            let word: String = v.chars[a..b].iter().collect();
            ctx.steps(8);
            check(&DNMRange { start: a, end: b, dnm: &dnm }, &mut context, &word, &|| lexemes(all[node_of(&t, &v, a, b)]))?;
          }
        }
        Ok(())
      },
    );
  }
  // formulas in documents
  let mut docs: Vec<T> = Vec::new();
  for s in seqs(12, 0, ctx.pick(3, 4)) {
    docs.push(el("div", &[], merged(s.iter().map(|&k| piece(k)).collect())));
    if s.len() == 3 {
      docs.push(el("div", &[], vec![piece(s[0]), el("p", &[], merged(vec![piece(s[1]), piece(s[2])]))]));
    }
  }
  for some in docs.chunks(4) {
    ctx.case(
      || format!("words of {:?}", some.iter().map(T::xml).collect::<Vec<_>>()),
      |ctx| {
        for t in some {
          let p = dom::parse(t);
          let mut context = Context::new(&p.doc).unwrap();
          let dnm = DNM::new(p.nodes[0], DNMParameters::llamapun_normalization());
          let v = preset(t);
          let all = t.all();
          same("the plain text", &dnm.plaintext, &v.chars.iter().collect::<String>())?;
          ctx.state(&dnm.plaintext);
          let n = v.chars.len();
          let words = words::words(&v.chars).into_iter().chain(words::items(&v.chars));
          let few = (0..=n).flat_map(|a| (a + 1..=n.min(a + 40)).map(move |b| (a, b))).filter(|(a, b)| {
            // parts of one node's text; words never mix a formula with other text
            v.back[*a..*b].iter().all(|x| x.0 == v.back[*a].0)
          });
          for (a, b) in words.chain(few) {
            let word: String = v.chars[a..b].iter().collect();
            ctx.steps(8);
            check(&DNMRange { start: a, end: b, dnm: &dnm }, &mut context, &word, &|| lexemes(all[node_of(t, &v, a, b)]))
              .map_err(|mut e| {
                e.msg = format!("{}: {}", t.xml(), e.msg);
                e
              })?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
}

pub fn heading(t: &T) -> Option<String> {
  let v = preset(t);
  let all = t.all();
  let mut out = String::new();
  for (a, b) in words::words(&v.chars) {
    let w: String = v.chars[a..b].iter().collect();
    let w = normalized(&w, || lexemes(all[node_of(t, &v, a, b)]), false, true, true)?;
    if !w.is_empty() && w != "NUM" {
      out += &w;
      out += " ";
    }
  }
  Some(out)
}

fn run31(ctx: &mut Ctx) {
  let tok = Tokenizer::default();
  let piece = |k: usize| match k {
    12 => tx("Theorem "),
    13 => tx("aWordOfExactly26CharactersX "),
    14 => el("span", &[("class", "ltx_tag")], vec![tx("1.2 ")]),
    k => piece(k),
  };
  // nested replaces a formula that stands for the whole heading
  let make = |s: &[usize], how: usize| -> T {
    let kids = merged(s.iter().map(|&k| piece(k)).collect());
    match how {
      0 => el("h2", &[("class", "ltx_title ltx_title_section")], kids),
      _ => el("h6", &[("class", "ltx_title")], vec![tx(" "), el("em", &[], kids), tx("\n")]),
    }
  };
  let whole = |ctx: &mut Ctx, t: &T| -> Verdict {
    let p = dom::parse(t);
    let mut context = Context::new(&p.doc).unwrap();
    ctx.steps(1);
    ctx.state(t);
    same("the heading text", &heading_from_node_aux(p.nodes[0], &tok, &mut context), &heading(t))
  };
  for cs in xml_scalars(ctx.pick(false, true), 64) {
    ctx.case(
      || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        cs.iter().try_for_each(|c| {
          [format!("{c}"), format!("A{c}B {c} c{c}"), format!("1{c}2 {c}'s {c}{c} X")]
            .iter()
            .try_for_each(|w| whole(ctx, &el("h2", &[("class", "ltx_title")], vec![tx(w)])))
        })
      },
    );
    if ctx.done() {
      return;
    }
  }
  for n in LENGTHS.into_iter().filter(|n| *n < 5000) {
    for k in 0..15 {
      ctx.case(
        || format!("{n} times piece {k}"),
        |ctx| {
          if k < 14 && n < 300 || [3, 6, 8, 12, 13].contains(&k) {
            let sep = |i: usize| tx([" a ", "-", " "][i % 3]);
            whole(ctx, &make(&vec![k; n], 0))?;
            whole(ctx, &el("h2", &[], merged((0..n).flat_map(|i| [piece(k), sep(i)]).collect())))?;
          }
          if n < 200 {
            let mut t = merged(vec![piece(k), tx(" end")]);
            for i in 0..n {
              t = merged(vec![tx("B "), el(["em", "span"][i % 2], &[], t), tx(" é")]);
            }
            whole(ctx, &el("h3", &[], t))?;
          }
          Ok(())
        },
      );
    }
  }
  for s in seqs(15, 0, ctx.pick(4, 5)) {
    if !ctx.mine() {
      if ctx.done() {
        return;
      }
      continue;
    }
    ctx.run(
      || format!("the heading {}", make(&s, 0).xml()),
      |ctx| {
        for how in 0..2 {
          let t = make(&s, how);
          let p = dom::parse(&t);
          let mut context = Context::new(&p.doc).unwrap();
          ctx.steps(1);
          ctx.state(&t.xml());
          let want = heading(&t);
          same("the heading text", &heading_from_node_aux(p.nodes[0], &tok, &mut context), &want)?;
          if s.len() <= 3 {
            // the same from within a document, and again with the same context
            let body = el("body", &[], vec![tx("before "), t.clone(), tx(" after")]);
            let q = dom::parse(&body);
            let mut context = Context::new(&q.doc).unwrap();
            for _ in 0..2 {
              same("the heading text in a document", &heading_from_node_aux(q.nodes[2], &tok, &mut context), &want)?;
            }
          }
        }
        Ok(())
      },
    );
  }
}
