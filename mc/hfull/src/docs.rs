//! C21 and C22: selecting nodes of a document, and iterating it through both interfaces.
use crate::docref::Doc;
use crate::dom::{self, el, tx, T};
use crate::refdnm::P;
use libxml::readonly::RoNode;
use llamapun::dnm::{DNMParameters, DNM};
use llamapun::parallel_data::XPathFilteredIterator;
use llamapun::tokenizer::Tokenizer;
use llamapun::{data, parallel_data};
use senna::pos::POS;
use mccore::gen::{forests, seqs, LENGTHS};
use mccore::{ensure, same, Ctx, Prop, Verdict};
use std::cell::Cell;

pub const C21: Prop = Prop {
  id: "C21",
  run: run21,
  chunk: 64,
  assumptions: &["libxml2 gives the DOM of the generated XML (checked for every tree) and evaluates XPath as specified"],
  bounds: "all trees of up to 3 nodes below the root over 41 element labels (every element name and class the selectors mention, near misses, combined classes and error markup), of 4 nodes over 12 (thorough: 22) and, thorough, of 5 nodes over 9; every label in up to 257 (12 of them 257) siblings with an error among them, in chains of up to 129 with an error below, and beside up to 129 other classes; every class and element name the selectors mention with a character less, more or changed, cut or split, in every place they look at; all selectors of both interfaces, custom XPath and closure selectors",
};
pub const C22: Prop = Prop {
  id: "C22",
  run: run22,
  chunk: 16,
  assumptions: &["the tokenizer and the text views are decided by C01, C02, C05 to C07", "Senna is a stand-in giving tokens at recorded byte offsets"],
  bounds: "all documents of up to 3 (4 thorough) blocks of an 18-block menu (paragraphs of every kind, nested, with error markup, formulas, references, blank, non-ASCII, headings, captions), of up to 257 equal blocks, and of one block of 257 parts or 64 levels, under 4 corpus parameter settings, through every iterator of both interfaces, twice",
};

fn index(nodes: &[RoNode], got: &[RoNode]) -> Result<Vec<usize>, String> {
  got.iter().map(|g| nodes.iter().position(|n| n == g).ok_or_else(|| "a selected node is not in the document".to_string())).collect()
}

thread_local! {
  static SEQ: &'static data::Corpus = Box::leak(Box::new(data::Corpus::default()));
  static PAR: &'static parallel_data::Corpus = Box::leak(Box::new(parallel_data::Corpus::default()));
}

fn selectors(ctx: &mut Ctx, t: &T) -> Verdict {
  let want = Doc::new(t);
  let p = dom::parse(t);
  let doc = parallel_data::Document { dom: p.doc, path: String::new(), corpus: PAR.with(|c| *c), dnm: None };
  let ix = |v: Vec<RoNode>| index(&p.nodes, &v);
  let it = |v: parallel_data::RoNodeIterator| index(&p.nodes, &v.map(|i| i.dnm.root_node).collect::<Vec<_>>());
  same("headings", &ix(doc.get_heading_nodes())?, &want.headings())?;
  same("heading_iter", &it(doc.heading_iter())?, &want.headings())?;
  same("paragraphs", &ix(doc.get_paragraph_nodes())?, &want.paragraphs())?;
  same("paragraph_iter", &it(doc.paragraph_iter())?, &want.paragraphs())?;
  same("math nodes", &ix(doc.get_math_nodes())?, &want.maths())?;
  same("reference nodes", &ix(doc.get_ref_nodes())?, &want.refs())?;
  same("extended_paragraph_iter", &it(doc.extended_paragraph_iter())?, &want.extended())?;
  let divs: Vec<usize> = (0..want.all.len()).filter(|&i| want.all[i].name() == "div").collect();
  let path = "//*[local-name()='div']";
  same("get_xpath_nodes", &ix(doc.get_xpath_nodes(path))?, &divs)?;
  same("get_xpath_node", &ix(doc.get_xpath_node(path).into_iter().collect())?, &divs.iter().take(1).copied().collect())?;
  same("xpath_selector_iter", &it(doc.xpath_selector_iter(path))?, &divs)?;
  for bad in ["//*[", "", "nope:x", "1+1", "///"] {
    ensure(doc.get_xpath_nodes(bad).is_empty() && doc.get_xpath_node(bad).is_none() && doc.xpath_selector_iter(bad).next().is_none(), || {
      format!("the selector {bad:?} selects something")
    })?;
  }
  let classed: Vec<usize> = (0..want.all.len()).filter(|&i| want.all[i].attr("class").is_some_and(|c| c.contains("ltx_p"))).collect();
  let f = |n: &RoNode| n.get_property("class").is_some_and(|c| c.contains("ltx_p"));
  same("filter_iter", &it(doc.filter_iter(&f))?, &classed)?;
  let every: Vec<usize> = (0..want.all.len()).collect();
  same("filter_iter over everything", &it(doc.filter_iter(&|_| true))?, &every)?;
  same("filter_iter over nothing", &it(doc.filter_iter(&|_| false))?, &vec![])?;
  ctx.steps(14);
  ctx.state(t);
  // the sequential interface
  let q = dom::parse(t);
  same("sequential paragraph_nodes", &index(&q.nodes, &data::Document::paragraph_nodes(&q.doc))?, &want.paragraphs())?;
  let mut doc = data::Document { dom: q.doc, path: String::new(), corpus: SEQ.with(|c| *c), dnm: None };
  same("sequential math nodes", &index(&q.nodes, &doc.get_math_nodes())?, &want.maths())?;
  same("sequential reference nodes", &index(&q.nodes, &doc.get_ref_nodes())?, &want.refs())?;
  let got: Vec<RoNode> = doc.paragraph_iter().map(|p| p.dnm.root_node).collect();
  same("sequential paragraph_iter", &index(&q.nodes, &got)?, &want.paragraphs())
}

const LABELS: [(&str, &str); 41] = [
  ("div", "ltx_para"),
  ("div", ""),
  ("p", "ltx_p"),
  ("span", "ltx_ERROR undefined"),
  ("div", "ltx_abstract"),
  ("figcaption", "ltx_caption"),
  ("h2", "ltx_title ltx_title_section"),
  ("div", "ltx_keywords"),
  ("div", "ltx_acknowledgement"),
  ("math", "ltx_Math"),
  ("a", "ltx_ref"),
  ("m:div", "ltx_para"),
  ("span", "ltx_ref ltx_ref_self"),
  ("div", "ltx_abstract ltx_ERROR"),
  ("div", "ltx_para ltx_keywords"),
  ("h1", "ltx_title ltx_title_document"),
  ("section", "ltx_para"),
  ("p", ""),
  ("figcaption", "ltx_caption ltx_ERROR"),
  ("math", ""),
  ("div", "x ltx_paras"),
  ("h6", "ltx_title"),
  ("m:math", ""),
  ("span", "x ltx_ref"),
  ("a", "ltx_refx"),
  ("a", "xltx_ref y"),
  ("span", "\nltx_ref\t"),
  ("cite", "ltx_ref"),
  ("m:a", "ltx_ref y"),
  ("h7", "ltx_title"),
  ("h3", "ltx_titles"),
  ("h4", "title"),
  ("h5", "ltx_title_document"),
  ("m:h3", "x ltx_title"),
  ("span", "ltx_title"),
  ("section", "ltx_abstract"),
  ("p", "x ltx_para"),
  ("div", "ltx_acknowledgements"),
  ("section", "ltx_keywords"),
  ("m:figcaption", "x ltx_caption y"),
  ("div", "ltx_p ltx_caption"),
];

/// strings close to `s`: a character less, another one more, of other case, cut, split
fn close(s: &str) -> Vec<String> {
  let cs: Vec<char> = s.chars().collect();
  let join = |v: &[char]| v.iter().collect::<String>();
  let mut out = vec![s.to_uppercase(), format!("{s}{s}"), format!("{s} {s}"), s.replace('_', "-")];
  for i in 0..=cs.len() {
    out.extend([join(&cs[..i]), join(&cs[i..])]);
    for x in ['s', '_', ' ', '1', '\u{e9}'] {
      out.push(format!("{}{x}{}", join(&cs[..i]), join(&cs[i..])));
    }
    if i < cs.len() {
      out.push(format!("{}{}", join(&cs[..i]), join(&cs[i + 1..])));
      let other = if cs[i].is_uppercase() { cs[i].to_ascii_lowercase() } else { cs[i].to_ascii_uppercase() };
      out.push(format!("{}{other}{}", join(&cs[..i]), join(&cs[i + 1..])));
      out.push(format!("{}x{}", join(&cs[..i]), join(&cs[i + 1..])));
    }
  }
  out.push(s.to_string());
  out.sort();
  out.dedup();
  out
}

/// classes and element names close to the ones the selectors mention, in every place those look at
fn near(ctx: &mut Ctx) {
  const CLASSES: [&str; 11] =
    ["ltx_title", "ltx_title_document", "ltx_ERROR", "ltx_para", "ltx_abstract", "ltx_p", "ltx_keywords", "ltx_acknowledgement", "ltx_caption", "ltx_ref", "ltx_Math"];
  const NAMES: [&str; 12] = ["div", "p", "span", "a", "h1", "h2", "h3", "h4", "h5", "h6", "figcaption", "math"];
  let ns = &[("xmlns:m", "urn:m")][..];
  for class in CLASSES {
    for c in close(class) {
      ctx.case(
        || format!("the class {c:?}"),
        |ctx| {
          for more in ["", "ltx_title", "ltx_para", "ltx_title_document"] {
            let c = [c.as_str(), more].join(" ").trim_end_matches(if more.is_empty() { ' ' } else { '\0' }).to_string();
            let e = |n: &str, kids: Vec<T>| el(n, &[("class", &c)], kids);
            let inner = || vec![el("p", &[("class", "ltx_p")], vec![tx("x")]), e("p", vec![tx("y")]), e("span", vec![])];
            selectors(ctx, &el("r", ns, NAMES.iter().map(|n| e(n, inner())).collect()))?;
            // inside of and before every kind of node
            let mut kids = Vec::new();
            for (n, k) in &LABELS[..23] {
              kids.push(el("section", &[], vec![el(n, &[("class", k)], vec![e("span", vec![])]), tx("t")]));
              kids.push(el("section", &[], vec![e("span", vec![]), el("b", &[], vec![]), el(n, &[("class", k)], vec![el("p", &[("class", "ltx_p")], vec![])])]));
            }
            selectors(ctx, &el("r", ns, kids))?;
          }
          Ok(())
        },
      );
    }
    if ctx.done() {
      return;
    }
  }
  let mut names: Vec<String> = NAMES.iter().flat_map(|n| close(n)).collect();
  names.extend(["h0", "h7", "h8", "h9", "h10", "h11", "h61", "h", "H1", "cite", "caption", "body", "article", "m:h2", "m:p", "m:span"].map(str::to_string));
  names.retain(|n| !n.contains(' ') && n.starts_with(|c: char| c.is_alphabetic()));
  names.sort();
  names.dedup();
  for n in names {
    ctx.case(
      || format!("the element {n:?}"),
      |ctx| {
        let mut kids = Vec::new();
        for class in CLASSES {
          kids.push(el(&n, &[("class", class)], vec![el("p", &[("class", "ltx_p")], vec![]), el(&n, &[("class", class)], vec![])]));
          kids.push(el("div", &[("class", class)], vec![el(&n, &[("class", "ltx_p")], vec![]), el(&n, &[], vec![])]));
        }
        selectors(ctx, &el("r", ns, kids.clone()))?;
        for k in kids {
          selectors(ctx, &el("r", ns, vec![k, el(&n, &[("class", "ltx_ERROR")], vec![]), el("div", &[("class", "ltx_para")], vec![])]))?;
        }
        Ok(())
      },
    );
  }
}

fn run21(ctx: &mut Ctx) {
  let make = |k: usize, kids: Vec<T>| {
    let (n, c) = LABELS[k];
    let class = [("class", c)];
    el(n, if c.is_empty() { &[] } else { &class }, kids)
  };
  rootless(ctx);
  near(ctx);
  // large documents
  let ns = &[("xmlns:m", "urn:m")][..];
  for n in LENGTHS.into_iter().filter(|n| *n < 2000) {
    for k in 0..LABELS.len() {
      ctx.case(
        || format!("{n} times label {k}"),
        |ctx| {
          let other = (k * 7 + n) % LABELS.len();
          let error = || make(3, vec![]);
          // siblings, with an error far away
          if n < 300 || k < 12 {
            selectors(ctx, &el("r", ns, (0..n).map(|i| make(if i % 5 == 4 { other } else { k }, vec![])).collect()))?;
          }
          if n > 300 {
            return Ok(());
          }
          let mut kids: Vec<T> = (0..n).map(|_| make(k, vec![])).collect();
          kids.insert(n / 2, error());
          selectors(ctx, &el("r", ns, kids))?;
          // a chain, with an error at its end
          if n < 200 {
            for end in [tx("x"), error(), make(other, vec![])] {
              let t = (0..n).fold(end, |t, i| make(if i % 4 == 3 { 17 } else { k }, vec![t]));
              selectors(ctx, &el("r", ns, vec![t]))?;
            }
            // many classes
            let filler: String = (0..n).map(|i| format!("c{i} ")).collect();
            let (name, class) = LABELS[k];
            for c in [format!("{filler}{class}"), format!("{class} {filler}"), format!("{}{class}", "y".repeat(n))] {
              selectors(ctx, &el("r", ns, vec![el(name, &[("class", &c)], vec![make(other, vec![])]), make(k, vec![])]))?;
            }
          }
          Ok(())
        },
      );
    }
    if ctx.done() {
      return;
    }
  }
  for (n, m) in [(1, 41), (2, 41), (3, 41), (4, ctx.pick(12, 22)), (5, ctx.pick(0, 9))] {
    for shape in forests(n) {
      for l in seqs(m, n, n) {
        if ctx.mine() {
          let kids = dom::label_forest(&shape, &l, &make);
          // a first label of the quick set varies the root as well
          let root = if n < 3 && l[0] % 2 == 1 { &[("xmlns:m", "urn:m"), ("class", "ltx_para ltx_ERROR ltx_ref")][..] } else { &[("xmlns:m", "urn:m")][..] };
          let t = el(if n < 3 && l[0] % 4 == 3 { "div" } else { "r" }, root, kids);
          ctx.run(|| t.xml(), |ctx| selectors(ctx, &t));
        }
        if ctx.done() {
          return;
        }
      }
    }
  }
}

fn blocks(k: usize) -> T {
  let p = |kids: Vec<T>| el("div", &[("class", "ltx_para")], vec![el("p", &[("class", "ltx_p")], kids)]);
  let math = || el("math", &[("class", "ltx_Math")], vec![el("mi", &[], vec![tx("x")])]);
  match k {
    0 => p(vec![tx("One sentence. Another one here! And\na third?")]),
    1 => p(vec![]),
    2 => p(vec![tx("  \n ")]),
    3 => p(vec![tx("Let "), math(), tx(" be. Then "), math(), tx(".")]),
    4 => p(vec![tx("Éa\u{a0}ü it's — can’t. Ωm Ü.")]),
    5 => p(vec![tx("x "), el("span", &[("class", "ltx_ERROR")], vec![tx("\\bad")])]),
    6 => el("p", &[], vec![tx("Loose text. More")]),
    7 => el("span", &[("class", "ltx_ERROR")], vec![tx("E")]),
    8 => el("h2", &[("class", "ltx_title ltx_title_section")], vec![tx("1 Proof")]),
    9 => el("div", &[("class", "ltx_para")], vec![tx("outer. "), p(vec![tx("Inner. See "), el("a", &[("class", "ltx_ref")], vec![tx("3")])])]),
    10 => el("table", &[("class", "ltx_equation")], vec![math()]),
    11 => p(vec![el("table", &[("class", "ltx_equation")], vec![math()]), tx(" (1). Here "), el("cite", &[], vec![tx("[1]")])]),
    12 => tx(" Bare text! "),
    13 => el("figcaption", &[("class", "ltx_caption")], vec![tx("Figure 1. A cat.")]),
    14 => T::Comment(" no ".into()),
    15 => el("section", &[("class", "ltx_section")], vec![p(vec![tx("In a section. Twice.")]), p(vec![tx("'quoted' (x) a.b")])]),
    16 => p(vec![tx("? ! . … '")]),
    17 => el("div", &[("class", "ltx_abstract")], vec![el("p", &[("class", "ltx_p")], vec![tx("We show it. It is")])]),
    _ => unreachable!(),
  }
}
const BLOCKS: usize = 18;

type Sent = (String, Vec<String>);

fn both(ctx: &mut Ctx, t: &T, set: usize, seq: &data::Corpus, par: &parallel_data::Corpus, tok: &Tokenizer) -> Verdict {
  let params = &seq.dnm_parameters;
  let a = dom::parse(t);
  let b = dom::parse(t);
  // as the tokenizer has it
  let sents = |d: &DNM| -> Vec<Sent> {
    tok
      .sentences(d)
      .iter()
      .filter(|s| !s.is_empty())
      .map(|s| (s.get_plaintext().to_string(), tok.words(s).iter().filter(|w| !w.is_empty()).map(|w| w.get_plaintext().to_string()).collect()))
      .collect()
  };
  let paras = Doc::new(t).paragraphs();
  let want: Vec<(usize, Vec<Sent>)> =
    paras.iter().map(|&i| (i, sents(&DNM::new(a.nodes[i], DNMParameters::llamapun_normalization())))).collect();
  let whole = sents(&DNM::new(a.nodes[0], params.clone()));
  let puncts: Vec<Vec<String>> = paras
    .iter()
    .map(|&i| {
      let d = DNM::new(a.nodes[i], DNMParameters::llamapun_normalization());
      let r = d.get_range().unwrap();
      tok.words_and_punct(&r).iter().map(|w| w.get_plaintext().to_string()).collect()
    })
    .collect();
  let plain: Vec<Vec<String>> = paras
    .iter()
    .map(|&i| {
      let d = DNM::new(a.nodes[i], DNMParameters::llamapun_normalization());
      let r = d.get_range().unwrap();
      tok.words(&r).iter().map(|w| w.get_plaintext().to_string()).collect()
    })
    .collect();

  let mut doc = data::Document { dom: a.doc, path: "p".into(), corpus: seq, dnm: None };
  for round in 0..2 {
    let mut got = Vec::new();
    for mut p in doc.paragraph_iter() {
      let i = index(&a.nodes, &[p.dnm.root_node])?[0];
      let mut ss = Vec::new();
      for mut s in p.iter() {
        let text = s.range.get_plaintext().to_string();
        let w: Vec<String> = s.simple_iter().map(|w| w.range.get_plaintext().to_string()).collect();
        ss.push((text, w));
      }
      got.push((i, ss));
    }
    same(&format!("sequential paragraphs, round {round}"), &got, &want)?;
    let mut ss = Vec::new();
    for mut s in doc.sentence_iter() {
      let text = s.range.get_plaintext().to_string();
      let w: Vec<String> = s.simple_iter().map(|w| w.range.get_plaintext().to_string()).collect();
      ss.push((text, w));
    }
    same(&format!("sequential sentences, round {round}"), &ss, &whole)?;
    ctx.steps(2);
  }
  let senna = senna_words(&mut doc)?;
  let mut pdoc = parallel_data::Document { dom: b.doc, path: "p".into(), corpus: par, dnm: None };
  for round in 0..2 {
    let mut got = Vec::new();
    let (mut pw, mut pp, mut ps) = (Vec::new(), Vec::new(), Vec::new());
    for mut p in pdoc.paragraph_iter() {
      let i = index(&b.nodes, &[p.dnm.root_node])?[0];
      let mut ss = Vec::new();
      for mut s in p.iter() {
        let text = s.range.get_plaintext().to_string();
        let w: Vec<String> = s.word_iter().map(|w| w.range.get_plaintext().to_string()).collect();
        ss.push((text, w));
      }
      got.push((i, ss));
    }
    for mut p in pdoc.paragraph_iter() {
      pw.push(p.word_iter().map(|w| w.range.get_plaintext().to_string()).collect::<Vec<_>>());
    }
    for mut p in pdoc.paragraph_iter() {
      pp.push(p.word_and_punct_iter().map(|w| w.range.get_plaintext().to_string()).collect::<Vec<_>>());
    }
    for mut p in pdoc.paragraph_iter() {
      for mut s in p.iter() {
        let r = s.range.clone();
        let want: Vec<String> = tok.words_and_punct(&r).iter().map(|w| w.get_plaintext().to_string()).collect();
        let got: Vec<String> = s.word_and_punct_iter().map(|w| w.range.get_plaintext().to_string()).collect();
        ps.push((got, want));
      }
    }
    same(&format!("parallel paragraphs, round {round}"), &got, &want)?;
    same("words of parallel paragraphs", &pw, &plain)?;
    same("words and punctuation of parallel paragraphs", &pp, &puncts)?;
    for (g, w) in ps {
      same("words and punctuation of a parallel sentence", &g, &w)?;
    }
    let mut ss = Vec::new();
    for mut s in pdoc.sentence_iter() {
      let text = s.range.get_plaintext().to_string();
      let w: Vec<String> = s.word_iter().map(|w| w.range.get_plaintext().to_string()).collect();
      ss.push((text, w));
    }
    same(&format!("parallel sentences, round {round}"), &ss, &whole)?;
    ctx.steps(5);
  }
  same("math nodes", &index(&b.nodes, &pdoc.get_math_nodes())?, &index(&a.nodes, &doc.get_math_nodes())?)?;
  same("reference nodes", &index(&b.nodes, &pdoc.get_ref_nodes())?, &index(&a.nodes, &doc.get_ref_nodes())?)?;
  same("words through Senna", &senna, &whole.iter().map(|s| parts(&s.0).into_iter().map(|(a, b, p)| (s.0[a..b].to_string(), p)).collect::<Vec<_>>()).collect::<Vec<_>>())?;
  ctx.state(&(t, set));
  Ok(())
}

/// files that parse, but hold no element
fn rootless(ctx: &mut Ctx) {
  for text in [" ", "<!DOCTYPE html>", "<!-- a -->", "<?pi x?>", "\n\n"] {
    for xml in [false, true] {
      ctx.case(
        || format!("the document {text:?} read as {}", if xml { "XML" } else { "HTML" }),
        |ctx| {
          let file = ctx.scratch.join(if xml { "rootless.xhtml" } else { "rootless.html" });
          std::fs::write(&file, text).unwrap();
          let path = file.to_str().unwrap().to_string();
          let par = PAR.with(|c| *c);
          if let Ok(mut d) = parallel_data::Document::new(path.clone(), par) {
            ensure(d.dom.get_root_readonly().is_none(), || "harness error: the document has a root".into())?;
            for nodes in [d.get_heading_nodes(), d.get_paragraph_nodes(), d.get_math_nodes(), d.get_ref_nodes(), d.get_xpath_nodes("//*")] {
              same("nodes", &nodes, &vec![])?;
            }
            ensure(d.extended_paragraph_iter().next().is_none(), || "a paragraph".into())?;
            ensure(d.filter_iter(&|_| true).next().is_none(), || "a filtered node".into())?;
            ensure(d.sentence_iter().next().is_none(), || "a sentence".into())?;
          }
          if let Ok(mut d) = data::Document::new(path, SEQ.with(|c| *c)) {
            ensure(d.paragraph_iter().next().is_none(), || "a paragraph".into())?;
            ensure(d.sentence_iter().next().is_none(), || "a sentence".into())?;
          }
          let _ = std::fs::remove_file(&file);
          Ok(())
        },
      );
    }
  }
}

/// every sentence of the document as Senna's words, through the stand-in's tokenizer
/// what the Senna stand-in finds in a sentence: tags of every sort, some words without one, empty ones, words that overlap
fn parts(s: &str) -> senna::senna::Tokens {
  let tags = [POS::NN, POS::NOT_SET, POS::WPS, POS::DOT, POS::VBZ];
  let mut out: senna::senna::Tokens = senna::senna::tokenize(s).into_iter().enumerate().map(|(i, (a, b, _))| (a, b, tags[(i + b) % tags.len()])).collect();
  if let (Some(f), Some(l)) = (out.first().copied(), out.last().copied()) {
    if s.len() % 3 == 0 {
      out.push((f.0, l.1, POS::FW));
      out.push((l.1, l.1, POS::NN));
    }
  }
  out
}
fn senna_words(doc: &mut data::Document) -> Result<Vec<Vec<(String, POS)>>, String> {
  senna::senna::set_hook(Some(parts));
  let mut out = Vec::new();
  for mut s in doc.sentence_iter() {
    let mut words = Vec::new();
    for w in s.senna_iter() {
      words.push((w.range.get_plaintext().to_string(), w.pos));
    }
    out.push(words);
  }
  senna::senna::set_hook(None);
  Ok(out)
}

fn run22(ctx: &mut Ctx) {
  let settings = [
    P::llamapun().real(),
    DNMParameters::default(),
    P { ws: true, wrap: true, lower: true, ..P::llamapun() }.real(),
    P { ws: false, uni: false, back: false, ..P::default() }.real(),
  ];
  let tok = Tokenizer::default();
  let seq: Vec<data::Corpus> =
    settings.iter().map(|p| data::Corpus { dnm_parameters: p.clone(), ..data::Corpus::default() }).collect();
  let par: Vec<parallel_data::Corpus> =
    settings.iter().map(|p| parallel_data::Corpus { dnm_parameters: p.clone(), ..parallel_data::Corpus::default() }).collect();
  rootless(ctx);
  // large documents
  for n in LENGTHS.into_iter().filter(|n| *n < 300) {
    for k in 0..BLOCKS {
      ctx.case(
        || format!("{n} times block {k}"),
        |ctx| {
          let other = (k * 5 + n) % BLOCKS;
          let mut bodies = vec![(0..n).flat_map(|i| [blocks(k), if i % 3 == 1 { blocks(other) } else { T::Comment("c".into()) }]).collect::<Vec<T>>()];
          if let T::El(name, a, kids) = blocks(k) {
            // long, and deep
            let long: Vec<T> = (0..n).flat_map(|_| kids.iter().cloned().chain([T::Comment("c".into())])).collect();
            bodies.push(vec![T::El(name.clone(), a.clone(), long)]);
            if n < 100 {
              bodies.push(vec![(0..n).fold(tx("In. It's"), |t, _| T::El(name.clone(), a.clone(), vec![tx("Out. "), t, tx(" Back. So")]))]);
            }
          }
          for b in bodies {
            let t = el("html", &[], vec![el("body", &[], b)]);
            if t.parse_stable() {
              for i in 0..seq.len() {
                both(ctx, &t, i, &seq[i], &par[i], &tok)?;
              }
            }
          }
          Ok(())
        },
      );
    }
    if ctx.done() {
      return;
    }
  }
  for s in seqs(BLOCKS, 0, ctx.pick(3, 4)) {
    if ctx.mine() {
      let t = el("html", &[], vec![el("body", &[], s.iter().map(|&k| blocks(k)).collect())]);
      if t.parse_stable() {
        ctx.run(|| t.xml(), |ctx| (0..seq.len()).try_for_each(|i| both(ctx, &t, i, &seq[i], &par[i], &tok)));
      }
    }
    if ctx.done() {
      return;
    }
  }
}
