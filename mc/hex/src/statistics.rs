//! C32: the corpus statistics programs.
use crate::docref::{block, lexemes, node_of, Doc, COUNTS};
use crate::dom::{el, tx, T};
use crate::lexical::normalized;
use crate::program::{both_ways, records, run, table, write, write_both_ways, Run};
use crate::refdnm::{view, Rule, P};
use crate::{titles, words};
use llamapun_examples as ex;
use mccore::gen::{seqs, xml_scalars, LENGTHS};
use mccore::{ensure, same, Ctx, Fail, Prop, Verdict};
use mcstd::mcfault;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use Program::*;

pub const PROP: Prop = Prop {
  id: "C32",
  run: run32,
  chunk: 1,
  assumptions: &[
    "jwalk and rayon are stand-ins whose listing order, item assignment, interleaving and reduction tree are chosen by the explorer; csv and whatlang are stand-ins too",
    "the environment may refuse to create a file, write less than asked, interrupt or refuse a write; it does not fail reads",
    "selectors, text views, words, lexical normalization, heading titles and n-grams are those C02, C07, C13, C18, C21, C23 and C31 prescribe",
  ],
  bounds: "by one worker as it comes: all documents of up to 2 (3 thorough) blocks of a 24-block menu through each of the 6 corpus programs, documents read as XML and as HTML under 7 kinds of name, every character an XML document can contain (quick: the first two planes and samples) in classes, attributes, headings and before references, up to 4097 blocks, documents up to 200 levels deep and corpora of up to 257 documents; 6 corpora of up to 3 documents with 1 to 3 workers under all schedules up to 2 (3) deviations, one less for 3 workers or small buffers (for the two that also spread the nodes of a document over the workers every delay counts as a deviation); every placement of up to 2 (3) refused creations and write faults in 2 corpora, with whole and small buffers; n-gram files of up to 5 (6) pieces of a 13-piece alphabet in 1 to 3 files, with refused creations and write faults",
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Program {
  MathCount,
  MathMl,
  Nodes,
  Headings,
  Refs,
  Tokens,
}
const ALL: [Program; 6] = [MathCount, MathMl, Nodes, Headings, Refs, Tokens];

const XHTML: &str = "http://www.w3.org/1999/xhtml";
fn page(body: Vec<T>) -> T { el("html", &[("xmlns", XHTML)], vec![el("body", &[], body)]) }
fn lexed(lex: Option<&str>) -> T {
  let mut kids = vec![el("mi", &[("mathvariant", "bold  italic bold")], vec![tx("x")])];
  if let Some(l) = lex {
    kids.push(el("annotation", &[("encoding", "application/x-llamapun")], vec![tx(l)]));
  }
  el("math", &[("id", "m1.2"), ("alttext", "a b")], kids)
}
fn head(n: &str, kids: Vec<T>) -> T { el(n, &[("class", "ltx_title ltx_title_section")], kids) }
fn reference(name: &str, class: &str) -> T { el(name, &[("class", class)], vec![tx("4.2")]) }

fn piece(k: usize) -> T {
  let content = |e: &str| el("annotation-xml", &[("encoding", e)], vec![el("ci", &[], vec![tx("x")])]);
  match k {
    0 => el("p", &[("class", "ltx_p")], vec![tx("See also Theorem "), reference("a", "ltx_ref"), tx(" and\u{a0}"), reference("span", "ltx_ref ltx_missing")]),
    1 => head("h2", vec![tx("Introduction")]),
    2 => head("h3", vec![el("span", &[("class", "ltx_tag")], vec![tx("2.1 ")]), tx("Main  Results")]),
    3 => el("h1", &[("class", "ltx_title ltx_title_document")], vec![tx("A Title")]),
    4 => el("math", &[("display", "inline"), ("xref", "a b")], vec![lexed(None), content("MathML-Content"), content("MathML-Presentation")]),
    5 => el("p", &[], vec![lexed(Some("UNKNOWN:x")), T::Comment("no".into()), lexed(None)]),
    6 => el("table", &[("class", "ltx_equation")], vec![el("tr", &[], vec![el("td", &[], vec![lexed(Some("ID:a"))])])]),
    7 => el("p", &[("class", " b a\u{a0}c  a b\n")], vec![T::Comment("c".into()), T::Pi("target data".into()), tx("x")]),
    8 => head("h4", vec![tx("A wordOfTwentySixLettersAbcde here")]),
    9 => head("h4", vec![tx("Введение")]),
    10 => el("div", &[("class", "ltx_para")], vec![tx("Some words, 12 of "), lexed(Some("NUMBER:7")), tx(" them "), el("cite", &[], vec![tx("[1]")])]),
    11 => el("p", &[], vec![tx("Eq."), reference("a", "ltx_ref"), tx("ÜBER"), reference("a", "ltx_ref_x"), reference("a", "x ltx_ref"), tx(" İß1 \n"), reference("span", "ltx_ref")]),
    12 => head("h2", vec![tx("Proof of "), lexed(Some("ID:z")), el("cite", &[], vec![tx("[1]")]), tx(" by "), reference("a", "ltx_ref")]),
    13 => el("math", &[("a", "1,2"), ("b", "\"q\""), ("c", "")], vec![tx("t"), el("mn", &[("width", "1,2 \"q\" 1,2")], vec![]), T::Comment("w".into())]),
    14 => el("m:math", &[("xmlns:m", "http://www.w3.org/1998/Math/MathML")], vec![el("m:mi", &[], vec![tx("x")]), el("m:annotation-xml", &[("encoding", "MathML-Content")], vec![])]),
    15 => head("h6", vec![tx("12 \u{2013} 3")]),
    16 => head("h2", vec![tx("heading_count")]),
    17 => el("annotation-xml", &[("encoding", "MathML-Content")], vec![lexed(None)]),
    18 => head("h5", vec![tx("mathformula REF Citationelement")]),
    19 => el("p", &[], vec![tx("one two"), T::Comment("c".into()), reference("a", "ltx_ref"), tx("three"), el("em", &[], vec![reference("a", "ltx_ref")])]),
    20 => el("table", &[], vec![el("caption", &[("class", "x")], vec![tx("gone"), reference("a", "ltx_ref")])]),
    21 => head("h2", vec![tx("Introduction"), el("span", &[("class", "ltx_ERROR")], vec![tx("\\foo")])]),
    22 => el("div", &[("class", "ltx_para")], vec![tx("wordOfTwentySixLettersAbcde")]),
    23 => head("h2", vec![tx("The Introduction II")]),
    _ => unreachable!(),
  }
}
const PIECES: usize = 24;

type Counts = BTreeMap<String, u64>;
fn add(m: &mut Counts, k: String, n: u64) { *m.entry(k).or_insert(0) += n; }

fn node_name(t: &T) -> &str {
  match t {
    T::Text(_) => "text",
    T::Comment(_) => "comment",
    T::Pi(p) => p.split(' ').next().unwrap(),
    T::El(..) => t.name(),
  }
}
fn math_ml(t: &T, out: &mut Counts) {
  let open = ["id", "xref", "alttext", "href", "altimg"];
  for m in Doc::new(t).maths() {
    for n in t.all()[m].all() {
      if matches!(n, T::Text(_)) {
        continue;
      }
      let name = node_name(n);
      add(out, name.into(), 1);
      if let T::El(_, attrs, _) = n {
        for (a, v) in attrs.iter().filter(|(a, _)| !a.starts_with("xmlns")) {
          add(out, format!("{name}@{a}"), 1);
          if !open.contains(&a.as_str()) {
            for w in v.split_whitespace() {
              add(out, format!("{name}@{a}[{w}]"), 1);
            }
          }
        }
      }
    }
  }
}
fn node_model(t: &T, line: &mut String, out: &mut Counts) {
  if matches!(t, T::Text(_)) {
    return;
  }
  let mut classes: Vec<&str> = t.attr("class").unwrap_or("").split(' ').filter(|c| !c.is_empty()).collect();
  classes.sort();
  let token = std::iter::once(node_name(t)).chain(classes).collect::<Vec<_>>().join("_");
  line.push_str(&token);
  line.push(' ');
  add(out, token, 1);
  if !["math", "table"].contains(&node_name(t)) {
    for k in t.kids() {
      node_model(k, line, out);
    }
  }
}
/// the stand-in detector's verdict on a text view
pub fn foreign(plain: &str) -> bool {
  let mut t = plain.to_string();
  for tok in ["mathformula", "CitationElement", "REF"] {
    t = t.replace(tok, " ");
  }
  t.chars().any(|c| ('а'..='я').contains(&c))
}
/// the preset without the contents statistics do without
fn without(names: &[&str], classes: &[&str]) -> P {
  let mut p = P::llamapun();
  for (t, of) in [(&mut p.names, names), (&mut p.classes, classes)] {
    for o in of {
      t.retain(|(k, _)| k != o);
      t.push((o.to_string(), Rule::Skip));
    }
  }
  p
}
pub fn mathless() -> P { without(&["math"], &["ltx_equation", "ltx_equationgroup"]) }
/// headings: counted titles, number, overlong ones
fn headings(t: &T, out: &mut Counts) -> (u64, u64) {
  let p = without(&["math", "cite"], &["ltx_equation", "ltx_equationgroup", "ltx_ref"]);
  let (mut n, mut long) = (0, 0);
  let all = t.all();
  for h in Doc::new(t).headings() {
    let h = all[h];
    let v = view(h, &p);
    if foreign(&v.text) {
      continue;
    }
    let mut title = String::new();
    let mut whole = true;
    for (a, b) in words::words(&v.chars) {
      let w: String = v.chars[a..b].iter().collect();
      match normalized(&w, || lexemes(h.all()[node_of(h, &v, a, b)]), false, true, true) {
        None => {
          long += 1;
          whole = false;
          break;
        },
        Some(w) if w.is_empty() || w == "NUM" => (),
        Some(w) => title += &(w + " "),
      }
    }
    if whole {
      let title = titles::normal(&title);
      if !title.is_empty() {
        n += 1;
        add(out, title, 1);
      }
    }
  }
  (n, long)
}
fn refs(t: &T, out: &mut Counts) {
  let doc = Doc::new(t);
  for r in doc.refs() {
    let p = doc.all[doc.parent[r]];
    let mut at = doc.parent[r] + 1;
    let mut previous = None;
    for k in p.kids() {
      if at == r {
        break;
      }
      at += k.size();
      previous = Some(k);
    }
    if let Some(T::Text(s)) = previous {
      let mut w: Vec<String> = s.trim_end().chars().rev().take_while(|c| c.is_alphanumeric()).map(|c| c.to_lowercase().to_string()).collect();
      w.reverse();
      if !w.is_empty() {
        add(out, w.concat(), 1);
      }
    }
  }
}

/// is `s` a concatenation of all the blocks, in some order?
fn splits(s: &str, blocks: &mut Vec<&str>) -> bool {
  if blocks.is_empty() {
    return s.is_empty();
  }
  for i in 0..blocks.len() {
    if let Some(rest) = s.strip_prefix(blocks[i]) {
      let b = blocks.swap_remove(i);
      let ok = splits(rest, blocks);
      blocks.push(b);
      let n = blocks.len() - 1;
      blocks.swap(i, n);
      if ok {
        return true;
      }
    }
  }
  false
}
fn short(s: &str) -> String { if s.len() > 400 { format!("{}... ({} bytes)", s.chars().take(200).collect::<String>(), s.len()) } else { s.into() } }
fn read(p: &Path) -> Result<String, Fail> { std::fs::read_to_string(p).map_err(|e| format!("a report cannot be read: {e}").into()) }
fn pairs(rows: Vec<Vec<String>>) -> Result<Vec<(String, String)>, Fail> {
  rows.into_iter().map(|r| <[String; 2]>::try_from(r).map(|[a, b]| (a, b)).map_err(|r| Fail::from(format!("the record {r:?}")))).collect()
}
fn csv(text: &str, first: Option<[&str; 2]>) -> Result<Counts, Fail> {
  let mut rows = records(text)?;
  if let Some(f) = first {
    ensure(rows.first().is_some_and(|r| r[..] == f), || format!("the first record is {:?}, expected {f:?}", rows.first()))?;
    rows.remove(0);
  }
  table(pairs(rows)?)
}
/// equal, or the differences
fn tally(what: &str, got: &Counts, want: &Counts) -> Verdict {
  let odd: Vec<(&String, Option<&u64>, Option<&u64>)> =
    got.keys().chain(want.keys().filter(|k| !got.contains_key(*k))).map(|k| (k, got.get(k), want.get(k))).filter(|(_, g, w)| g != w).take(8).collect();
  ensure(odd.is_empty(), || format!("{what}: got and expected differ in {odd:?}"))
}

struct Place {
  dir: PathBuf,
  out: [PathBuf; 2],
  said: PathBuf,
}
impl Place {
  fn new(ctx: &Ctx) -> Place {
    let s = |n: &str| ctx.scratch.join(n);
    Place { dir: s("corpus"), out: [s("one.csv"), s("two.csv")], said: s("said") }
  }
  fn program(&self, p: Program, extra: Option<&str>) -> Run {
    for o in &self.out {
      let _ = std::fs::remove_file(o);
    }
    let mut args = vec![self.dir.to_str().unwrap(), self.out[0].to_str().unwrap()];
    if [MathCount, Nodes].contains(&p) {
      args.push(self.out[1].to_str().unwrap());
    }
    args.extend(extra);
    match p {
      MathCount => run(ex::corpus_math_count::main, &args, &self.said),
      MathMl => run(ex::corpus_mathml_stats::main, &args, &self.said),
      Nodes => run(ex::corpus_node_model::main, &args, &self.said),
      Headings => run(ex::corpus_heading_stats::main, &args, &self.said),
      Refs => run(ex::pre_ref_words::main, &args, &self.said),
      Tokens => run(ex::corpus_token_model::main, &args, &self.said),
    }
  }
  /// the reports of a run that went well
  fn judge(&self, p: Program, r: &Run, docs: &[T]) -> Verdict {
    r.result.as_ref().map_err(|e| Fail::from(format!("the program reports {e}")))?;
    let mut want = Counts::new();
    match p {
      MathCount => {
        let mut content = Counts::new();
        let (mut a, mut b) = (0, 0);
        for d in docs {
          let n = d.all().iter().filter(|n| n.name() == "math").count() as u64;
          let c = d.all().iter().filter(|n| n.name() == "annotation-xml" && n.attr("encoding") == Some("MathML-Content")).count() as u64;
          add(&mut want, n.to_string(), 1);
          add(&mut content, c.to_string(), 1);
          a += n;
          b += c;
        }
        tally("documents by formulas", &csv(&read(&self.out[0])?, Some(["math elements", "documents in corpus"]))?, &want)?;
        tally("documents by content", &csv(&read(&self.out[1])?, Some(["annotation-xml elements", "documents in corpus"]))?, &content)?;
        same("the grand totals", &r.bare(), &vec![a, b])
      },
      MathMl => {
        docs.iter().for_each(|d| math_ml(d, &mut want));
        tally("names, attributes and values", &csv(&read(&self.out[0])?, Some(["name@attr[value]", "frequency"]))?, &want)
      },
      Nodes => {
        let lines: Vec<String> = docs
          .iter()
          .map(|d| {
            let mut l = String::new();
            node_model(d, &mut l, &mut want);
            l
          })
          .collect();
        let text = read(&self.out[0])?;
        ensure(splits(&text, &mut lines.iter().map(String::as_str).collect()), || format!("the model {:?} is no sequence of the documents'", short(&text)))?;
        let rows = read(&self.out[1])?;
        ensure(rows.is_empty() || rows.ends_with('\n'), || "the last line has no end".into())?;
        let rows = rows.split_terminator('\n').map(|l| l.rsplit_once(' ').map(|(a, b)| (a.into(), b.into())).unwrap_or((l.into(), String::new())));
        // a class may hold line breaks: those tokens span lines
        if want.keys().all(|k| !k.contains('\n')) {
          tally("nodes", &table(rows.collect())?, &want)?;
        } else {
          let all: String = read(&self.out[1])?;
          let n: usize = want.iter().map(|(k, v)| format!("{k} {v}\n").len()).sum();
          ensure(all.len() == n && want.iter().all(|(k, v)| all.contains(&format!("{k} {v}\n"))), || format!("nodes: {:?}, expected {want:?}", short(&all)))?;
        }
        Ok(())
      },
      Headings => {
        let (mut n, mut long) = (0, 0);
        for d in docs {
          let (a, b) = headings(d, &mut want);
          n += a;
          long += b;
        }
        let text = read(&self.out[0])?;
        let first = (!text.is_empty()).then_some(["heading", "frequency"]);
        tally("headings", &csv(&text, first)?, &want)?;
        same("documents", &r.number(" Total traversed documents;")?, &(docs.len() as u64))?;
        same("headings", &r.number(" headings;")?, &n)?;
        same("discarded headings", &r.number(" discarded headings (long words)")?, &long)
      },
      Refs => {
        docs.iter().for_each(|d| refs(d, &mut want));
        let text = read(&self.out[0])?;
        let rest = text.strip_prefix("word, frequency\n").ok_or_else(|| Fail::from(format!("the report starts {:?}", short(&text))))?;
        ensure(rest.is_empty() || rest.ends_with('\n'), || "the last line has no end".into())?;
        let rows = rest.split_terminator('\n').map(|l| l.rsplit_once(", ").map(|(a, b)| (a.into(), b.into())).unwrap_or((l.into(), String::new())));
        tally("words before references", &table(rows.collect())?, &want)
      },
      Tokens => {
        let blocks: Vec<_> = docs.iter().map(|d| block(d, false)).collect();
        for (label, k) in [
          (" documents;", "document_count"),
          (" paragraphs;", "paragraph_count"),
          (" discarded paragraphs (long words)", "overflow_count"),
          (" words;", "word_count"),
          (" numeric literals;", "num_count"),
          (" formulas;", "formula_count"),
          (" inline cites;", "citation_count"),
        ] {
          let at = COUNTS.iter().position(|c| *c == k).unwrap();
          same(k, &r.number(label)?, &blocks.iter().map(|b| b.counts[at]).sum::<u64>())?;
        }
        let text = read(&self.out[0])?;
        let mut parts: Vec<&str> = blocks.iter().map(|b| b.text.as_str()).filter(|t| !t.is_empty()).collect();
        ensure(splits(&text, &mut parts), || format!("the model {:?} is no sequence of the documents'", short(&text)))
      },
    }
  }
  /// each of the programs, as it comes
  fn each(&self, ctx: &mut Ctx, docs: &[T], programs: &[Program]) -> Verdict {
    write(&self.dir, docs);
    for &p in programs {
      // the first two take a file name's ending
      let filters: &[Option<&str>] = if [MathCount, MathMl].contains(&p) { &[None, Some(".xhtml")] } else { &[None] };
      for f in filters {
        let r = self.program(p, *f);
        ctx.steps(docs.len() as u64);
        self.judge(p, &r, docs).map_err(|e| Fail { msg: format!("{p:?}: {}", e.msg), key: e.key })?;
      }
    }
    Ok(())
  }
  fn explored(&self, ctx: &mut Ctx, docs: &[T], p: Program, workers: usize, bound: u32, capacity: usize, faults: u32) -> Verdict {
    write(&self.dir, docs);
    rayon::set_workers(workers);
    mcfault::set(faults, capacity);
    let r = ctx.explore(
      bound,
      2_000_000,
      || {
        mcfault::reset();
        self.program(p, None)
      },
      |x, ctx| {
        let r = x.result.as_ref().map_err(|e| format!("the program ended abnormally: {e}"))?;
        ctx.state(&(x.schedule(), format!("{:?}", r.result)));
        let refused = x.decisions.iter().any(|d| d.kind == "create" && d.taken == 1);
        if refused || r.hard > 0 {
          ensure(r.result.is_err(), || format!("{} but the program reports success", if refused { "a file was not created" } else { "a write failed" }))
        } else {
          self.judge(p, r, docs)
        }
      },
    );
    mcfault::set(0, usize::MAX);
    rayon::set_workers(1);
    r
  }
}

fn gram_words(content: &str) -> Vec<&str> {
  content
    .split(|c| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}'))
    .filter(|w| w.chars().next().is_some_and(char::is_alphanumeric))
    .collect()
}
/// 4-grams of the words within 15 of a citation, line by line
fn grams(file: &str, out: &mut Counts) {
  for l in file.split_terminator('\n') {
    let l = l.strip_suffix('\r').unwrap_or(l);
    let ws = gram_words(l);
    let near = |i: usize| (i.saturating_sub(15)..=(i + 15).min(ws.len() - 1)).any(|j| ws[j] == "citationelement");
    for i in 0..ws.len() {
      if i + 4 <= ws.len() && (i..i + 4).all(near) {
        add(out, ws[i..i + 4].join(" "), 1);
      }
    }
  }
}

fn citations(ctx: &mut Ctx) {
  let work = ctx.scratch.join("work");
  std::fs::create_dir_all(&work).unwrap();
  let said = ctx.scratch.join("said");
  let report = work.join("4_grams_15_window.csv");
  let names = ["a.txt", "b.txt", "c.txt"];
  let back = std::env::current_dir().unwrap();
  let go = |files: usize| {
    let _ = std::fs::remove_file(&report);
    run(ex::citation_ngrams::run, &names[..files], &said)
  };
  let check = |r: &Run, texts: &[String]| -> Verdict {
    r.result.as_ref().map_err(|e| Fail::from(format!("the program reports {e}")))?;
    let mut want = Counts::new();
    texts.iter().for_each(|t| grams(t, &mut want));
    let text = read(&report)?;
    tally("n-grams", &csv(&text, (!text.is_empty()).then_some(["ngram", "frequency"]))?, &want)
  };
  let put = |texts: &[String]| texts.iter().zip(names).for_each(|(t, n)| std::fs::write(work.join(n), t).unwrap());
  let alpha = ["citationelement", " a", " b \"c\" d,", "\n", "\r\n", " citationelements ", "1 2 3 4 5 6 7 8 ", " é ", "\t", "x-y .z ", "\u{a0}", "citationelement w w w w\n", "CITATIONELEMENT "];
  for s in seqs(alpha.len(), 0, 2) {
    let tail = if s.len() < 2 { 0 } else { ctx.pick(3, 4) };
    ctx.case(
      || format!("n-gram files starting {:?}", s.iter().map(|&i| alpha[i]).collect::<String>()),
      |ctx| {
        std::env::set_current_dir(&work).unwrap();
        for t in seqs(if s.len() < 2 { 0 } else { alpha.len() }, 0, tail) {
          let n = 1 + t.len() % 3;
          let all: Vec<&str> = s.iter().chain(&t).map(|&i| alpha[i]).collect();
          let texts: Vec<String> = (0..n).map(|k| if k == 0 { all.concat() } else { all[k..].concat() }).collect();
          put(&texts);
          ctx.steps(1);
          ctx.state(&texts);
          let r = go(n);
          check(&r, &texts).map_err(|e| Fail { msg: format!("files {texts:?}: {}", e.msg), key: e.key })?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      break;
    }
  }
  for n in LENGTHS {
    ctx.case(
      || format!("{n} lines, {n} words of a line"),
      |ctx| {
        std::env::set_current_dir(&work).unwrap();
        let texts = [
          "one citationelement two three four\n".repeat(n),
          format!("{} citationelement {}", "w ".repeat(n), "v ".repeat(n)),
          (0..n).map(|i| format!("u{i} v{i} citationelement w{i} x{i}\n")).collect(),
        ];
        put(&texts);
        ctx.steps(3 * n as u64);
        check(&go(3), &texts)
      },
    );
  }
  ctx.case(
    || "n-gram files that cannot be read".into(),
    |_| {
      std::env::set_current_dir(&work).unwrap();
      put(&["citationelement".into()]);
      let _ = std::fs::remove_file(work.join("b.txt"));
      let r = go(2);
      ensure(r.result.is_err(), || "a missing file goes unnoticed".into())?;
      std::fs::write(work.join("b.txt"), b"a \xff citationelement\n").unwrap();
      let r = go(2);
      ensure(r.result.is_err(), || "a file that is not text goes unnoticed".into())?;
      check(&go(0), &[])
    },
  );
  for (lines, capacity) in [(1, usize::MAX), (3, 16), (300, usize::MAX), (300, 5000)] {
    let b = ctx.pick(2, 3);
    ctx.case(
      || format!("n-grams of {lines} lines, buffers of {capacity} bytes, faults, up to {b} deviations"),
      |ctx| {
        std::env::set_current_dir(&work).unwrap();
        let texts: [String; 1] = [(0..lines).map(|i| format!("a{i} citationelement c{i} d{i} e{i}\n")).collect()];
        put(&texts);
        mcfault::set(mcfault::CREATE | mcfault::WRITE, capacity);
        let r = ctx.explore(
          b,
          2_000_000,
          || {
            mcfault::reset();
            go(1)
          },
          |x, ctx| {
            let r = x.result.as_ref().map_err(|e| format!("the program ended abnormally: {e}"))?;
            ctx.state(&x.schedule());
            if x.decisions.iter().any(|d| d.kind == "create" && d.taken == 1) || r.hard > 0 {
              ensure(r.result.is_err(), || "the report was not written, but the program reports success".into())
            } else {
              check(r, &texts)
            }
          },
        );
        mcfault::set(0, usize::MAX);
        r
      },
    );
  }
  std::env::set_current_dir(back).unwrap();
}

fn run32(ctx: &mut Ctx) {
  let at = Place::new(ctx);
  // documents
  let mut docs: Vec<Vec<usize>> = seqs(PIECES, 0, 2).collect();
  if !ctx.quick() {
    docs.extend(seqs(PIECES, 3, 3));
  }
  for some in docs.chunks(12) {
    ctx.case(
      || format!("documents {some:?}"),
      |ctx| {
        rayon::set_workers(1);
        for s in some {
          let d = page(s.iter().map(|&k| piece(k)).collect());
          ctx.state(&d);
          at.each(ctx, std::slice::from_ref(&d), &ALL).map_err(|e| Fail { msg: format!("{}: {}", d.xml(), e.msg), key: e.key })?;
        }
        // and all of them together
        let all: Vec<T> = some.iter().map(|s| page(s.iter().map(|&k| piece(k)).collect())).collect();
        at.each(ctx, &all, &ALL)
      },
    );
    if ctx.done() {
      return;
    }
  }
  // read as XML and as HTML
  for some in [&[0, 1, 2][..], &[3, 9, 15], &[8, 12, 16], &[10, 11, 18], &[4, 17], &[19, 20, 21], &[22, 23], &[0, 0], &[]] {
    ctx.case(
      || format!("documents {some:?} as XML and HTML"),
      |ctx| {
        rayon::set_workers(1);
        let mut d: Vec<T> = some.iter().map(|&k| both_ways(vec![piece(k)])).collect();
        d.push(both_ways(some.iter().map(|&k| piece(k)).collect()));
        let docs = write_both_ways(&at.dir, &d);
        for p in ALL {
          ctx.steps(docs.len() as u64);
          let (r, n) = (at.program(p, None), docs.len());
          at.judge(p, &r, &docs).map_err(|e| Fail { msg: format!("{p:?}, {n} documents: {}", e.msg), key: e.key })?;
        }
        for (filter, of) in [(".xhtml", [0, 3, 5]), (".html", [1, 2, 4])] {
          let docs: Vec<T> = d.iter().flat_map(|d| of.map(|_| d.clone())).chain((filter == ".html").then(|| d.clone()).into_iter().flatten()).collect();
          for p in [MathCount, MathMl] {
            let r = at.program(p, Some(filter));
            at.judge(p, &r, &docs).map_err(|e| Fail { msg: format!("{p:?} of {filter}: {}", e.msg), key: e.key })?;
          }
        }
        Ok(())
      },
    );
  }
  // every character
  for cs in xml_scalars(!ctx.quick(), 256) {
    ctx.case(
      || format!("documents with {:?} to {:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        rayon::set_workers(1);
        let mut body = Vec::new();
        for &c in &cs {
          body.push(el("div", &[("class", &format!("a{c}b {c} c"))], vec![]));
          body.push(el("math", &[("a", &format!("x{c}y {c}")), ("id", &format!("{c}"))], vec![tx(&format!("{c}"))]));
          body.push(head("h2", vec![tx(&format!("Title {c} on{c}e"))]));
          body.push(head("h2", vec![tx(&format!("{c}Proof{c}"))]));
          body.push(el("p", &[], vec![tx(&format!("w{c}ord")), reference("a", "ltx_ref"), tx(&format!("some word{c}")), reference("span", "ltx_ref"), tx(&format!("{c}")), reference("a", "ltx_ref")]));
        }
        let d = page(body);
        at.each(ctx, &[d], &[MathMl, Nodes, Headings, Refs])
      },
    );
    if ctx.done() {
      return;
    }
  }
  // many, long and deep
  for n in LENGTHS.into_iter().filter(|n| *n < 5000) {
    for k in 0..PIECES {
      if n > 300 && (n != 4097 || k % 4 != 0) && ctx.quick() {
        continue;
      }
      ctx.case(
        || format!("{n} times block {k}"),
        |ctx| {
          rayon::set_workers(1);
          at.each(ctx, &[page((0..n).map(|_| piece(k)).collect()), page(vec![piece(k)])], &ALL)
        },
      );
    }
    if n > 257 {
      continue;
    }
    ctx.case(
      || format!("{n} parts of a formula, classes, words before a reference, words of a heading"),
      |ctx| {
        rayon::set_workers(1);
        let parts = (0..n).map(|i| el("mi", &[("a", &format!("v{} w", i % 7))], vec![])).collect();
        let class: Vec<String> = (0..n).map(|i| format!("c{}", i * 7 % 100)).collect();
        at.each(
          ctx,
          &[page(vec![
            el("math", &[("b", &class.join(" "))], parts),
            el("p", &[("class", &class.join(" "))], vec![tx(&format!("x {}", "y".repeat(n))), reference("a", "ltx_ref")]),
            head("h2", vec![tx(&"Word ".repeat(n))]),
            head("h3", (0..n).map(|_| el("em", &[], vec![tx("of the ")])).collect()),
          ])],
          &ALL,
        )
      },
    );
  }
  for n in [16, 63, 65, 129, 200] {
    ctx.case(
      || format!("{n} levels"),
      |ctx| {
        rayon::set_workers(1);
        let deep = |name: &str, attrs: &[(&str, &str)], inner: T| (0..n).fold(inner, |t, _| el(name, attrs, vec![t]));
        at.each(
          ctx,
          &[
            page(vec![deep("div", &[("class", "b a")], piece(0))]),
            page(vec![el("math", &[], vec![deep("mrow", &[("a", "b c")], tx("x"))])]),
            page(vec![deep("math", &[], piece(4))]),
            page(vec![head("h2", vec![deep("span", &[], tx("Introduction"))])]),
          ],
          &ALL,
        )
      },
    );
  }
  for n in [16, 65, 257] {
    for workers in 1..=3 {
      ctx.case(
        || format!("{n} documents, {workers} workers"),
        |ctx| {
          let docs: Vec<T> = (0..n).map(|i| page(vec![piece(i % PIECES), el("p", &[("class", &format!("n{i}"))], vec![tx(&format!("w{i}")), reference("a", "ltx_ref")])])).collect();
          // the formulas and references of a document are spread over workers, too: far too many schedules
          let inner = |p: &Program| workers > 1 && [MathMl, Refs].contains(p);
          ALL.iter().filter(|p| !inner(p)).try_for_each(|&p| at.explored(ctx, &docs, p, workers, 0, usize::MAX, 0))
        },
      );
    }
  }
  // schedules
  let corpora: [&[&[usize]]; 6] = [&[], &[&[0, 1, 4]], &[&[0, 2, 5], &[11, 23, 13]], &[&[4, 1], &[], &[4, 1]], &[&[10, 8], &[22, 12, 5], &[6, 1]], &[&[0, 0], &[0, 23]]];
  let bound = ctx.pick(2, 3);
  for (i, c) in corpora.iter().enumerate() {
    let docs: Vec<T> = c.iter().map(|d| page(d.iter().map(|&k| piece(k)).collect())).collect();
    for p in ALL {
      for workers in 1..=3usize {
        for capacity in [usize::MAX, 8] {
          // a write of 8 bytes is a decision
          let small = capacity == 8 && [Nodes, Tokens].contains(&p);
          if capacity == 8 && !small {
            continue;
          }
          let inner = workers > 1 && [MathMl, Refs].contains(&p);
          let mut b = bound;
          if workers > 2 || small {
            b -= 1;
          }
          // formulas and references are spread over the workers within each document, too
          if inner && i > 0 {
            b = if workers > 2 && docs.len() > 1 { bound - 1 } else { bound };
          }
          ctx.case(
            || format!("{p:?} of corpus {i} with {workers} workers, buffers of {capacity} bytes, up to {b} deviations"),
            |ctx| {
              mcsched::count_every_delay(inner && i > 0);
              let r = at.explored(ctx, &docs, p, workers, b, capacity, 0);
              mcsched::count_every_delay(false);
              r
            },
          );
          if ctx.done() {
            return;
          }
        }
      }
    }
  }
  for (i, workers, capacity) in [(1, 1, usize::MAX), (1, 1, 64), (2, 1, 64), (2, 2, usize::MAX)] {
    let docs: Vec<T> = corpora[i].iter().map(|d| page(d.iter().map(|&k| piece(k)).collect())).collect();
    for p in ALL {
      let b = if workers == 2 || i == 2 { bound - 1 } else { bound };
      let inner = workers > 1 && [MathMl, Refs].contains(&p);
      ctx.case(
        || format!("{p:?} of corpus {i} with {workers} workers, buffers of {capacity} bytes, faults, up to {b} deviations"),
        |ctx| {
          mcsched::count_every_delay(inner);
          let r = at.explored(ctx, &docs, p, workers, b, capacity, mcfault::CREATE | mcfault::WRITE);
          mcsched::count_every_delay(false);
          r
        },
      );
    }
  }
  citations(ctx);
}
