//! C33: the statement paragraphs program.
use crate::docref::{lexemes, node_of, Doc};
use crate::dom::{el, tx, T};
use crate::lexical::{heading, normalized};
use crate::program::{both_ways, run, write, write_both_ways, Run};
use crate::refdnm::{view, P};
use crate::statistics::{foreign, mathless};
use crate::titles::Tables;
use crate::words;
use llamapun_examples as ex;
use mccore::gen::{seqs, xml_scalars, LENGTHS};
use mccore::{ensure, same, Ctx, Fail, Prop, Verdict};
use mcstd::mcfault;
use std::collections::BTreeMap;
use std::io::Read;
use std::path::PathBuf;

pub const PROP: Prop = Prop {
  id: "C33",
  run: run33,
  chunk: 1,
  assumptions: &[
    "jwalk and rayon are stand-ins whose listing order, item assignment, interleaving and reduction tree are chosen by the explorer; SHA-256 and whatlang are stand-ins too",
    "the environment may refuse to create a file, write less than asked, interrupt or refuse a write; it does not fail reads",
    "selectors, text views, tokens, lexical normalization, environments and heading titles are those C02, C07, C13, C18, C19, C21, C23 and C31 prescribe",
  ],
  bounds: "by one worker, with and without formulas: all documents of 1 to 2 (3 thorough) sections out of 5 kinds of part, 12 headings, 9 classes of statement and 14 contents, every pair of them in one section, documents read as XML and as HTML under 7 kinds of name; every listed environment as a class and as a heading; statements of 0 to 6, 1022 to 1026 words and words of 24 to 27 bytes at every place; every character an XML document can contain (quick: the first two planes and samples) in statements, classes and headings; up to 1025 sections, documents up to 200 levels deep and corpora of up to 257 documents with 1 to 3 workers; 4 corpora of up to 3 documents that share statements with 1 to 3 workers under all schedules up to 2 (3) deviations, every placement of up to 2 (3) refused creations and write faults",
};

const LEFT_OUT: [&str; 22] = [
  "affirmation", "algorithm", "answer", "bound", "caption", "comment", "constraint", "convention", "criterion", "expansion",
  "expectation", "explanation", "hint", "issue", "keywords", "note", "notice", "paragraph", "principle", "rule", "solution", "other",
];

#[derive(Default, Debug, PartialEq)]
struct Want {
  documents: u64,
  marked: u64,
  paragraphs: u64,
  discarded: u64,
  /// of those, with an overlong word outside of the 5th to 1025th: a known finding is that the program counts them again
  again: u64,
  files: BTreeMap<String, String>,
}

fn add(t: &T, tables: &Tables, discard_math: bool, out: &mut Want) {
  let doc = Doc::new(t);
  let preset = if discard_math { mathless() } else { P::llamapun() };
  out.documents += 1;
  let marked = doc.all.iter().any(|n| n.name() == "div" && n.attr("class").is_some_and(|c| c.contains("ltx_theorem")));
  out.marked += marked as u64;
  for p in doc.extended() {
    let t = doc.all[p];
    let class = t.attr("class").unwrap_or("");
    // the element before it in its parent
    let parent = doc.all[doc.parent[p]];
    let mut at = doc.parent[p] + 1;
    let mut before = None;
    for k in parent.kids() {
      if at == p {
        break;
      }
      if matches!(k, T::El(..)) {
        before = Some(k);
      }
      at += k.size();
    }
    let special = [("ltx_acknowledgement", "acknowledgement"), ("ltx_caption", "caption")].iter().find(|(c, _)| class.contains(c));
    if special.is_none() && before.is_some_and(|b| !b.name().starts_with('h')) {
      continue;
    }
    let v = view(t, &preset);
    if foreign(&v.text) {
      continue;
    }
    let env = if let Some((_, e)) = special {
      e.to_string()
    } else if let Some(e) = if marked { tables.class_name(parent.attr("class").unwrap_or("")) } else { None } {
      if LEFT_OUT.contains(&e.as_str()) {
        continue;
      }
      e
    } else {
      match before.and_then(heading).map(|h| tables.heading_name(&h)) {
        Some(e) if e != "other" => e,
        _ => continue,
      }
    };
    let mut text = String::new();
    let mut n = 0;
    let mut whole = true;
    for (a, b) in words::items(&v.chars) {
      let w: String = v.chars[a..b].iter().collect();
      match normalized(&w, || lexemes(t.all()[node_of(t, &v, a, b)]), discard_math, false, true) {
        None => {
          whole = false;
          break;
        },
        Some(w) if w.is_empty() => (),
        Some(w) => {
          n += 1;
          text += &w;
          text += " ";
        },
      }
    }
    if !whole || !(4..=1024).contains(&n) {
      out.discarded += 1;
      out.again += (!whole && !(4..=1024).contains(&n)) as u64;
      continue;
    }
    text += "\n";
    out.paragraphs += 1;
    let sum: String = crypto::sha2::compute(text.as_bytes()).iter().map(|b| format!("{b:02x}")).collect();
    out.files.insert(format!("{env}/{sum}.txt"), text);
  }
}

const DISCARDED: &str = " discarded paragraphs (irregular word count or word length)";

struct Place {
  /// no allowance for the known finding
  exact: bool,
  dir: PathBuf,
  tar: PathBuf,
  said: PathBuf,
  tables: Tables,
}
impl Place {
  fn program(&self, discard_math: bool) -> Run {
    let _ = std::fs::remove_file(&self.tar);
    let mut args = vec![self.dir.to_str().unwrap(), self.tar.to_str().unwrap()];
    if discard_math {
      args.push("discard_math");
    }
    run(ex::corpus_statement_paragraphs_model::main, &args, &self.said)
  }
  fn judge(&self, r: &Run, want: &Want) -> Verdict {
    r.result.as_ref().map_err(|e| Fail::from(format!("the program reports {e}")))?;
    let f = std::fs::File::open(&self.tar).map_err(|e| format!("no archive: {e}"))?;
    let mut got: BTreeMap<String, String> = BTreeMap::new();
    let mut archive = tar::Archive::new(std::io::BufReader::new(f));
    for e in archive.entries().map_err(|e| format!("the archive: {e}"))? {
      let mut e = e.map_err(|e| format!("the archive: {e}"))?;
      let name = e.path().map_err(|e| format!("a name: {e}"))?.to_str().unwrap_or("?").to_string();
      let mut text = String::new();
      e.read_to_string(&mut text).map_err(|e| format!("{name}: {e}"))?;
      ensure(got.insert(name.clone(), text).is_none(), || format!("{name} is in the archive twice"))?;
    }
    let short = |t: &String| if t.len() > 200 { format!("{}... ({} bytes)", t.chars().take(100).collect::<String>(), t.len()) } else { t.clone() };
    for (n, t) in &got {
      ensure(want.files.get(n) == Some(t), || {
        let same: Vec<&String> = want.files.iter().filter(|(_, w)| *w == t).map(|(n, _)| n).collect();
        let missing: Vec<String> = want.files.iter().filter(|(n, _)| !got.contains_key(*n)).take(3).map(|(n, t)| format!("{n} {:?}", short(t))).collect();
        format!("the archive has {n} with {:?}; that text belongs in {same:?}, and {missing:?} are missing", short(t))
      })?;
    }
    if let Some((n, t)) = want.files.iter().find(|(n, _)| !got.contains_key(*n)) {
      return Err(format!("the archive lacks {n} with {:?}", short(t)).into());
    }
    let said = r.number(DISCARDED)?;
    if said != want.discarded + want.again || self.exact {
      same(DISCARDED, &said, &want.discarded)?;
    }
    for (words, n) in [
      (" Total traversed documents;", want.documents),
      (" AMS marked up documents;", want.marked),
      (" paragraphs;", want.paragraphs),
      (" paragraphs written to .tar destination (discarded duplicate SHA256-based filenames)", want.files.len() as u64),
    ] {
      same(words, &r.number(words)?, &n)?;
    }
    Ok(())
  }
  fn want(&self, docs: &[T], discard_math: bool) -> Want {
    let mut w = Want::default();
    docs.iter().for_each(|d| add(d, &self.tables, discard_math, &mut w));
    w
  }
  fn both(&self, ctx: &mut Ctx, docs: &[T]) -> Verdict {
    rayon::set_workers(1);
    write(&self.dir, docs);
    for m in [false, true] {
      ctx.steps(docs.len() as u64);
      let r = self.program(m);
      self.judge(&r, &self.want(docs, m)).map_err(|e| Fail { msg: format!("discard_math {m}: {}", e.msg), key: e.key })?;
    }
    Ok(())
  }
  fn explored(&self, ctx: &mut Ctx, docs: &[T], workers: usize, bound: u32, capacity: usize, faults: u32) -> Verdict {
    write(&self.dir, docs);
    let want = self.want(docs, false);
    rayon::set_workers(workers);
    mcfault::set(faults, capacity);
    let r = ctx.explore(
      bound,
      2_000_000,
      || {
        mcfault::reset();
        self.program(false)
      },
      |x, ctx| {
        let r = x.result.as_ref().map_err(|e| format!("the program ended abnormally: {e}"))?;
        ctx.state(&(x.schedule(), format!("{:?}", r.result)));
        let refused = x.decisions.iter().any(|d| d.kind == "create" && d.taken == 1);
        if refused || r.hard > 0 {
          ensure(r.result.is_err(), || format!("{} but the program reports success", if refused { "the archive was not created" } else { "a write failed" }))
        } else {
          self.judge(r, &want)
        }
      },
    );
    mcfault::set(0, usize::MAX);
    rayon::set_workers(1);
    r
  }
}

fn page(body: Vec<T>) -> T { el("html", &[("xmlns", "http://www.w3.org/1999/xhtml")], vec![el("body", &[], body)]) }
fn math(lex: Option<&str>) -> T {
  let mut kids = vec![el("mi", &[], vec![tx("x")])];
  if let Some(l) = lex {
    kids.push(el("annotation", &[("encoding", "application/x-llamapun")], vec![tx(l)]));
  }
  el("math", &[], kids)
}
const TITLES: usize = 12;
fn title(k: usize) -> Option<T> {
  let h = |n: &str, k: Vec<T>| el(n, &[("class", "ltx_title")], k);
  Some(match k {
    0 => return None,
    1 => h("h2", vec![el("span", &[("class", "ltx_tag")], vec![tx("1 ")]), tx("Introduction")]),
    2 => h("h6", vec![tx("Main Theorem 2.1 (Euler).")]),
    3 => h("h3", vec![tx("Unheard of")]),
    4 => el("p", &[("class", "ltx_p")], vec![tx("Proof")]),
    5 => el("hr", &[], vec![]),
    6 => h("h2", vec![tx("A wordOfTwentySixLettersAbcde")]),
    7 => el("header", &[], vec![tx("Related  Work")]),
    8 => h("h2", vec![tx("Proof of "), math(Some("ID:z"))]),
    9 => h("h2", vec![tx("Теорема Lemma")]),
    10 => el("div", &[], vec![h("h2", vec![tx("Introduction")])]),
    11 => h("m:h2", vec![tx("Acknowledgments")]),
    _ => unreachable!(),
  })
}
const CLASSES: [&str; 9] = [
  "", "ltx_theorem ltx_theorem_lemma", "ltx_theorem", "ltx_proof", "ltx_theorem ltx_theorem_note", "ltx_theorem_nonsense", "ltx_section",
  "x ltx_theorem_thm y", "ltx_proof ltx_theorem_example",
];
const CONTENTS: usize = 14;
fn content(k: usize) -> Vec<T> {
  match k {
    0 => vec![tx("Let there be some words.")],
    1 => vec![tx("only three words")],
    2 => vec![tx("and then "), math(Some("UNKNOWN:x RELOP:less-than")), tx(" it")],
    3 => vec![tx("one, two")],
    4 => vec![tx("Это слова и ещё слова")],
    5 => vec![tx("see "), el("cite", &[], vec![tx("[1]")]), tx(" and 12.5 of "), el("a", &[("class", "ltx_ref")], vec![tx("4.2")])],
    6 => vec![tx("there is wordOfTwentySixLettersAbcde and more text to see")],
    7 => vec![],
    8 => vec![el("table", &[("class", "ltx_equation")], vec![math(Some("ID:a")), math(Some("ID:b"))]), tx(" so that we have")],
    9 => vec![tx("wordOfTwentySixLettersAbcde")],
    10 => vec![math(None), tx(" "), math(None), tx(" "), math(None), tx(" "), math(Some("NUMBER:7"))],
    11 => vec![tx("Let there be some words."), T::Comment("c".into())],
    12 => vec![tx("ÀB’s İ ß mathformula of the CitationElement")],
    13 => vec![el("p", &[("class", "ltx_p")], vec![tx("First there is text;")]), el("p", &[("class", "ltx_p")], vec![tx("then more")])],
    _ => unreachable!(),
  }
}
/// part, heading, class, content
type Section = [usize; 4];
fn section(s: &Section) -> T {
  let [kind, t, c, k] = *s;
  let mut kids: Vec<T> = title(t).into_iter().collect();
  kids.push(tx(" \n "));
  match kind {
    0 => kids.push(el("div", &[("class", "ltx_para")], content(k))),
    1 => {
      kids.push(el("div", &[("class", "ltx_para")], content(k)));
      kids.push(el("div", &[("class", "ltx_para")], vec![tx("a paragraph after another one")]));
    },
    2 => kids.push(el("div", &[("class", "ltx_acknowledgement")], content(k))),
    3 => kids.push(el("figcaption", &[("class", "ltx_caption")], content(k))),
    4 => kids.extend([T::Comment("c".into()), el("div", &[("class", "ltx_abstract")], title(t).into_iter().chain([el("p", &[("class", "ltx_p")], content(k))]).collect()), el("div", &[("class", "ltx_keywords")], content(k))]),
    _ => unreachable!(),
  }
  let ns = ("xmlns:m", "urn:m");
  if CLASSES[c].is_empty() { el("section", &[ns], kids) } else { el("div", &[("class", CLASSES[c]), ns], kids) }
}

fn run33(ctx: &mut Ctx) {
  let s = |n: &str| ctx.scratch.join(n);
  let mut at = Place { exact: false,  dir: s("corpus"), tar: s("out.tar"), said: s("said"), tables: Tables::new() };
  ctx.case(
    || "SHA-256 of known texts".into(),
    |_| {
      let hex = |s: &str| crypto::sha2::compute(s.as_bytes()).iter().map(|b| format!("{b:02x}")).collect::<String>();
      same("of nothing", &hex("").as_str(), &"e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")?;
      same("of abc", &hex("abc").as_str(), &"ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
      same(
        "of two blocks",
        &hex("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq").as_str(),
        &"248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1",
      )
    },
  );
  at.exact = true;
  ctx.case(
    || "a statement that starts with an overlong word".into(),
    |ctx| {
      at.both(ctx, &[page(vec![section(&[0, 1, 0, 9])])])
        .map_err(|e| Fail { key: if e.msg.contains(DISCARDED) { "an overlong word among the first four of a statement".into() } else { e.key }, ..e })
    },
  );
  at.exact = false;
  // sections
  let mut all: Vec<Section> = Vec::new();
  for kind in 0..5 {
    for t in 0..TITLES {
      for c in 0..CLASSES.len() {
        for k in 0..CONTENTS {
          all.push([kind, t, c, k]);
        }
      }
    }
  }
  for some in all.chunks(42) {
    ctx.case(
      || format!("sections {:?} to {:?}", some[0], some[some.len() - 1]),
      |ctx| {
        let docs: Vec<T> = some.iter().map(|s| page(vec![section(s)])).collect();
        ctx.state(&docs);
        // one by one, and all in one corpus
        if !ctx.quick() {
          for d in &docs {
            at.both(ctx, std::slice::from_ref(d)).map_err(|e| Fail { msg: format!("{}: {}", d.xml(), e.msg), key: e.key })?;
          }
        }
        at.both(ctx, &docs)
      },
    );
    if ctx.done() {
      return;
    }
  }
  // two of them: a marked one changes how the other is read
  let menu: Vec<Section> = vec![
    [0, 1, 0, 0], [0, 0, 1, 0], [0, 2, 1, 2], [0, 1, 4, 0], [0, 3, 3, 5], [0, 2, 3, 0], [1, 7, 6, 11], [2, 0, 0, 0], [3, 4, 2, 0], [4, 1, 0, 0],
    [0, 6, 5, 0], [0, 0, 7, 6], [0, 0, 8, 3], [0, 5, 6, 0],
  ];
  let mut two: Vec<Vec<usize>> = seqs(menu.len(), 0, 2).collect();
  if !ctx.quick() {
    two.extend(seqs(menu.len(), 3, 3));
  }
  for some in two.chunks(14) {
    ctx.case(
      || format!("documents {some:?}"),
      |ctx| {
        let docs: Vec<T> = some.iter().map(|s| page(s.iter().map(|&k| section(&menu[k])).collect())).collect();
        for d in &docs {
          ctx.state(d);
          at.both(ctx, std::slice::from_ref(d)).map_err(|e| Fail { msg: format!("{}: {}", d.xml(), e.msg), key: e.key })?;
          // within one another
          let nested = page(vec![el("div", &[("class", "ltx_theorem ltx_theorem_def")], d.kids()[0].kids().to_vec())]);
          at.both(ctx, &[nested.clone()]).map_err(|e| Fail { msg: format!("{}: {}", nested.xml(), e.msg), key: e.key })?;
        }
        at.both(ctx, &docs)
      },
    );
    if ctx.done() {
      return;
    }
  }
  // read as XML and as HTML
  for some in [&[0, 1, 2][..], &[3, 4], &[5, 7, 10], &[8, 12]] {
    ctx.case(
      || format!("documents {some:?} as XML and HTML"),
      |ctx| {
        rayon::set_workers(1);
        let d: Vec<T> = some.iter().map(|&k| both_ways(vec![section(&menu[k])])).collect();
        let docs = write_both_ways(&at.dir, &d);
        for m in [false, true] {
          ctx.steps(docs.len() as u64);
          let r = at.program(m);
          at.judge(&r, &at.want(&docs, m)).map_err(|e| Fail { msg: format!("discard_math {m}: {}", e.msg), key: e.key })?;
        }
        Ok(())
      },
    );
  }
  let words = "Let there be some words.";
  let para = |t: &str| el("div", &[("class", "ltx_para")], vec![tx(t)]);
  // environments
  let names: Vec<&str> = at.tables.names.keys().copied().collect();
  let mut names: Vec<&str> = names.into_iter().collect();
  names.sort();
  for some in names.chunks(256) {
    ctx.case(
      || format!("environments {} to {}", some[0], some[some.len() - 1]),
      |ctx| {
        let d = page(some.iter().map(|n| el("div", &[("class", &format!("ltx_theorem ltx_theorem_{n}"))], vec![para(&format!("Of {n} there are words"))])).collect());
        let h = page(some.iter().map(|n| el("section", &[], vec![el("h2", &[], vec![tx(&format!("{n} 12"))]), para(&format!("About {n} there are words"))])).collect());
        at.both(ctx, &[d, h])
      },
    );
  }
  ctx.case(
    || "headings of every environment".into(),
    |ctx| {
      let mut heads: Vec<&String> = at.tables.headings.keys().collect();
      heads.sort();
      let d = page(heads.iter().map(|n| el("section", &[], vec![el("h2", &[], vec![tx(n)]), para(&format!("Of {n} there are words"))])).collect());
      at.both(ctx, &[d])
    },
  );
  // lengths
  for n in (0..=6).chain(1022..=1026) {
    for long in [0usize, 24, 25, 26, 27] {
      ctx.case(
        || format!("statements of {n} words and one of {long} bytes"),
        |ctx| {
          let body: Vec<T> = (0..=n)
            .filter(|&p| n < 10 || p < 2 || p > n - 6)
            .map(|p| {
              let mut w: Vec<String> = (0..n).map(|i| format!("w{i}")).collect();
              w.insert(p, "x".repeat(long));
              el("section", &[], vec![title(1).unwrap(), para(&w.join(" "))])
            })
            .collect();
          at.both(ctx, &[page(body)])
        },
      );
    }
  }
  // every character
  for cs in xml_scalars(!ctx.quick(), 512) {
    ctx.case(
      || format!("statements with {:?} to {:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        let mut body = vec![el("div", &[("class", "ltx_theorem")], vec![])];
        let mut plain = Vec::new();
        for &c in &cs {
          body.push(el("div", &[("class", &format!("ltx_theorem_le{c}mma"))], vec![para(&format!("{c} Let{c} the{c}re be words{c}."))]));
          body.push(el("div", &[("class", &format!("ltx_theorem_lemma{c}"))], vec![para("There are some words")]));
          plain.push(el("section", &[], vec![el("h2", &[], vec![tx(&format!("{c}Proof{c}"))]), para(&format!("A{c}b C{c}D {c} E and more {c}"))]));
          plain.push(el("section", &[], vec![el("h2", &[], vec![tx(&format!("Le{c}mma"))]), tx(&format!("{c}")), para(words)]));
        }
        at.both(ctx, &[page(body), page(plain)])
      },
    );
    if ctx.done() {
      return;
    }
  }
  // many, deep
  for n in LENGTHS.into_iter().filter(|n| *n < 1100) {
    ctx.case(
      || format!("{n} sections"),
      |ctx| {
        let some = |from: usize, step: usize| -> Vec<T> { (0..n).map(|i| section(&all[(from + i * step) % all.len()])).collect() };
        at.both(ctx, &[page(some(0, 97)), page(some(5, 131)), page((0..n).map(|_| section(&[0, 1, 0, 0])).collect())])
      },
    );
  }
  for n in [16, 63, 65, 129, 200] {
    ctx.case(
      || format!("{n} levels"),
      |ctx| {
        let deep = |class: &str, inner: Vec<T>| (0..n).fold(inner, |t, _| vec![el("div", &[("class", class)], t)]);
        at.both(
          ctx,
          &[
            page(deep("x", vec![section(&[0, 1, 0, 0])])),
            page(deep("ltx_theorem_lemma", vec![para(words)])),
            page(vec![title(1).unwrap(), el("div", &[("class", "ltx_para")], (0..n).fold(vec![tx(words)], |t, _| vec![el("p", &[], t)]))]),
            page(vec![el("h2", &[], (0..n).fold(vec![tx("Proof")], |t, _| vec![el("em", &[], t)])), para(words)]),
          ],
        )
      },
    );
  }
  for n in [16, 65, 257] {
    for workers in 1..=3 {
      ctx.case(
        || format!("{n} documents, {workers} workers"),
        |ctx| {
          let docs: Vec<T> = (0..n).map(|i| page(vec![section(&all[i * 101 % all.len()]), section(&all[i * 37 % all.len()])])).collect();
          at.explored(ctx, &docs, workers, 0, usize::MAX, 0)
        },
      );
    }
  }
  // schedules and faults
  let d = |s: &[usize]| page(s.iter().map(|&k| section(&menu[k])).collect());
  let corpora: [Vec<T>; 4] = [vec![], vec![d(&[0, 7])], vec![d(&[0, 2]), d(&[0, 4, 8])], vec![d(&[0]), d(&[0, 7]), d(&[1, 7])]];
  let bound = ctx.pick(2, 3);
  for (i, c) in corpora.iter().enumerate() {
    for workers in 1..=3usize {
      for capacity in [usize::MAX, 300] {
        for faults in [0, mcfault::CREATE | mcfault::WRITE] {
          let small = capacity == 300;
          if small && (faults == 0 || i > 1) || faults != 0 && workers > 2 {
            continue;
          }
          let b = if workers > 2 || small && workers > 1 || faults != 0 && i > 1 { bound - 1 } else { bound };
          ctx.case(
            || format!("corpus {i}, {workers} workers, writes of up to {capacity} bytes, {}up to {b} deviations", if faults > 0 { "faults, " } else { "" }),
            |ctx| at.explored(ctx, c, workers, b, capacity, faults),
          );
          if ctx.done() {
            return;
          }
        }
      }
    }
  }
}
