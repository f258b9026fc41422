//! C34: the word report and the tagger's listing.
use crate::docref::{preset, Doc};
use crate::dom::{self, el, tx, T};
use crate::plot;
use crate::program::{run, Run};
use crate::sentences::Ref;
use crate::words;
use libxml::parser::Parser;
use llamapun_examples as ex;
use mccore::gen::{seqs, xml_scalars, LENGTHS};
use mccore::{ensure, same, Ctx, Fail, Prop, Verdict};
use senna::pos::POS;
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;

pub const PROP: Prop = Prop {
  id: "C34",
  run: run34,
  chunk: 8,
  assumptions: &[
    "selectors, text views, sentences and words are those C02, C05, C06, C07 and C21 prescribe",
    "gnuplot and Senna are stand-ins: one records what it is sent, the other splits a sentence and tags the parts",
    "libxml2's HTML parser gives the tree the harness printed (checked for every document)",
  ],
  bounds: "all documents of up to 3 (4 thorough) blocks of an 18-block menu; every character an HTML document can contain (quick: the first two planes and samples) within words, as a word, before and after words; up to 4097 blocks, words and paragraphs; blocks up to 200 levels deep",
};

const TAGS: [POS; 6] = [POS::NN, POS::VBZ, POS::WPS, POS::PRPS, POS::DOT, POS::NOT_SET];
fn tagged(s: &str) -> senna::senna::Tokens {
  senna::senna::tokenize(s).into_iter().enumerate().map(|(i, (a, b, _))| (a, b, TAGS[(i + b - a) % TAGS.len()])).collect()
}

fn page(body: Vec<T>) -> T { el("html", &[], vec![el("head", &[], vec![el("meta", &[("http-equiv", "Content-Type"), ("content", "text/html; charset=UTF-8")], vec![]), el("title", &[], vec![tx("t")])]), el("body", &[], body)]) }
fn block(k: usize) -> T {
  let p = |kids: Vec<T>| el("div", &[("class", "ltx_para")], vec![el("p", &[("class", "ltx_p")], kids)]);
  let math = || el("math", &[("class", "ltx_Math")], vec![el("mi", &[], vec![tx("x")])]);
  match k {
    0 => p(vec![tx("One sentence. Another one here! And\na third?")]),
    1 => p(vec![]),
    2 => p(vec![tx("one One oNe. One two two.")]),
    3 => p(vec![tx("Let "), math(), tx(" be. Then "), math(), tx(".")]),
    4 => p(vec![tx("Éa\u{a0}ü it's — can’t. Ωm Ü. İ")]),
    5 => p(vec![tx("x "), el("span", &[("class", "ltx_ERROR")], vec![tx("\\bad")])]),
    6 => el("p", &[], vec![tx("Loose text. More")]),
    7 => el("div", &[("class", "ltx_ERROR")], vec![tx("E")]),
    8 => el("h2", &[("class", "ltx_title ltx_title_section")], vec![tx("1 Proof")]),
    9 => el("div", &[("class", "ltx_para")], vec![tx("outer. "), p(vec![tx("Inner. See "), el("a", &[("class", "ltx_ref")], vec![tx("3")])])]),
    10 => p(vec![tx("\"quoted\" back\\slash tab\tend. 1,2 x2 2x")]),
    11 => p(vec![tx("Here "), el("cite", &[], vec![tx("[1]")]), tx(" and e.g. there. Fig. 2 is it")]),
    12 => el("div", &[("class", "ltx_note_outer")], vec![p(vec![tx("A note. Noted")])]),
    13 => el("div", &[("class", "ltx_caption")], vec![tx("Figure 1. A cat.")]),
    14 => T::Comment(" no ".into()),
    15 => el("div", &[("class", "ltx_section")], vec![p(vec![tx("In a section. Twice.")]), p(vec![tx("'quoted' (x) a.b")])]),
    16 => p(vec![tx("? ! . … '")]),
    17 => el("div", &[("class", "ltx_abstract")], vec![el("p", &[("class", "ltx_p")], vec![tx("We show it. It is")])]),
    _ => unreachable!(),
  }
}
const BLOCKS: usize = 18;

/// the sentences of a stretch of a document that are not empty, as text and words
fn sentences(r: &Ref, t: &T) -> Vec<(String, Vec<String>)> {
  let cs = preset(t).chars;
  let s = |c: &[char]| c.iter().collect::<String>();
  r.sentences(&cs).into_iter().filter(|(a, b)| a < b).map(|(a, b)| (s(&cs[a..b]), words::words(&cs[a..b]).into_iter().map(|(x, y)| s(&cs[a..b][x..y])).collect())).collect()
}
/// `list` as one line, in order of falling numbers, equal ones in any order
fn falling(what: &str, line: &str, list: &[(String, usize)]) -> Verdict {
  let mut rest = line.strip_prefix('[').and_then(|l| l.strip_suffix(']')).ok_or_else(|| Fail::from(format!("{what}: {line:?}")))?;
  let mut left: std::collections::HashMap<String, usize> = list.iter().map(|(w, n)| (format!("({w:?}, {n})"), *n)).collect();
  let mut last = usize::MAX;
  let mut n = 0;
  while !rest.is_empty() {
    // an entry ends where its number does; a word's own parentheses are inside quotes
    let mut end = None;
    let mut quoted = false;
    let mut escaped = false;
    for (i, c) in rest.char_indices() {
      match c {
        _ if escaped => escaped = false,
        '\\' => escaped = true,
        '"' => quoted = !quoted,
        ')' if !quoted => {
          end = Some(i + 1);
          break;
        },
        _ => (),
      }
    }
    let e = end.ok_or_else(|| Fail::from(format!("{what}: {rest:?} is no entry")))?;
    let v = left.remove(&rest[..e]).ok_or_else(|| Fail::from(format!("{what}: {:?} was not to be listed, or not again", &rest[..e])))?;
    ensure(v <= last, || format!("{what}: {:?} comes after {last}", &rest[..e]))?;
    last = v;
    n += 1;
    rest = rest[e..].strip_prefix(", ").unwrap_or(&rest[e..]);
  }
  same(&format!("{what}, entries"), &n, &list.len())
}

struct Place {
  work: PathBuf,
  said: PathBuf,
  sent: PathBuf,
  of: Ref,
}
const END: &[u8] = b"\nThe plot ends here.\n";
impl Place {
  fn report(&self, t: &T) -> Verdict {
    let _ = std::fs::remove_file(&self.sent);
    let r = run(|| Ok::<(), String>(ex::word_tokenization::run()), &[], &self.said);
    r.result.as_ref().map_err(|e| Fail::from(format!("the report: {e}")))?;
    let doc = Doc::new(t);
    let (mut dictionary, mut counts): (Vec<String>, Vec<usize>) = Default::default();
    let (mut paras, mut sents, mut total) = (0, 0, 0);
    let mut known = std::collections::HashMap::new();
    for p in doc.paragraphs() {
      paras += 1;
      for (_, ws) in sentences(&self.of, doc.all[p]) {
        sents += 1;
        for w in ws {
          total += 1;
          let w = w.to_lowercase();
          let i = *known.entry(w.clone()).or_insert_with(|| {
            dictionary.push(w);
            counts.push(0);
            counts.len() - 1
          });
          counts[i] += 1;
        }
      }
    }
    let after = |title: &str| -> Result<String, Fail> {
      let lines: Vec<&str> = r.said.lines().collect();
      lines.iter().position(|l| *l == title).and_then(|i| lines.get(i + 1)).map(|l| l.to_string()).ok_or_else(|| Fail::from(format!("no {title:?} in {:?}", r.said)))
    };
    let by_index: Vec<(String, usize)> = dictionary.iter().cloned().zip(1..).collect();
    falling("dictionary", &after("--- Dictionary: ")?, &by_index)?;
    let by_count: Vec<(String, usize)> = dictionary.iter().cloned().zip(counts.iter().copied()).collect();
    falling("frequencies", &after("--- Frequencies: ")?, &by_count)?;
    let mut spread = std::collections::BTreeMap::new();
    counts.iter().for_each(|c| *spread.entry(*c).or_insert(0) += 1);
    let spread: Vec<(usize, usize)> = spread.into_iter().map(|(c, n)| (n, c)).collect();
    same("frequency distribution", &after("--- Frequency distribution: ")?, &format!("{spread:?}"))?;
    for (label, n) in [("Paragraphs total", paras), ("Sentences total", sents), ("Words total", total), ("Words distinct", dictionary.len())] {
      let want = format!("--- {label}: {n}");
      let got: Vec<&str> = r.said.lines().filter(|l| l.starts_with(&format!("--- {label}: "))).collect();
      same(label, &got, &vec![want.as_str()])?;
    }
    // the plots
    let sent = std::fs::read(&self.sent).map_err(|e| format!("gnuplot was sent nothing: {e}"))?;
    let ends: Vec<usize> = (0..sent.len()).filter(|&i| sent[i..].starts_with(END)).collect();
    same("plots", &ends.len(), &2)?;
    let mut words: Vec<(f64, usize)> = counts.iter().enumerate().map(|(i, c)| (i as f64 + 1.0, *c)).collect();
    words.reverse();
    plot::judge(&sent[..ends[0]], &words, ("Word index, in order of document occurrence", "Frequency counts (log2)", "Word Frequencies", "inorder_word_freq.png"))?;
    let spread: Vec<(f64, usize)> = spread.iter().map(|(n, c)| (*n as f64, *c)).collect();
    plot::judge(&sent[ends[0]..ends[1]], &spread, ("Distinct words with this frequency", "Frequency (log2)", "Frequency Distribution", "distribution_word_freq.png"))
  }
  fn tags(&self, t: &T) -> Verdict {
    let r: Run = run(|| Ok::<(), String>(ex::pos_tagging::main()), &[], &self.said);
    r.result.as_ref().map_err(|e| Fail::from(format!("the tagger: {e}")))?;
    let mut want = String::new();
    for (s, _) in sentences(&self.of, t) {
      want += "\n --- New Sentence ---\n\n";
      for (a, b, p) in tagged(&s) {
        want += &format!("'{}'\t{}\n", &s[a..b], p.to_str());
      }
    }
    if r.said == want {
      return Ok(());
    }
    let at = r.said.lines().zip(want.lines()).take_while(|(a, b)| a == b).count();
    Err(format!("line {at} of the tagger's listing is {:?}, expected {:?}", r.said.lines().nth(at), want.lines().nth(at)).into())
  }
  fn both(&self, ctx: &mut Ctx, body: Vec<T>) -> Verdict {
    let t = page(body);
    let xml = t.xml();
    let file = self.work.join("tests/resources/0903.1000.html");
    std::fs::write(&file, &xml).unwrap();
    let parsed = Parser::default_html().parse_file(file.to_str().unwrap()).unwrap_or_else(|e| panic!("harness error: {e:?}"));
    dom::align(&t, parsed.get_root_readonly().unwrap(), &mut Vec::new());
    ctx.steps(2);
    let short = || if xml.len() > 400 { format!("a document of {} bytes", xml.len()) } else { xml.clone() };
    self.report(&t).and_then(|_| self.tags(&t)).map_err(|e| Fail { msg: format!("{}: {}", short(), e.msg), key: e.key })
  }
}

fn run34(ctx: &mut Ctx) {
  let work = ctx.scratch.join("work");
  std::fs::create_dir_all(work.join("tests/resources")).unwrap();
  std::fs::create_dir_all(work.join("bin")).unwrap();
  let script = work.join("bin/gnuplot");
  let sent = ctx.scratch.join("sent");
  std::fs::write(
    &script,
    format!("#!/bin/sh\nif [ \"$1\" = --version ]; then echo 'gnuplot 5.4 patchlevel 2'; exit 0; fi\n{{ cat; echo; echo 'The plot ends here.'; }} >> '{}'\n", sent.display()),
  )
  .unwrap();
  std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
  let path = std::env::var("PATH").unwrap_or_default();
  std::env::set_var("PATH", format!("{}:{path}", work.join("bin").display()));
  let back = std::env::current_dir().unwrap();
  std::env::set_current_dir(&work).unwrap();
  senna::senna::set_hook(Some(tagged));
  let at = Place { work, said: ctx.scratch.join("said"), sent, of: Ref::new() };

  for s in seqs(BLOCKS, 0, 2) {
    let tail = if s.len() < 2 { 0 } else { ctx.pick(1, 2) };
    ctx.case(
      || format!("blocks {s:?}"),
      |ctx| {
        for t in seqs(if tail == 0 { 0 } else { BLOCKS }, 0, tail) {
          ctx.state(&(&s, &t));
          at.both(ctx, s.iter().chain(&t).map(|&k| block(k)).collect())?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      break;
    }
  }
  let p = |s: &str| el("div", &[("class", "ltx_para")], vec![tx(s)]);
  for cs in xml_scalars(!ctx.quick(), 128) {
    // what HTML does not keep as it is
    let cs: Vec<char> = cs.into_iter().filter(|c| !matches!(*c, '\r' | '\u{80}'..='\u{9f}' | '\u{7f}') && (*c as u32) & 0xfffe != 0xfffe && !('\u{fdd0}'..='\u{fdef}').contains(c)).collect();
    if cs.is_empty() {
      continue;
    }
    ctx.case(
      || format!("{:?} to {:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        let mut body = Vec::new();
        for &c in &cs {
          body.push(p(&format!("w{c}ord {c} {c}word. Word{c} It {c}. Is")));
        }
        at.both(ctx, body)
      },
    );
    if ctx.done() {
      break;
    }
  }
  for n in LENGTHS.into_iter().filter(|n| *n < 5000) {
    for k in 0..BLOCKS {
      if n > 300 && (n != 4097 || k % 5 != 0) && ctx.quick() {
        continue;
      }
      ctx.case(|| format!("{n} times block {k}"), |ctx| at.both(ctx, (0..n).map(|_| block(k)).collect()));
    }
    ctx.case(
      || format!("{n} words, sentences and paragraphs"),
      |ctx| {
        let words: String = (0..n).map(|i| format!("w{} ", i * 7 % (n / 2 + 1))).collect();
        let sents: String = (0..n).map(|i| format!("S{i} is there. ")).collect();
        at.both(ctx, vec![p(&words), p(&sents), p(&"x".repeat(n))])
      },
    );
  }
  for n in [16, 65, 129, 200] {
    ctx.case(
      || format!("{n} levels"),
      |ctx| {
        let deep = |name: &str, class: &str, inner: T| (0..n).fold(inner, |t, _| el(name, &[("class", class)], vec![t]));
        at.both(ctx, vec![deep("div", "x", block(0)), deep("div", "ltx_para", tx("in. Depth")), el("div", &[("class", "ltx_para")], vec![deep("span", "y", tx("Deep. Words"))])])
      },
    );
  }
  ctx.case(
    || "no document".into(),
    |_| {
      let _ = std::fs::remove_file(at.work.join("tests/resources/0903.1000.html"));
      let r = run(|| Ok::<(), String>(ex::word_tokenization::run()), &[], &at.said);
      ensure(r.result.is_err(), || "the report goes without its document".into())?;
      let r = run(|| Ok::<(), String>(ex::pos_tagging::main()), &[], &at.said);
      ensure(r.result.is_err(), || "the tagger goes without its document".into())
    },
  );
  senna::senna::set_hook(None);
  std::env::set_current_dir(back).unwrap();
}
