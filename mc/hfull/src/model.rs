//! C11: token model extraction.
use crate::docref::{block, Block, COUNTS};
use crate::dom::{el, tx, T};
use llamapun::util::token_model::extract;
use mccore::gen::{seqs, xml_scalars, LENGTHS};
use mccore::{ensure, same, Ctx, Prop, Verdict};
use mcstd::mcfault;
use std::collections::BTreeMap;
use std::path::Path;

pub const PROP: Prop = Prop {
  id: "C11",
  run,
  chunk: 1,
  assumptions: &[
    "jwalk and rayon are stand-ins whose listing order, item assignment, interleaving and reduction tree are chosen by the explorer",
    "the environment may refuse to create the file, write less than asked, interrupt or refuse a write; it does not fail reads",
    "text views, words and selectors are those C01 to C07 and C21 prescribe",
  ],
  bounds: "all documents of up to 2 (3 thorough) paragraphs of up to 3 pieces of a 14-piece alphabet in 6 kinds of container; 10 corpora of up to 4 documents with 1 to 3 workers under all schedules up to 2 (3 thorough) deviations, one less for 3 workers with the largest or for small buffers, 3 corpora with a document of 70 to 120 kB with 2 or 3 workers under all schedules up to 1 deviation (quick: one of them, the others as they come), with whole and tiny write buffers, with and without math; every placement of up to 2 (3) write faults in 5 corpora; by one worker as it comes: documents with every character an XML document can contain (quick: the first two planes and samples) in words and formulas, and up to 4097 (32769) paragraphs, pieces, words or characters; corpora of up to 300 (1025) documents with 1 to 3 workers as they come",
};

const XHTML: &str = "http://www.w3.org/1999/xhtml";

fn page(body: Vec<T>) -> T { el("html", &[("xmlns", XHTML)], vec![el("body", &[], body)]) }

fn math(lex: Option<&str>) -> T {
  let mut kids = vec![el("mi", &[], vec![tx("x")])];
  if let Some(l) = lex {
    kids.push(el("annotation", &[("encoding", "application/x-llamapun")], vec![tx(l)]));
  }
  el("math", &[], vec![el("semantics", &[], kids)])
}

fn piece(k: usize) -> T {
  match k {
    0 => tx("Word "),
    1 => math(Some("UNKNOWN:x RELOP:less-than NUMBER:1")),
    2 => tx(" 12 "),
    3 => el("cite", &[], vec![tx("[1, 2]")]),
    4 => tx("aVeryLongWordOf26Characters"),
    5 => tx(", don’t."),
    6 => math(None),
    7 => el("table", &[("class", "ltx_equation")], vec![math(Some("ID:a")), math(Some("OPEN:( NUMBER"))]),
    8 => tx("-3a"),
    9 => tx("ÄÄÄÄÄÄÄÄÄÄÄÄÄ "),
    10 => tx("3.5e"),
    11 => el("a", &[("class", "ltx_ref")], vec![tx("2")]),
    12 => tx("exactlyTwentyFiveLettersXY"),
    13 => tx("11b exactlyTwentyFiveLetters1 "),
    _ => unreachable!(),
  }
}
const PIECES: usize = 14;

fn container(k: usize, kids: Vec<T>) -> T {
  match k {
    0 => el("div", &[("class", "ltx_para")], kids),
    1 => el("div", &[("class", "ltx_abstract")], vec![el("p", &[("class", "ltx_p")], kids)]),
    2 => el("figcaption", &[("class", "ltx_caption")], kids),
    3 => el("p", &[], kids),
    4 => el("div", &[("class", "ltx_keywords")], kids),
    5 => el("div", &[("class", "ltx_acknowledgement")], kids),
    _ => unreachable!(),
  }
}

/// merge adjacent texts, as the parser would
fn merged(kids: Vec<T>) -> Vec<T> {
  let mut out: Vec<T> = Vec::new();
  for k in kids {
    match (out.last_mut(), k) {
      (Some(T::Text(a)), T::Text(b)) => a.push_str(&b),
      (_, k) => out.push(k),
    }
  }
  out
}

#[derive(Debug, Clone)]
struct Outcome {
  counts: Result<BTreeMap<String, u64>, String>,
  hard: u32,
}

fn model(corpus: &Path, file: &Path, discard: bool) -> Outcome {
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    extract(corpus.to_str().unwrap().into(), file.to_str().unwrap().into(), discard)
      .map(|m| m.into_iter().collect::<BTreeMap<_, _>>())
      .map_err(|e| format!("error: {e}"))
  }));
  let counts = match r {
    Ok(r) => r,
    // an aborted execution must go on unwinding
    Err(p) if !p.is::<String>() && !p.is::<&str>() => std::panic::resume_unwind(p),
    Err(p) => Err(format!("panic: {}", mcsched::panic_message(&*p))),
  };
  Outcome { counts, hard: mcfault::hard_failures() }
}

/// is `s` a concatenation of all the blocks, in some order?
fn splits(s: &str, blocks: &mut Vec<&str>) -> bool {
  if blocks.is_empty() {
    return s.is_empty();
  }
  for i in 0..blocks.len() {
    if let Some(rest) = s.strip_prefix(blocks[i]) {
      let b = blocks.swap_remove(i);
      let ok = splits(rest, blocks);
      blocks.push(b);
      let n = blocks.len() - 1;
      blocks.swap(i, n);
      if ok {
        return true;
      }
    }
  }
  false
}

fn complete(got: &BTreeMap<String, u64>, file: &Path, blocks: &[Block]) -> Verdict {
  let mut want = BTreeMap::new();
  if !blocks.is_empty() {
    for (i, k) in COUNTS.iter().enumerate() {
      want.insert(k.to_string(), blocks.iter().map(|b| b.counts[i]).sum::<u64>());
    }
  }
  same("counts", got, &want)?;
  let text = std::fs::read_to_string(file).map_err(|e| format!("the model cannot be read: {e}"))?;
  let mut parts: Vec<&str> = blocks.iter().map(|b| b.text.as_str()).filter(|t| !t.is_empty()).collect();
  ensure(splits(&text, &mut parts), || {
    // long runs of a word are shown once
    let short = |s: &str| {
      let mut w: Vec<&str> = s.split(' ').collect();
      w.dedup();
      w.join(" ")
    };
    let parts: Vec<String> = parts.iter().map(|p| short(p)).collect();
    format!("the model {:?} is no sequence of the blocks {parts:?}", short(&text))
  })
}

fn write(dir: &Path, docs: &[T]) {
  let _ = std::fs::remove_dir_all(dir);
  std::fs::create_dir_all(dir).unwrap();
  for (i, d) in docs.iter().enumerate() {
    std::fs::write(dir.join(format!("d{i}.xhtml")), d.xml()).unwrap();
  }
  // neither a document
  std::fs::write(dir.join("empty.xhtml"), "").unwrap();
  std::fs::write(dir.join("notes.txt"), "<html/>").unwrap();
}

/// both ways of extracting a corpus, by one worker
fn single(ctx: &mut Ctx, dir: &Path, file: &Path, docs: Vec<T>) -> Verdict {
  write(dir, &docs);
  for discard in [false, true] {
    let o = model(dir, file, discard);
    let blocks: Vec<Block> = docs.iter().map(|d| block(d, discard)).collect();
    ctx.steps(blocks.len() as u64);
    for b in &blocks {
      ctx.state(&b.text);
    }
    let c = o.counts.map_err(|e| format!("the extraction reports {e}"))?;
    complete(&c, file, &blocks)?;
  }
  Ok(())
}

fn explored(ctx: &mut Ctx, docs: &[T], discard: bool, workers: usize, bound: u32, capacity: usize, faults: u32) -> Verdict {
  let dir = ctx.scratch.join("corpus");
  let file = ctx.scratch.join("model.txt");
  write(&dir, docs);
  let blocks: Vec<Block> = docs.iter().map(|d| block(d, discard)).collect();
  rayon::set_workers(workers);
  mcfault::set(faults, capacity);
  let r = ctx.explore(
    bound,
    2_000_000,
    || {
      mcfault::reset();
      let _ = std::fs::remove_file(&file);
      model(&dir, &file, discard)
    },
    |x, ctx| {
      let o = x.result.as_ref().map_err(|e| format!("extraction ended abnormally: {e}"))?;
      ctx.state(&(x.schedule(), format!("{o:?}")));
      let refused = x.decisions.iter().any(|d| d.kind == "create" && d.taken == 1);
      if refused || o.hard > 0 {
        ensure(o.counts.is_err(), || format!("{} but the extraction reports {:?}", if refused { "the file was not created" } else { "a write failed" }, o.counts))
      } else {
        complete(o.counts.as_ref().map_err(|e| format!("the extraction reports {e}"))?, &file, &blocks)
      }
    },
  );
  mcfault::set(0, usize::MAX);
  r
}

fn run(ctx: &mut Ctx) {
  let dir = ctx.scratch.join("corpus");
  let file = ctx.scratch.join("model.txt");
  let mut singles: Vec<Vec<T>> = vec![vec![]];
  for s in seqs(PIECES, 0, 3) {
    for c in 0..6 {
      if c < 2 || s.len() < 3 {
        singles.push(vec![container(c, merged(s.iter().map(|&k| piece(k)).collect()))]);
      }
    }
  }
  let short: Vec<T> = {
    let mut v = Vec::new();
    for c in 0..6 {
      v.push(container(c, vec![]));
      for k in 0..PIECES {
        v.push(container(c, vec![piece(k)]));
      }
    }
    v
  };
  for a in &short {
    for b in &short {
      singles.push(vec![a.clone(), b.clone()]);
    }
  }
  if !ctx.quick() {
    let some: Vec<T> = short.iter().step_by(3).cloned().collect();
    for s in seqs(some.len(), 3, 3) {
      singles.push(s.iter().map(|&i| some[i].clone()).collect());
    }
  }
  for many in singles.chunks(8) {
    ctx.case(
      || format!("documents {:?}", many.iter().map(|b| b.iter().map(T::xml).collect::<String>()).collect::<Vec<_>>()),
      |ctx| {
        rayon::set_workers(1);
        for body in many {
          let d = page(body.clone());
          for discard in [false, true] {
            let one = std::slice::from_ref(&d);
            write(&dir, one);
            let o = model(&dir, &file, discard);
            let b = [block(&d, discard)];
            ctx.steps(1);
            ctx.state(&b[0].text);
            let c = o.counts.map_err(|e| format!("{}: the extraction reports {e}", d.xml()))?;
            complete(&c, &file, &b).map_err(|mut e| {
              e.msg = format!("{} (discard_math {discard}): {}", d.xml(), e.msg);
              e
            })?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // every character: within a word, at its start, alone, and in a formula's lexemes
  for cs in xml_scalars(!ctx.quick(), 256) {
    ctx.case(
      || format!("documents with {:?} to {:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        rayon::set_workers(1);
        let mut paras = Vec::new();
        for &c in &cs {
          paras.push(container(0, vec![tx(&format!("one{c}two {c}three 4{c} {c} 5."))]));
          paras.push(container(2, vec![tx(&format!("see {c}CitationElement, mathFormula{c} it{c}cItationelements."))]));
          paras.push(container(1, vec![tx(&format!("A{c}. {c}B")), math(Some(&format!("ID:{c} {c}:x")))]));
        }
        single(ctx, &dir, &file, vec![page(paras)])
      },
    );
    if ctx.done() {
      return;
    }
  }
  // many and long
  let most = ctx.pick(5_000, 40_000);
  for n in LENGTHS.into_iter().filter(|n| *n < most) {
    for k in 0..PIECES {
      if n > 300 && (n != 4097 || k > 1) && ctx.quick() {
        continue;
      }
      ctx.case(
        || format!("{n} times piece {k}"),
        |ctx| {
          rayon::set_workers(1);
          let many = |k: usize, n: usize| merged((0..n).map(|_| piece(k)).collect());
          if n <= 4097 {
            single(ctx, &dir, &file, vec![page((0..n).map(|_| container(0, vec![piece(k)])).collect())])?;
          }
          single(ctx, &dir, &file, vec![page(vec![container(0, many(k, n)), container(1, vec![piece(0)])])])
        },
      );
    }
    for (what, s) in [("letters", "a"), ("digits", "7"), ("wide letters", "é"), ("sentences", "Aa bb. "), ("spaces", " "), ("commas", ", ")] {
      ctx.case(
        || format!("{n} {what}"),
        |ctx| {
          rayon::set_workers(1);
          single(ctx, &dir, &file, vec![page(vec![container(0, vec![tx(&format!("See {} here.", s.repeat(n)))])])])
        },
      );
    }
  }
  for n in [16, 63, 65, 255, 257, ctx.pick(300, 1025)] {
    for workers in 1..=3 {
      ctx.case(
        || format!("{n} documents, {workers} workers"),
        |ctx| {
          let docs: Vec<T> = (0..n).map(|i| page(vec![container(i % 6, merged(vec![tx(&format!("Doc{i} ")), piece(i % PIECES)]))])).collect();
          rayon::set_workers(workers);
          write(&dir, &docs);
          let blocks: Vec<Block> = docs.iter().map(|d| block(d, true)).collect();
          ctx.explore(
            0,
            2_000_000,
            || {
              let _ = std::fs::remove_file(&file);
              model(&dir, &file, true)
            },
            |x, ctx| {
              let o = x.result.as_ref().map_err(|e| format!("extraction ended abnormally: {e}"))?;
              ctx.state(&x.schedule());
              complete(o.counts.as_ref().map_err(|e| format!("the extraction reports {e}"))?, &file, &blocks)
            },
          )
        },
      );
    }
  }
  let para = |ks: &[usize]| container(0, merged(ks.iter().map(|&k| piece(k)).collect()));
  let docs = |spec: &[&[&[usize]]]| -> Vec<T> { spec.iter().map(|d| page(d.iter().map(|p| para(p)).collect())).collect() };
  let corpora: Vec<Vec<T>> = vec![
    docs(&[]),
    docs(&[&[&[0]]]),
    docs(&[&[&[0]], &[&[2]]]),
    docs(&[&[&[0, 1], &[4]], &[&[3, 2]]]),
    docs(&[&[&[1]], &[], &[&[5]]]),
    docs(&[&[&[0], &[0]], &[&[0]], &[&[2, 6]]]),
    docs(&[&[&[7, 0]], &[&[7]], &[&[1]], &[&[0, 2]]]),
    docs(&[&[&[9], &[13]], &[&[10, 5]]]),
    docs(&[&[], &[]]),
    docs(&[&[&[0, 5], &[1, 2], &[3]], &[&[6], &[11, 8]], &[&[12], &[0]]]),
  ];
  let bound = ctx.pick(2, 3);
  for (i, c) in corpora.iter().enumerate() {
    for workers in 1..=3usize {
      for capacity in [usize::MAX, 8] {
        let discard = (i + workers) % 2 == 1;
        let most = workers > 2 && ctx.quick() && [4, 5, 9].contains(&i);
        let b = if (c.len() > 2 || workers > 2) && capacity == 8 || c.len() > 3 || most { bound - 1 } else { bound };
        ctx.case(
          || format!("corpus {i} with {workers} workers, buffers of {capacity} bytes, up to {b} deviations"),
          |ctx| explored(ctx, c, discard, workers, b, capacity, 0),
        );
      }
    }
  }
  for (i, bound) in [(0, bound), (1, bound), (2, bound), (3, bound), (9, bound - 1)] {
    for workers in [1, 2] {
      for capacity in [usize::MAX, 16, 1] {
        if capacity == 1 && i == 9 && ctx.quick() {
          continue;
        }
        let b = if workers == 2 && capacity == 1 { bound - 1 } else { bound };
        ctx.case(
          || format!("corpus {i} with {workers} workers, buffers of {capacity} bytes, faults, up to {b} deviations"),
          |ctx| explored(ctx, &corpora[i], false, workers, b, capacity, mcfault::CREATE | mcfault::WRITE),
        );
      }
    }
  }
  // long documents, between whose parts nothing may come
  let long = |word: &str, paras: usize, size: usize| -> T {
    page((0..paras).map(|_| container(0, vec![tx(&format!("{word} ").repeat(size / (word.len() + 1)))])).collect())
  };
  let longs: Vec<(Vec<T>, usize)> = vec![
    (vec![long("aaa", 20, 4_000), long("bbb", 1, 10)], 2),
    (vec![long("bbb", 1, 10), long("aaa", 1, 70_000)], 2),
    (vec![long("aaa", 3, 40_000), long("bbb", 2, 10), long("ccc", 1, 10)], 3),
  ];
  for (i, (c, workers)) in longs.iter().enumerate() {
    let b = if i == 0 || !ctx.quick() { 1 } else { 0 };
    ctx.case(
      || format!("long corpus {i} with {workers} workers, up to {b} deviations"),
      |ctx| explored(ctx, c, false, *workers, b, usize::MAX, 0),
    );
  }
  // where the file cannot be made at all
  ctx.case(
    || "a model in a missing directory".into(),
    |ctx| {
      write(&dir, &[]);
      let o = model(&dir, &ctx.scratch.join("missing").join("model.txt"), false);
      ensure(o.counts.is_err(), || "no error".into())
    },
  );
  let _ = std::fs::remove_dir_all(&dir);
}
