//! C14: the dictionary against an insertion-ordered list.
use llamapun::ngrams::Dictionary;
use mccore::gen::{scalars, seqs};
use mccore::{same, Ctx, Prop, Verdict};

pub const PROP: Prop = Prop {
  id: "C14",
  run,
  chunk: 64,
  assumptions: &["words are inserted through the insertion operation only"],
  bounds: "all insertion histories up to length 7 (8 thorough) over 6 words (empty, case, trailing space, Unicode variants), observed after every insertion; all insertion histories up to length 10 (12) over 3 words; ascending, repeated and interleaved histories of up to 70000 insertions; every character as a word, and within words",
};

fn compare(d: &Dictionary, order: &[String]) -> Verdict {
  same("count", &d.count(), &order.len())?;
  same("number of entries", &d.map.len(), &order.len())?;
  for (i, w) in order.iter().enumerate() {
    if d.map.get(w) != Some(&(i + 1)) {
      return Err(format!("index of {w:?}: got {:?}, expected {}", d.map.get(w), i + 1).into());
    }
  }
  let s = d.sorted();
  if s.len() != order.len() {
    return Err(format!("sorted() has {} entries, expected {}", s.len(), order.len()).into());
  }
  for (k, (w, i)) in s.iter().enumerate() {
    let want = order.len() - k;
    if *i != want || **w != order[want - 1] {
      return Err(format!("sorted()[{k}]: got {:?}, expected {:?}", (w, i), (&order[want - 1], want)).into());
    }
  }
  Ok(())
}

fn history<'a>(ctx: &mut Ctx, words: impl Iterator<Item = &'a str>, each: bool) -> Verdict {
  let mut d = Dictionary::new();
  let mut order: Vec<String> = Vec::new();
  let mut seen = std::collections::HashSet::new();
  compare(&d, &order)?;
  for w in words {
    d.insert(w.to_string());
    if seen.insert(w.to_string()) {
      order.push(w.to_string());
    }
    ctx.steps(1);
    if each {
      ctx.state(&order);
      compare(&d, &order)?;
    }
  }
  compare(&d, &order)
}

fn run(ctx: &mut Ctx) {
  let alpha = ["a", "b", "A", "", "a ", "ä"];
  for s in seqs(alpha.len(), 0, ctx.pick(7, 8)) {
    if ctx.mine() {
      ctx.run(
        || format!("{:?}", s.iter().map(|&i| alpha[i]).collect::<Vec<_>>()),
        |ctx| history(ctx, s.iter().map(|&i| alpha[i]), true),
      );
    }
    if ctx.done() {
      return;
    }
  }
  let alpha3 = ["the", "of", "mathformula"];
  for s in seqs(3, 8, ctx.pick(10, 12)) {
    if ctx.mine() {
      ctx.run(
        || format!("{:?}", s.iter().map(|&i| alpha3[i]).collect::<Vec<_>>()),
        |ctx| history(ctx, s.iter().map(|&i| alpha3[i]), true),
      );
    }
    if ctx.done() {
      return;
    }
  }
  for n in [10usize, 100, 255, 256, 257, 1000, 65_535, 65_537, 70_000] {
    for rep in 1..=3usize {
      if ctx.mine() {
        let words: Vec<String> = (0..n).map(|i| format!("w{}", i / rep)).collect();
        ctx.run(
          || format!("{n} insertions, each word {rep} times"),
          |ctx| {
            history(ctx, words.iter().map(|s| s.as_str()), false)?;
            // and once more in reverse, which must change nothing but repeat every word
            history(ctx, words.iter().chain(words.iter().rev()).map(|s| s.as_str()), false)
          },
        );
      }
    }
  }
  for cs in scalars(true, 4096) {
    if ctx.mine() {
      ctx.run(
        || format!("the words {:?} to {:?}", cs[0], cs[cs.len() - 1]),
        |ctx| {
          let words: Vec<String> = cs.iter().flat_map(|c| [c.to_string(), format!("{c}a"), format!("a{c}"), c.to_string()]).collect();
          history(ctx, words.iter().map(String::as_str), false)
        },
      );
    }
  }
}
