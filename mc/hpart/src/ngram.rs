//! C13: anchored n-gram statistics against a direct reading of the documented rule.
use llamapun::ngrams::Ngrams;
use mccore::gen::{scalars, seqs, LENGTHS};
use mccore::{ensure, same, Ctx, Prop, Verdict};
use std::collections::{BTreeMap, HashMap};

pub const PROP: Prop = Prop {
  id: "C13",
  run,
  chunk: 64,
  assumptions: &[
    "the anchor is set and the window and n are at least 1 (the other cases are documented as unimplemented)",
    "ties between equal counts may come in any order in the sorted report",
  ],
  bounds: "all anchor/filler placements up to length 14 (quick; 17 thorough) for windows 1..8 and n 1..4; all words over {anchor,a,b} up to length 7 (8); all pairs of anchors in 40 words for windows 1..20; all token/separator spellings up to 3 tokens (4); all histories of up to 3 (4) calls; every character of the first two planes and samples of the others (thorough: every character) in words and between them; up to 65537 equal and different phrases, and windows and n up to the number of words",
};

/// words of a content line: split at ASCII whitespace, kept if they start alphanumerically
fn words(content: &str) -> Vec<&str> {
  content
    .split(|c| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}'))
    .filter(|w| w.chars().next().map_or(false, |c| c.is_alphanumeric()))
    .collect()
}
fn count_run(run: &[&str], n: usize, counts: &mut BTreeMap<String, usize>) {
  if run.len() >= n {
    for i in 0..=run.len() - n {
      *counts.entry(run[i..i + n].join(" ")).or_insert(0) += 1;
    }
  }
}
fn reference(content: &str, anchor: &str, w: usize, n: usize, counts: &mut BTreeMap<String, usize>) {
  let ws = words(content);
  let mut i = 0;
  let justified = |i: usize| {
    (i.saturating_sub(w)..=(i + w).min(ws.len() - 1)).any(|j| ws[j] == anchor)
  };
  while i < ws.len() {
    if !justified(i) {
      i += 1;
      continue;
    }
    let start = i;
    while i < ws.len() && justified(i) {
      i += 1;
    }
    count_run(&ws[start..i], n, counts);
  }
}

fn compare(ng: &Ngrams, want: &BTreeMap<String, usize>) -> Verdict {
  let got: BTreeMap<String, usize> = ng.counts.iter().map(|(k, v)| (k.clone(), *v)).collect();
  same("counts", &got, want)?;
  same("distinct_count", &ng.distinct_count(), &want.len())?;
  for (k, v) in want {
    same("get", &ng.get(k), v)?;
  }
  same("get of an unseen phrase", &ng.get("unseen phrase \u{1}"), &0)?;
  let s = ng.sorted();
  ensure(s.windows(2).all(|p| p[0].1 >= p[1].1), || format!("sorted() not descending: {s:?}"))?;
  let as_map: BTreeMap<String, usize> = s.iter().map(|(k, v)| (k.to_string(), *v)).collect();
  same("sorted() length", &s.len(), &want.len())?;
  same("sorted() entries", &as_map, want)
}

fn fresh(anchor: &str, w: usize, n: usize) -> Ngrams {
  Ngrams { anchor: Some(anchor.to_string()), window_size: w, n, counts: HashMap::new() }
}

fn one(ctx: &mut Ctx, content: &str, anchor: &str, w: usize, n: usize) -> Verdict {
  let mut ng = fresh(anchor, w, n);
  ng.add_content(content);
  let mut want = BTreeMap::new();
  reference(content, anchor, w, n, &mut want);
  ctx.steps(content.split(' ').count() as u64);
  ctx.state(&(w, n, &want));
  compare(&ng, &want)
}

fn run(ctx: &mut Ctx) {
  let fillers: Vec<String> = (0..64).map(|i| format!("w{i}")).collect();
  // A: all placements of the anchor among distinct words
  for len in 0..=ctx.pick(14usize, 17) {
    for mask in 0u32..1 << len {
      let content: Vec<&str> = (0..len)
        .map(|i| if mask >> i & 1 == 1 { "anchor" } else { fillers[i].as_str() })
        .collect();
      let content = content.join(" ");
      for w in 1..=(len + 1).min(8) {
        // n = 1 sees which words are justified, n = 2 sees continuity; larger n the run lengths
        for n in 1..=(if len > 11 { 2 } else { 4 }) {
          if ctx.mine() {
            ctx.run(|| format!("W={w} n={n} {content:?}"), |ctx| one(ctx, &content, "anchor", w, n));
          }
        }
      }
      if ctx.done() {
        return;
      }
    }
  }
  // B: repeated words
  for s in seqs(3, 0, ctx.pick(7, 8)) {
    let content = s.iter().map(|&i| ["x", "a", "b"][i]).collect::<Vec<_>>().join(" ");
    for w in 1..=3 {
      for n in 1..=4 {
        if ctx.mine() {
          ctx.run(|| format!("W={w} n={n} {content:?}"), |ctx| one(ctx, &content, "x", w, n));
        }
      }
    }
    if ctx.done() {
      return;
    }
  }
  // wide windows: every pair of anchors in 40 words
  for i in 0..40usize {
    for j in i..40 {
      for w in 1..=20 {
        for n in [1, 2, 5] {
          if ctx.mine() {
            let content: Vec<&str> = (0..40)
              .map(|k| if k == i || k == j { "anchor" } else { fillers[k].as_str() })
              .collect();
            let content = content.join(" ");
            ctx.run(
              || format!("W={w} n={n} anchors at {i},{j} of 40"),
              |ctx| one(ctx, &content, "anchor", w, n),
            );
          }
        }
      }
    }
  }
  // C: spellings
  let toks = [
    "x", "X", "x,", ",x", "-", "7", "é", "É-1", "\u{a0}x", "x\u{a0}y", "_x", "x\u{b}x", "漢", "½", "(7)",
  ];
  let seps = [" ", "\t", "\n", "\u{c}", "\r\n", "  ", "\u{b}", "\u{2003}"];
  for anchor in ["x", "é", "7", "x,", "X", "absent", "", "-", "x\u{a0}y", "漢", "x\u{b}x", "x x"] {
    for t in seqs(toks.len(), 0, ctx.pick(3, 4)) {
      for sep in seqs(seps.len(), 0, 1).skip(if t.len() > 1 { 1 } else { 0 }) {
        // the chosen separator everywhere; the first and last gap get it too when there is one
        let (w, n) = (1 + t.len() % 2, 1 + t.first().copied().unwrap_or(0) % 2);
        if ctx.mine() {
          let s = sep.first().map_or("", |&i| seps[i]);
          let mut content = String::from(if t.len() == 3 { s } else { "" });
          for (i, &k) in t.iter().enumerate() {
            if i > 0 {
              content.push_str(s);
            }
            content.push_str(toks[k]);
          }
          if t.len() == 2 {
            content.push_str(s);
          }
          ctx.run(
            || format!("W={w} n={n} anchor={anchor:?} {content:?}"),
            |ctx| one(ctx, &content, anchor, w, n),
          );
        }
      }
      if ctx.done() {
        return;
      }
    }
  }
  // D: histories of calls on one collector
  let contents = ["x", "a x", "x a b", "a b a b", "b x x a", "", "a b c d x"];
  let recs: [&[&str]; 4] = [&[], &["a"], &["a", "b"], &["a", "x", "a", "x"]];
  let inserts = ["a", "x a", ""];
  let nops = contents.len() + recs.len() + inserts.len();
  for s in seqs(nops, 0, ctx.pick(3, 4)) {
    for (w, n) in [(1, 1), (1, 2), (2, 2), (2, 3), (3, 1)] {
      if !ctx.mine() {
        continue;
      }
      ctx.run(
        || format!("W={w} n={n} history {s:?} over add_content{contents:?} record_words{recs:?} insert{inserts:?}"),
        |ctx| {
          let mut ng = fresh("x", w, n);
          let mut want = BTreeMap::new();
          for &op in &s {
            if op < contents.len() {
              ng.add_content(contents[op]);
              reference(contents[op], "x", w, n, &mut want);
            } else if op < contents.len() + recs.len() {
              let r = recs[op - contents.len()];
              ng.record_words(r.to_vec());
              count_run(r, n, &mut want);
            } else {
              let p = inserts[op - contents.len() - recs.len()];
              ng.insert(p.to_string());
              *want.entry(p.to_string()).or_insert(0) += 1;
            }
            ctx.steps(1);
            ctx.state(&(w, n, &want));
            compare(&ng, &want)?;
          }
          Ok(())
        },
      );
    }
    if ctx.done() {
      return;
    }
  }
  // E: record_words alone, longer n
  for s in seqs(2, 0, 10) {
    for n in 1..=6 {
      if ctx.mine() {
        let ws: Vec<&str> = s.iter().map(|&i| ["a", "b c"][i]).collect();
        ctx.run(
          || format!("record_words n={n} {ws:?}"),
          |ctx| {
            let mut ng = fresh("x", 1, n);
            ng.record_words(ws.clone());
            let mut want = BTreeMap::new();
            count_run(&ws, n, &mut want);
            ctx.state(&(n, &want));
            compare(&ng, &want)
          },
        );
      }
    }
  }
  // large content: counters and windows beyond small sizes
  for (reps, w, n) in [(300usize, 2, 2), (70_000, 1, 1), (5_000, 3, 3), (1000, 600, 2)] {
    if ctx.mine() {
      let content = "a x b c d e f ".repeat(reps);
      ctx.run(
        || format!("W={w} n={n} 'a x b c d e f ' x {reps}"),
        |ctx| one(ctx, &content, "x", w, n),
      );
    }
  }
  for cs in scalars(ctx.pick(false, true), 64) {
    if ctx.mine() {
      ctx.run(
        || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
        |ctx| {
          for c in &cs {
            let t = format!("a{c}b x {c}a b{c}\nx{c} {c} c{c}x d");
            one(ctx, &t, "x", 1, 1)?;
            one(ctx, &t, &c.to_string(), 1, 2)?;
            one(ctx, &t, &format!("b{c}"), 2, 2)?;
          }
          Ok(())
        },
      );
    }
    if ctx.done() {
      return;
    }
  }
  for len in LENGTHS {
    for (w, n) in [(1, 1), (2, 3), (len, 1), (len / 2 + 1, 2), (3, len), (len, len), (255, 256), (256, 1)] {
      if len > 5000 && (w > 2 || n > 3) {
        continue;
      }
      for unit in 0..4 {
        if ctx.mine() {
          let word = |i: usize| match unit {
            0 => "x".to_string(),
            1 => if i == len / 2 { "x".into() } else { "é".to_string() },
            2 => if i % 2 == 0 { "x".into() } else { format!("w{i}") },
            _ => if i == 0 || i + 1 == len { "x".into() } else { format!("w{i}") },
          };
          let content = (0..len).map(word).collect::<Vec<_>>().join(" ");
          ctx.run(|| format!("W={w} n={n} {len} words of pattern {unit}"), |ctx| one(ctx, &content, "x", w, n));
        }
      }
    }
    if ctx.done() {
      return;
    }
  }
}
