//! C07: words, and words with punctuation.
use crate::text::over;
use llamapun::dnm::DNMRange;
use llamapun::tokenizer::Tokenizer;
use mccore::gen::{scalars, seqs, LENGTHS};
use mccore::{ensure, Ctx, Prop, Verdict};

pub const PROP: Prop = Prop {
  id: "C07",
  run,
  chunk: 256,
  assumptions: &["views are built over the text directly; C01 decides how documents become views"],
  bounds: "all strings of up to 5 (6 thorough) pieces of an 18-piece alphabet (letters of the closed set, both apostrophes, punctuation, blanks, digits, non-ASCII) and up to 8 (9) pieces of {a, s, ', ’, blank, .}; each as a whole text, and as every inner range when it has at most 6 characters, behind and in front of non-ASCII text; every closed-set suffix with every one-letter extension after both apostrophes; every character of the first two planes and samples of the others (thorough: every character) in 5 contexts; 11 units repeated up to 4097 (some 65537) times",
};

pub fn words(t: &[char]) -> Vec<(usize, usize)> {
  let part = |i: usize| t[i].is_alphanumeric() || ((t[i] == '\'' || t[i] == '\u{2019}') && t.get(i + 1) == Some(&'s'));
  let mut out = Vec::new();
  let mut i = 0;
  while i < t.len() {
    let mut j = i;
    while j < t.len() && part(j) {
      j += 1;
    }
    if j > i {
      out.push((i, j));
    }
    i = j.max(i + 1);
  }
  out
}

pub fn items(t: &[char]) -> Vec<(usize, usize)> {
  let run = |i: usize| (i..t.len()).find(|&j| !t[j].is_alphanumeric()).unwrap_or(t.len());
  let mut out = Vec::new();
  let mut i = 0;
  while i < t.len() {
    let c = t[i];
    let end = if c.is_alphanumeric() {
      run(i)
    } else if c == '\'' || c == '\u{2019}' {
      let e = run(i + 1);
      let tail: String = t[i + 1..e].iter().collect();
      if ["t", "s", "un", "th", "ll", "d", "ve", "il", "re", "m"].contains(&tail.as_str()) { e } else { i + 1 }
    } else {
      i + 1
    };
    if !c.is_whitespace() {
      out.push((i, end));
    }
    i = end;
  }
  out
}

fn one(ctx: &mut Ctx, tok: &Tokenizer, text: &str, inner: bool) -> Verdict {
  let dnm = over(text, &[]);
  let t: Vec<char> = text.chars().collect();
  ctx.state(text);
  let n = t.len();
  for a in 0..=(if inner { n } else { 0 }) {
    for b in if inner { a } else { n }..=n {
      let r = DNMRange { start: a, end: b, dnm: &dnm };
      let at = |v: Vec<(usize, usize)>| -> Vec<(usize, usize)> { v.into_iter().map(|(x, y)| (x + a, y + a)).collect() };
      ctx.steps(2);
      for (what, got, want) in [
        ("words", tok.words(&r), words(&t[a..b])),
        ("words_and_punct", tok.words_and_punct(&r), items(&t[a..b])),
      ] {
        let want = at(want);
        let pos: Vec<(usize, usize)> = got.iter().map(|g| (g.start, g.end)).collect();
        ensure(pos == want, || format!("{what} of {a}..{b} are {pos:?}, expected {want:?}"))?;
        for g in &got {
          let s: String = t[g.start..g.end].iter().collect();
          ensure(g.get_plaintext() == s, || format!("{what}: {}..{} reads {:?}", g.start, g.end, g.get_plaintext()))?;
        }
      }
    }
  }
  Ok(())
}

fn run(ctx: &mut Ctx) {
  let tok = Tokenizer::default();
  let wide = [
    "a", "s", "t", "'", "\u{2019}", " ", ".", ",", "-", "1", "é", "漢", "\n", "ll", "un", "S", "\u{301}", "𝒳",
  ];
  let narrow = ["a", "s", "'", "\u{2019}", " ", "."];
  for (alpha, hi) in [(&wide[..], ctx.pick(5, 6)), (&narrow[..], ctx.pick(8, 9))] {
    for s in seqs(alpha.len(), 0, hi) {
      if ctx.mine() {
        let text: String = s.iter().map(|&i| alpha[i]).collect();
        ctx.run(
          || format!("{text:?}"),
          |ctx| {
            one(ctx, &tok, &text, false)?;
            if s.len() <= 4 {
              one(ctx, &tok, &text, true)?;
              one(ctx, &tok, &format!("é漢 {text}"), false)?;
              one(ctx, &tok, &format!("{text}’𝒳"), true)?;
            }
            Ok(())
          },
        );
      }
      if ctx.done() {
        return;
      }
    }
  }
  let closed = ["t", "s", "un", "th", "ll", "d", "ve", "il", "re", "m"];
  let letters: Vec<char> = ('a'..='z').chain(['A', 'Z', 'é', '1', '’', '\'']).collect();
  for w in closed {
    if !ctx.mine() {
      continue;
    }
    ctx.run(
      || format!("the suffix {w:?}"),
      |ctx| {
        for a in ['\'', '\u{2019}'] {
          one(ctx, &tok, &format!("can{a}{w} go"), true)?;
          one(ctx, &tok, &format!("{a}{w}"), true)?;
          one(ctx, &tok, &format!("x{a}{}.", w.to_uppercase()), true)?;
          for l in &letters {
            one(ctx, &tok, &format!("x{a}{w}{l}"), true)?;
            one(ctx, &tok, &format!("x{a}{l}{w} y"), true)?;
            one(ctx, &tok, &format!("x{a}{l}"), true)?;
            for l2 in &letters {
              one(ctx, &tok, &format!("{a}{l}{l2}"), false)?;
            }
          }
        }
        Ok(())
      },
    );
  }
  for cs in scalars(ctx.pick(false, true), 64) {
    if !ctx.mine() {
      continue;
    }
    ctx.run(
      || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        for c in &cs {
          for t in [format!("{c}"), format!("a{c}s {c}b{c}"), format!("x'{c}t{c} y{c}s {c}{c}"), format!("'{c} \u{2019}s{c} \u{2019}{c}s {c}'s"), format!("{c}'ll {c}\u{2019}re'ti{c}")] {
            one(ctx, &tok, &t, t.len() < 5).map_err(|mut e| {
              e.msg = format!("{} in {t:?}", e.msg);
              e
            })?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  for n in LENGTHS {
    for unit in ["a", " ", "é ", "漢", "'s", "\u{2019}t ", ".", "don't ", "𝒳, ", "'", "\u{301}"] {
      if n > 5000 && !["a", "é ", "'s", "."].contains(&unit) {
        continue;
      }
      if ctx.mine() {
        let text = format!("{}x'{}'ll. y's", unit.repeat(n), unit.repeat(n));
        ctx.run(|| format!("{n} times {unit:?}"), |ctx| one(ctx, &tok, &text, false));
      }
      if ctx.done() {
        return;
      }
    }
  }
}
