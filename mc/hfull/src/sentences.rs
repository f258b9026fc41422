//! C05 and C06: sentence segmentation.
use crate::text::over;
use llamapun::tokenizer::Tokenizer;
use mccore::gen::{scalars, seqs, LENGTHS};
use mccore::{ensure, Ctx, Prop, Verdict};
use std::collections::HashSet;

const ASSUME: &[&str] = &[
  "the listed abbreviations are those of the pinned commit's expression (expanded), the stopwords those of C24",
  "no more than ten blanks between a word and the mark after it",
];
const BOUNDS: &str = "all texts of up to 4 (5 thorough) pieces of a 31-piece alphabet (marks, blanks, line breaks, quotes, brackets, stopwords, abbreviations, formula tokens, capitals, digits, non-ASCII); all texts of up to 5 (6) pieces of 16 of them and of up to 7 (8) pieces of two 9-piece alphabets; every abbreviation, every stopword (with letters that only lower to its own, too) and every single-letter edit of every abbreviation and of the formula token in 12 contexts; every pair of 24 brackets, quotes and other characters around one or two marks in 4 contexts; all texts of 3 to 5 (6) pieces of 11 after 5 longer beginnings; long words around the look-ahead limit; every character of the first two planes and samples of the others (thorough: every character) in 9 contexts; 16 units repeated up to 4097 (some 65537) times";

pub const C05: Prop = Prop { id: "C05", run: |c| run(c, false), chunk: 256, assumptions: ASSUME, bounds: BOUNDS };
pub const C06: Prop = Prop { id: "C06", run: |c| run(c, true), chunk: 256, assumptions: ASSUME, bounds: BOUNDS };

pub struct Ref {
  abbr: HashSet<&'static str>,
  stop: HashSet<&'static str>,
}

const LOOKAHEAD: usize = 20;

impl Ref {
  pub fn new() -> Ref {
    Ref {
      abbr: include_str!("abbreviations.txt").lines().collect(),
      stop: include_str!("../../hpart/src/stopwords.txt").lines().collect(),
    }
  }
  /// does this sentence so far end in an abbreviation?
  fn abbreviated(&self, so_far: &[char]) -> bool {
    let s: String = so_far.iter().collect();
    let t = s.trim();
    let tail: String = {
      let mut v: Vec<char> = t.chars().rev().take_while(|c| c.is_alphabetic()).collect();
      v.reverse();
      v.into_iter().collect()
    };
    (tail.chars().count() == 1 && tail != "I") || self.abbr.contains(tail.as_str())
  }
  pub fn sentences(&self, t: &[char]) -> Vec<(usize, usize)> {
    let n = t.len();
    let mut cuts = Vec::new(); // a sentence ends before each of these positions
    let mut so_far: Vec<char> = Vec::new(); // the sentence being read, as far as it matters
    let run_at = |j: usize| -> Vec<char> { t[j..].iter().copied().take_while(|c| c.is_alphabetic()).collect() };
    let mut i = 0;
    while i < n {
      let c = t[i];
      match c {
        '.' | ':' => {
          let mut j = i + 1;
          while j < n && (t[j].is_whitespace() || t[j] == '\'') {
            j += 1;
          }
          if j == n {
            break;
          }
          let word = run_at(j);
          let next: Vec<char> = word.iter().copied().take(LOOKAHEAD).collect();
          let lower: String = next.iter().collect::<String>().to_lowercase();
          if word.iter().any(|c| c.is_uppercase()) {
            if self.stop.contains(lower.as_str()) || !self.abbreviated(&so_far) {
              cuts.push(j);
              so_far.clear();
            } else {
              so_far.push('.');
            }
            so_far.extend(&next);
            i = j + next.len();
          } else if ['*', '"', '('].contains(&t[j]) {
            cuts.push(j);
            so_far.clear();
            i = j;
          } else if c == '.' && !word.is_empty() {
            if lower.starts_with("mathformula") && !self.abbreviated(&so_far) {
              cuts.push(j);
              so_far.clear();
            } else {
              so_far.push('.');
            }
            so_far.extend(&next);
            i = j + next.len();
          } else {
            so_far.push('.');
            i = j;
          }
        },
        '?' | '!' => {
          let pair = (so_far.last().copied(), t.get(i + 1).copied());
          let bounded = [('[', ']'), ('(', ')'), ('{', '}'), ('\'', '\''), ('"', '"')]
            .iter()
            .any(|(a, b)| pair == (Some(*a), Some(*b)));
          if !bounded {
            cuts.push(i + 1);
            so_far.clear();
          }
          i += 1;
        },
        '\n' => {
          so_far.push('\n');
          i += 1;
          if t.get(i) == Some(&'\n') {
            while i < n && t[i].is_whitespace() {
              i += 1;
            }
            if i == n {
              break;
            }
            let next: Vec<char> = run_at(i).into_iter().take(LOOKAHEAD).collect();
            let word: String = next.iter().collect();
            if !word.is_empty() && !word.starts_with("mathformula") && !next[0].is_lowercase() {
              cuts.push(i);
              so_far.clear();
            }
            so_far.extend(&next);
            i += next.len();
          }
        },
        c => {
          if c.is_uppercase() {
            let s: String = so_far.iter().collect();
            if s.trim_end_matches('\n').ends_with("mathformula") {
              cuts.push(i);
              so_far.clear();
            }
          }
          so_far.push(c);
          i += 1;
        },
      }
    }
    let mut out = Vec::new();
    let mut s = 0;
    for (k, e) in cuts.iter().copied().chain([n]).enumerate() {
      let last = k == cuts.len();
      if !last || t[s..e].iter().any(|c| c.is_alphabetic()) {
        let solid: Vec<usize> = (s..e).filter(|&i| !t[i].is_whitespace()).collect();
        if let (Some(a), Some(b)) = (solid.first(), solid.last()) {
          out.push((*a, b + 1));
        }
      }
      s = e;
    }
    out
  }
}

fn partition(t: &[char], got: &[(usize, usize)]) -> Verdict {
  let mut pos = 0;
  for (k, &(a, b)) in got.iter().enumerate() {
    ensure(pos <= a && a < b && b <= t.len(), || format!("sentence {k} is {a}..{b} after {pos} in {} characters: {got:?}", t.len()))?;
    ensure(!t[a].is_whitespace() && !t[b - 1].is_whitespace(), || format!("sentence {k} at {a}..{b} is not trimmed"))?;
    if let Some(x) = (pos..a).find(|&x| !t[x].is_whitespace()) {
      return Err(format!("character {x} ({:?}) is in no sentence: {got:?}", t[x]).into());
    }
    pos = b;
  }
  if let Some(x) = (pos..t.len()).find(|&x| t[x].is_alphabetic()) {
    return Err(format!("the letter {:?} at {x} is in no sentence: {got:?}", t[x]).into());
  }
  Ok(())
}

fn one(ctx: &mut Ctx, tok: &Tokenizer, re: &Ref, text: &str, rules: bool) -> Verdict {
  let dnm = over(text, &[]);
  let got: Vec<(usize, usize)> = tok.sentences(&dnm).iter().map(|r| (r.start, r.end)).collect();
  let t: Vec<char> = text.chars().collect();
  ctx.steps(1);
  ctx.state(text);
  if rules {
    let want = re.sentences(&t);
    let show = |v: &[(usize, usize)]| -> Vec<String> { v.iter().map(|&(a, b)| t.get(a..b).map_or("?".into(), |s| s.iter().collect())).collect() };
    ensure(got == want, || format!("sentences {:?} at {got:?}, expected {:?} at {want:?}", show(&got), show(&want)))
  } else {
    partition(&t, &got)
  }
}

fn run(ctx: &mut Ctx, rules: bool) {
  let tok = Tokenizer::default();
  let re = Ref::new();
  let wide = [
    ".", ":", "?", "!", " ", "\n", "'", "\"", "(", ")", "*", "[", "]", "a", "I", "X", "The", "the", "Foo", "foo", "Fig", "no",
    "e", "mathformula", "fooBar", "é", "Éa", "1", ",", "\u{2019}", "\u{a0}",
  ];
  let mid = [".", ":", "?", " ", "\n", "\"", "(", ")", "I", "X", "The", "foo", "Fig", "no", "mathformula", "é"];
  let narrow: [&[&str]; 2] = [
    &[".", " ", "\n", "mathformula", "Foo", "foo", "Fig", "The", "x"],
    &["?", "!", ":", "'", "(", ")", "Ü b", " ", "\n"],
  ];
  for (alpha, hi) in [(&wide[..], ctx.pick(4, 5)), (&mid[..], ctx.pick(5, 6)), (narrow[0], ctx.pick(7, 8)), (narrow[1], ctx.pick(7, 8))] {
    for s in seqs(alpha.len(), 0, hi) {
      if ctx.mine() {
        let text: String = s.iter().map(|&i| alpha[i]).collect();
        ctx.run(|| format!("{text:?}"), |ctx| one(ctx, &tok, &re, &text, rules));
      }
      if ctx.done() {
        return;
      }
    }
  }
  // every listed word in context
  let mut words: Vec<String> = re.abbr.iter().chain(re.stop.iter()).map(|s| s.to_string()).collect();
  words.extend(["Mathformula", "MathFormula", "MATHFORMULA", "mathFormula", "mathformulas", "mathformulaS", "xmathformula", "mathformulamathformula", "\u{e9}mathformula"].map(str::to_string));
  for w in re.abbr.iter().copied().chain(["mathformula"]) {
    let cs: Vec<char> = w.chars().collect();
    for i in 0..cs.len() {
      let mut d = cs.clone();
      d.remove(i);
      words.push(d.into_iter().collect());
      let mut d = cs.clone();
      d.insert(i, 'q');
      words.push(d.into_iter().collect());
      let mut d = cs.clone();
      d[i] = if d[i].is_uppercase() { d[i].to_ascii_lowercase() } else { d[i].to_ascii_uppercase() };
      words.push(d.into_iter().collect());
    }
    words.push(format!("{w}s"));
  }
  // letters that only lower to the listed ones
  for w in re.stop.iter() {
    for (i, _) in w.match_indices('k') {
      words.push(format!("{}\u{212a}{}", &w[..i], &w[i + 1..]));
    }
    words.push(w.replace('i', "\u{130}"));
    words.push(w.replace('s', "\u{17f}"));
    words.push(w.to_uppercase());
  }
  words.sort();
  words.dedup();
  for w in &words {
    if !ctx.mine() {
      continue;
    }
    ctx.run(
      || format!("the word {w:?} in context"),
      |ctx| {
        let mut c = w.chars();
        let cap: String = c.next().map(|x| x.to_uppercase().collect::<String>()).unwrap_or_default() + c.as_str();
        for t in [
          format!("See {w}. Foo is bar."),
          format!("see {w} . Foo is bar"),
          format!("foo\n{w}. Foo"),
          format!("{w}: Foo"),
          format!("see {w}. mathformula is"),
          format!("Foo eq. {cap} bar"),
          format!("Foo bar. {cap}. Foo bar"),
          format!("foo\n\n{w}. Foo"),
          format!("foo. {w} foo"),
          format!("foo\n \n\n{w}\n\nX foo{w}X"),
          format!("foo \n{w}\nBar: {w}Foo"),
          format!("Bar! {cap}. {cap} {w}."),
        ] {
          one(ctx, &tok, &re, &t, rules).map_err(|mut e| {
            e.msg = format!("{} in {t:?}", e.msg);
            e
          })?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // marks between any two brackets, quotes and others
  let around = ['[', ']', '(', ')', '{', '}', '\'', '"', '`', '\u{2018}', '\u{2019}', '\u{201c}', '\u{201d}', '<', '>', '\u{ab}', '\u{bb}', '|', '/', ' ', '\n', 'a', 'B', '?'];
  for l in around {
    ctx.case(
      || format!("marks after {l:?}"),
      |ctx| {
        for r in around {
          for m in ["?", "!", "??", "?!", "? ", " !", ".", ":"] {
            for t in [format!("{l}{m}{r}"), format!("Foo {l}{m}{r} Bar"), format!("Foo{l}{m}{r}Bar. X"), format!("foo {l}x{m}{r} bar{r}{m}{l}")] {
              one(ctx, &tok, &re, &t, rules).map_err(|mut e| {
                e.msg = format!("{} in {t:?}", e.msg);
                e
              })?;
            }
          }
        }
        Ok(())
      },
    );
  }
  // behind more text than is looked at for a boundary
  let after = [".", " ", "Fig", "X", "Foo", "mathformula", "I", "foo", "\n", "?", "("];
  for pre in ["bbbbbb ", "Bbb bb bbbbbb", "bbb bbb bbbb bbb ", "mathformula mathformula ", "Bb. bbb e.g. bbbb i.e. bb"] {
    for s in seqs(after.len(), 3, ctx.pick(5, 6)) {
      if ctx.mine() {
        let text: String = std::iter::once(pre).chain(s.iter().map(|&i| after[i])).collect();
        ctx.run(|| format!("{text:?}"), |ctx| one(ctx, &tok, &re, &text, rules));
      }
    }
    if ctx.done() {
      return;
    }
  }
  // the look-ahead limit, and long sentences
  for n in 17..=24 {
    for pre in ["foo. ", "Fig. ", "x\n\n", "foo.\u{2003}"] {
      for (unit, post) in [("a", "B"), ("B", ""), ("é", "Z x"), ("Ж", ". Foo"), ("a", "mathformulaC d")] {
        if !ctx.mine() {
          continue;
        }
        let text = format!("{pre}{}{post}", unit.repeat(n));
        ctx.run(|| format!("{text:?}"), |ctx| one(ctx, &tok, &re, &text, rules));
      }
    }
  }
  for n in 1..=40 {
    for unit in ["é", "1", "漢", ",", "x "] {
      for post in ["", ".", " .", " 1234567890123", "! 123456", ": ''", ".\n\n"] {
        if !ctx.mine() {
          continue;
        }
        let text = format!("Foo {}{post}", unit.repeat(n));
        ctx.run(|| format!("{text:?}"), |ctx| one(ctx, &tok, &re, &text, rules));
      }
    }
  }
  // every character in context
  for cs in scalars(ctx.pick(false, true), 64) {
    if !ctx.mine() {
      continue;
    }
    ctx.run(
      || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        for c in &cs {
          for t in [
            format!("Foo {c}. Bar {c}"),
            format!("foo.{c}Bar{c}. {c}oo"),
            format!("foo. {c}bar: {c} Fig.{c}"),
            format!("x{c}x. The ({c}?) {c}?{c}! x"),
            format!("foo\n\n{c}oo\n{c}\n\nFoo"),
            format!("mathformula{c}x Fig{c}. Foo"),
            format!("{c}eq. Foo fo{c}. mathformula"),
            format!("{c}. X{c}I. {c}The"),
            format!("{c}"),
          ] {
            one(ctx, &tok, &re, &t, rules).map_err(|mut e| {
              e.msg = format!("{} in {t:?}", e.msg);
              e
            })?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // long texts
  for n in LENGTHS {
    for unit in ["Foo bar. ", "a", "é ", "Fig. ", "A", ".", " ", "\n", "'", "x\n\n", "mathformula ", "mathformulaX", "(?)", "Ж! ", "foo:\n", "1.2 "] {
      for post in ["", ". Foo", "\n\nFoo.", "Fig. Foo"] {
        if n > 5000 && !(post == ". Foo" && ["Foo bar. ", "é ", "x\n\n", "."].contains(&unit)) {
          continue;
        }
        if ctx.mine() {
          let text = format!("Foo {}{post}", unit.repeat(n));
          ctx.run(|| format!("{n} times {unit:?}, then {post:?}"), |ctx| one(ctx, &tok, &re, &text, rules));
        }
        if ctx.done() {
          return;
        }
      }
    }
  }
}
