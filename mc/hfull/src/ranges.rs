//! C03: range arithmetic against character vectors.
use crate::dom::{self, el};
use crate::text::over;
use libxml::readonly::RoNode;
use llamapun::dnm::DNMRange;
use mccore::gen::{scalars, seqs, LENGTHS};
use mccore::{ensure, Ctx, Prop, Verdict};

pub const PROP: Prop = Prop {
  id: "C03",
  run,
  chunk: 64,
  assumptions: &["byte offsets lie on character boundaries; the first node is asked of non-empty ranges with back mapping"],
  bounds: "all texts of up to 5 (6 thorough) characters over 10 characters of 1 to 4 bytes, 5 of them whitespace; every range of each; every subrange of each range by character and by byte offsets; all texts of 12 (16) characters over 2 characters for the byte search; every character of the first two planes and samples of the others (thorough: every character) in a text of 5; texts of up to 65537 characters of 6 patterns, ranges and subranges between up to 23 positions",
};

fn one(ctx: &mut Ctx, cs: &[char], nodes: &[RoNode], deep: bool) -> Verdict {
  let text: String = cs.iter().collect();
  let dnm = over(&text, nodes);
  let n = cs.len();
  let sub = |a: usize, b: usize| -> String { cs[a..b].iter().collect() };
  let at = |r: &DNMRange, a: usize, b: usize, what: &dyn Fn() -> String| -> Verdict {
    ensure(r.start == a && r.end == b, || format!("{}: got {}..{}, expected {a}..{b}", what(), r.start, r.end))
  };
  for s in 0..=n {
    for e in s..=n {
      if !deep && !(s == 0 || e == n) {
        continue;
      }
      let r = DNMRange { start: s, end: e, dnm: &dnm };
      let here = || format!("range {s}..{e} of {text:?}");
      ctx.steps(1);
      ensure(r.get_plaintext() == sub(s, e), || format!("{}: text {:?}", here(), r.get_plaintext()))?;
      ensure(r.is_empty() == (s == e), || format!("{}: is_empty", here()))?;
      ensure(r.get_plaintext_truncated() == sub(s, e).trim_end(), || {
        format!("{}: truncated {:?}", here(), r.get_plaintext_truncated())
      })?;
      if s < e {
        ensure(r.get_node() == nodes[s % nodes.len()], || format!("{}: first node", here()))?;
      }
      // trimming
      let solid: Vec<usize> = (s..e).filter(|&i| !cs[i].is_whitespace()).collect();
      let (a, b) = match (solid.first(), solid.last()) {
        (Some(a), Some(b)) => (*a, b + 1),
        _ => (e, e),
      };
      at(&r.trim(), a, b, &|| format!("{}: trim", here()))?;
      let c = r.clone();
      at(&c, s, e, &|| format!("{}: clone", here()))?;
      // subranges
      for i in 0..=e - s {
        let bi = sub(s, s + i).len();
        for j in i..=e - s {
          let bj = sub(s, s + j).len();
          at(&r.get_subrange(i, j), s + i, s + j, &|| format!("{}: subrange {i}..{j}", here()))?;
          let got = r.get_subrange_from_byte_offsets(bi, bj);
          at(&got, s + i, s + j, &|| format!("{}: byte subrange {bi}..{bj}", here()))?;
          ensure(got.get_plaintext() == sub(s + i, s + j), || format!("{}: byte subrange text", here()))?;
          ctx.steps(2);
        }
      }
    }
  }
  ctx.state(&text);
  Ok(())
}

/// long texts: ranges and subranges between chosen positions
fn long(ctx: &mut Ctx, cs: &[char], nodes: &[RoNode]) -> Verdict {
  let text: String = cs.iter().collect();
  let dnm = over(&text, nodes);
  let n = cs.len();
  let mut marks: Vec<usize> = [0, 1, 2, n / 3, n / 2, n].to_vec();
  for p in [127usize, 255, 4095, 32767, 65535] {
    marks.extend([p, p + 1, p + 2]);
  }
  marks.extend([n.saturating_sub(1), n.saturating_sub(2)]);
  marks.retain(|m| *m <= n);
  marks.sort();
  marks.dedup();
  let mut byte = vec![0; n + 1];
  for (i, c) in cs.iter().enumerate() {
    byte[i + 1] = byte[i] + c.len_utf8();
  }
  for &s in &marks {
    for &e in marks.iter().filter(|e| **e >= s) {
      let r = DNMRange { start: s, end: e, dnm: &dnm };
      ensure(r.get_plaintext() == &text[byte[s]..byte[e]], || format!("text of {s}..{e}"))?;
      ensure(r.get_plaintext_truncated() == text[byte[s]..byte[e]].trim_end(), || format!("truncated text of {s}..{e}"))?;
      let a = (s..e).find(|&i| !cs[i].is_whitespace()).unwrap_or(e);
      let b = (a..e).rev().find(|&i| !cs[i].is_whitespace()).map_or(e, |b| b + 1);
      let t = r.trim();
      ensure((t.start, t.end) == (a, b), || format!("trim of {s}..{e}: {}..{}, expected {a}..{b}", t.start, t.end))?;
      for &i in marks.iter().filter(|i| **i >= s && **i <= e) {
        for &j in marks.iter().filter(|j| **j >= i && **j <= e) {
          let g = r.get_subrange(i - s, j - s);
          ensure((g.start, g.end) == (i, j), || format!("subrange {i}..{j} of {s}..{e}: {}..{}", g.start, g.end))?;
          let g = r.get_subrange_from_byte_offsets(byte[i] - byte[s], byte[j] - byte[s]);
          ensure((g.start, g.end) == (i, j), || format!("byte subrange {i}..{j} of {s}..{e}: {}..{}", g.start, g.end))?;
          ctx.steps(2);
        }
      }
      ctx.state(&(&text, s, e));
    }
  }
  Ok(())
}

fn run(ctx: &mut Ctx) {
  let d = dom::parse(&el("r", &[], vec![el("a", &[], vec![]), el("b", &[], vec![])]));
  let nodes = d.nodes.clone();
  let alpha = ['a', ' ', '\n', 'é', '\u{2003}', '漢', '🙂', '\u{a0}', '.', '\t'];
  for s in seqs(alpha.len(), 0, ctx.pick(5, 6)) {
    if ctx.mine() {
      let cs: Vec<char> = s.iter().map(|&i| alpha[i]).collect();
      ctx.run(|| format!("{:?}", cs.iter().collect::<String>()), |ctx| one(ctx, &cs, &nodes, true));
    }
    if ctx.done() {
      return;
    }
  }
  let k = ctx.pick(12, 16);
  for two in [['a', '漢'], ['é', ' '], ['\u{2003}', '🙂']] {
    for s in seqs(2, k, k) {
      if ctx.mine() {
        let cs: Vec<char> = s.iter().map(|&i| two[i]).collect();
        ctx.run(|| format!("{:?}", cs.iter().collect::<String>()), |ctx| one(ctx, &cs, &nodes, false));
      }
      if ctx.done() {
        return;
      }
    }
  }
  // every character
  for cs in scalars(ctx.pick(false, true), 64) {
    if ctx.mine() {
      ctx.run(
        || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
        |ctx| cs.iter().try_for_each(|&c| one(ctx, &[c, 'é', c, 'b', c], &nodes, true)),
      );
    }
    if ctx.done() {
      return;
    }
  }
  for n in LENGTHS {
    for unit in ["a", " ", "é ", " 漢b", "🙂\u{2003}\n", "\ta"] {
      if ctx.mine() {
        let cs: Vec<char> = unit.chars().cycle().take(n).collect();
        ctx.run(|| format!("{n} characters of {unit:?}"), |ctx| long(ctx, &cs, &nodes));
      }
      if ctx.done() {
        return;
      }
    }
  }
}
