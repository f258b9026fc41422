//! Exhaustive enumeration helpers.

/// Every sequence over `0..k` of length `lo..=hi`, shortest first, in lexicographic order.
pub struct Seqs {
  k: usize,
  hi: usize,
  cur: Option<Vec<usize>>,
}
pub fn seqs(k: usize, lo: usize, hi: usize) -> Seqs {
  Seqs { k, hi, cur: if lo <= hi && (k > 0 || lo == 0) { Some(vec![0; lo]) } else { None } }
}
impl Iterator for Seqs {
  type Item = Vec<usize>;
  fn next(&mut self) -> Option<Vec<usize>> {
    let out = self.cur.clone()?;
    let mut v = out.clone();
    let mut i = v.len();
    loop {
      if i == 0 {
        let n = v.len() + 1;
        self.cur = if n <= self.hi && self.k > 0 { Some(vec![0; n]) } else { None };
        break;
      }
      i -= 1;
      if v[i] + 1 < self.k {
        v[i] += 1;
        for x in v[i + 1..].iter_mut() {
          *x = 0;
        }
        self.cur = Some(v);
        break;
      }
    }
    Some(out)
  }
}

/// Number of sequences [`seqs`] yields.
pub fn seq_count(k: usize, lo: usize, hi: usize) -> u64 {
  (lo..=hi).map(|n| (k as u64).pow(n as u32)).sum()
}

/// All permutations of 0..n, identity first
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
  fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if cur.len() == n {
      out.push(cur.clone());
      return;
    }
    for i in 0..n {
      if !cur.contains(&i) {
        cur.push(i);
        go(n, cur, out);
        cur.pop();
      }
    }
  }
  let mut out = Vec::new();
  go(n, &mut Vec::new(), &mut out);
  out
}

/// All subsets of 0..n, empty first
pub fn subsets(n: usize) -> Vec<Vec<usize>> {
  (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}

/// Rooted ordered forests: every way of nesting `n` nodes, as parent vectors in preorder
/// (`usize::MAX` for a root).
pub fn forests(n: usize) -> Vec<Vec<usize>> {
  fn go(n: usize, cur: &mut Vec<usize>, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if cur.len() == n {
      out.push(cur.clone());
      return;
    }
    let i = cur.len();
    for depth in (0..=path.len()).rev() {
      let saved = path.clone();
      path.truncate(depth);
      cur.push(path.last().copied().unwrap_or(usize::MAX));
      path.push(i);
      go(n, cur, path, out);
      cur.pop();
      *path = saved;
    }
  }
  let mut out = Vec::new();
  go(n, &mut Vec::new(), &mut Vec::new(), &mut out);
  out
}

/// Words almost like this one: every prefix and suffix, every single deletion, doubling, change of case or
/// replacement of a character, and a character more at either end.
pub fn edits(w: &str) -> Vec<String> {
  let cs: Vec<char> = w.chars().collect();
  let text = |c: &[char]| c.iter().collect::<String>();
  let mut out = Vec::new();
  for i in 0..cs.len() {
    out.push(text(&cs[..i]));
    out.push(text(&cs[i + 1..]));
    let mut d = cs.clone();
    d.remove(i);
    out.push(text(&d));
    let mut d = cs.clone();
    d.insert(i, cs[i]);
    out.push(text(&d));
    for r in [if cs[i].is_uppercase() { cs[i].to_ascii_lowercase() } else { cs[i].to_ascii_uppercase() }, 'q', '_'] {
      let mut d = cs.clone();
      d[i] = r;
      out.push(text(&d));
    }
  }
  for x in ["x", "X", "s", "_", "-", "1", " ", "\u{e9}"] {
    out.push(format!("{w}{x}"));
    out.push(format!("{x}{w}"));
  }
  out.sort();
  out.dedup();
  out.retain(|e| e != w);
  out
}

/// Characters by code point, in chunks: all of the first two planes, the start of the third and of the
/// tags, and the ends of every plane; or simply all.
pub fn scalars(all: bool, chunk: usize) -> Vec<Vec<char>> {
  let pick = |c: u32| all || c < 0x2_0400 || (0xE_0000..0xE_0200).contains(&c) || c & 0xffff >= 0xffc0 || c & 0xffff < 0x20;
  let cs: Vec<char> = (0..=0x10_ffff).filter(|c| pick(*c)).filter_map(char::from_u32).collect();
  cs.chunks(chunk).map(<[char]>::to_vec).collect()
}

/// Those of [`scalars`] that an XML document can contain.
pub fn xml_scalars(all: bool, chunk: usize) -> Vec<Vec<char>> {
  let fine = |c: &char| matches!(*c as u32, 9 | 10 | 13 | 0x20..=0xfffd | 0x1_0000..);
  let cs: Vec<char> = scalars(all, 1 << 12).into_iter().flatten().filter(fine).collect();
  cs.chunks(chunk).map(<[char]>::to_vec).collect()
}

/// Lengths around the powers of two at which counters of fewer bits give out.
pub const LENGTHS: [usize; 16] = [1, 2, 31, 64, 127, 128, 129, 255, 256, 257, 4095, 4097, 32767, 32769, 65535, 65537];
