//! Deterministic stand-in for the Morpha stemmer (a lex program, not available here): lowercases
//! and strips a few English suffixes, word by word. `full_stem` repeats `stem` to a fixpoint, as
//! the original does.
fn stem_word(w: &str) -> String {
  match w {
    "are" | "is" => return "be".to_string(),
    "amazing" => return "amaze".to_string(),
    "tilings" => return "tiling".to_string(),
    "tiling" => return "tile".to_string(),
    _ => {},
  }
  for (suffix, min) in [("ings", 3), ("ing", 3), ("ed", 3), ("s", 2)] {
    if let Some(stem) = w.strip_suffix(suffix) {
      if stem.chars().count() >= min && stem.chars().all(|c| c.is_alphabetic()) && !stem.ends_with('s')
      {
        return stem.to_string();
      }
    }
  }
  w.to_string()
}
/// stem once
pub fn stem(s: &str) -> String {
  let mut out = String::new();
  let mut word = String::new();
  for c in s.to_lowercase().chars() {
    if c.is_alphabetic() {
      word.push(c);
    } else {
      out.push_str(&stem_word(&word));
      word.clear();
      out.push(c);
    }
  }
  out.push_str(&stem_word(&word));
  out
}
/// stem to a fixpoint
pub fn full_stem(s: &str) -> String {
  let mut cur = s.to_string();
  for _ in 0..20 {
    let next = stem(&cur);
    if next == cur {
      return cur;
    }
    cur = next;
  }
  cur
}
/// releases the C resources of the original
pub fn close() {}
