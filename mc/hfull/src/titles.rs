//! C18: heading titles. C19: AMS and structural environments.
use crate::dom::{self, el, tx, T};
use llamapun::ams::{class_to_env, has_markup, has_markup_xmldoc, normalize_env, AmsEnv, StructuralEnv};
use llamapun::data;
use llamapun::util::data_helpers::normalize_heading_title;
use mccore::gen::{forests, scalars, seqs, LENGTHS};
use mccore::{ensure, same, Ctx, Prop, Verdict};
use std::collections::HashMap;

pub const C18: Prop = Prop {
  id: "C18",
  run: run18,
  chunk: 8,
  assumptions: &["the listed phrases, words, synonyms, prefixes and suffixes are those of the pinned commit"],
  bounds: "all titles of up to 4 (5 thorough) words of a 30-word vocabulary; up to 3 words of a 20-word one joined by every choice of 6 separators; all strings of up to 6 (7) characters of 9; every listed phrase, plural, synonym, prefix and suffix alone and combined with every other word of the lists, and with one character added, dropped or changed; every character of the first two planes and samples of the others (thorough: every character) in 11 contexts; every word repeated up to 257 (between others 4097) times",
};
pub const C19: Prop = Prop {
  id: "C19",
  run: run19,
  chunk: 8,
  assumptions: &["the table of environment names is the one of the pinned commit", "heading titles are normalized as C18 decides"],
  bounds: "every environment of both kinds; all 2509 listed names with every single-character deletion, replacement and insertion over the letters, digits and underscore; every character of the first two planes and samples of the others (thorough: every character) in 5 class attributes, 4 names and 3 headings; names and attributes of up to 65537 repeated units; all class attributes of up to 5 (6 thorough) pieces of a 13-piece alphabet; all documents of up to 5 (6) elements over 10 labels",
};

const LEAD: [&str; 26] = [
  "comparison with", "list of", "summary of", "outline of", "sketch of", "overview of", "start of", "end of", "general",
  "other", "additional", "completion", "finishing", "first", "second", "third", "new", "alternative", "chapter", "section",
  "some", "basic", "closely", "an", "our", "the",
];
const TRAIL: [&str; 4] = ["see", "of", "for", "of the paper"];
const PLURAL: [&str; 31] = [
  "axiom", "algorithm", "assumption", "application", "conjecture", "condition", "conclusion", "contribution", "dataset",
  "data set", "definition", "discussion", "experiment", "example", "exercise", "lemma", "model", "method", "motivation",
  "notation", "observation", "proof", "proposition", "problem", "question", "result", "remark", "subject", "step",
  "simulation", "theorem",
];
const PLURAL_LAST: &str = "work";
const EXACT: [(&str, &str); 24] = [
  ("lemme", ""),
  ("remarque", ""),
  ("corollaire", ""),
  ("dokazatelstvo", ""),
  ("hypothesis", "conjecture"),
  ("hypotheses", "conjecture"),
  ("implementation details", "implementation"),
  ("mathematics subject classification", "subject"),
  ("subject headings", "subject"),
  ("bibliography", "references"),
  ("previous work", "related work"),
  ("prior work", "related work"),
  ("related literature", "related work"),
  ("related research", "related work"),
  ("related studies", "related work"),
  ("literature review", "related work"),
  ("preliminary", "preliminaries"),
  ("analyses", "analysis"),
  ("theoretical background", "background"),
  ("exemple", "example"),
  ("exercise", "problem"),
  ("", ""),
  ("motivation", "motivation"),
  ("proof", "proof"),
];
/// in this order; a trailing blank asks for a further word
const PREFIX: [(&str, &str); 49] = [
  ("demonstration ", "demonstration"),
  ("simulation result", "result"),
  ("simulation ", "simulation"),
  ("acknowledg", "acknowledgement"),
  ("aknowledg", "acknowledgement"),
  ("proof", "proof"),
  ("remark ", "remark"),
  ("experiment", "experiment"),
  ("key word", "keywords"),
  ("keyword", "keywords"),
  ("introduction", "introduction"),
  ("related work", "related work"),
  ("background ", "background"),
  ("appendi", "appendix"),
  ("notation", "notation"),
  ("theorem", "theorem"),
  ("lemma", "lemma"),
  ("corollary", "corollary"),
  ("proposition", "proposition"),
  ("definition", "definition"),
  ("axiom", "axiom"),
  ("conjecture", "conjecture"),
  ("hypothesis", "conjecture"),
  ("fact ", "fact"),
  ("problem ", "problem"),
  ("exercise ", "problem"),
  ("question ", "question"),
  ("result", "result"),
  ("msc", "subject"),
  ("conclusion", "conclusion"),
  ("concluding remarks", "conclusion"),
  ("summary ", "summary"),
  ("observation", "observation"),
  ("model", "model"),
  ("method", "methods"),
  ("future", "future work"),
  ("description", "description"),
  ("discussion", "discussion"),
  ("example", "example"),
  ("properties", "property"),
  ("property ", "property"),
  ("preliminaries ", "preliminaries"),
  ("condition ", "condition"),
  ("contribution ", "contribution"),
  ("analaysis", "analysis"),
  ("analysis ", "analysis"),
  ("motivation ", "motivation"),
  ("lemma", "lemma"),
  ("model", "model"),
];
const SUFFIX: [(&str, &str); 32] = [
  (" demonstration", "demonstration"),
  (" simulation", "simulation"),
  (" proof", "proof"),
  (" remark", "remark"),
  (" notation", "notation"),
  (" experiment", "experiment"),
  (" theorem", "theorem"),
  (" lemma", "lemma"),
  (" corollary", "corollary"),
  (" proposition", "proposition"),
  (" definition", "definition"),
  (" axiom", "axiom"),
  (" conjecture", "conjecture"),
  (" hypothesis", "conjecture"),
  (" conclusion", "conclusion"),
  (" summary", "summary"),
  (" problem", "problem"),
  ("exercise", "problem"),
  (" question", "question"),
  (" result", "result"),
  (" method", "methods"),
  (" model", "model"),
  (" description", "description"),
  (" discussion", "discussion"),
  (" example", "example"),
  (" property", "property"),
  (" properties", "property"),
  (" preliminaries", "preliminaries"),
  (" condition", "condition"),
  (" contribution", "contribution"),
  (" analysis", "analysis"),
  (" motivation", "motivation"),
];

fn text(cs: &[char]) -> String { cs.iter().collect() }
fn trimmed(cs: Vec<char>) -> Vec<char> { text(&cs).trim().chars().collect() }

/// words of up to `most` letters of a set, each with the blanks around it, become one blank
fn drop_words(cs: &[char], of: &dyn Fn(char) -> bool, least: usize, most: usize) -> Vec<char> {
  let n = cs.len();
  let mut out = Vec::new();
  if n == 0 {
    return out;
  }
  let mut i = 0;
  while i < n {
    let start = if cs[i].is_whitespace() {
      Some(i + 1)
    } else if i == 0 {
      Some(0)
    } else {
      None
    };
    if let Some(a) = start {
      let mut b = a;
      while b < n && of(cs[b]) && b - a < most {
        b += 1;
      }
      if b - a >= least && (b == n || cs[b].is_whitespace()) {
        out.push(' ');
        i = b + 1;
        continue;
      }
    }
    out.push(cs[i]);
    i += 1;
  }
  out
}

fn numbers(cs: &[char]) -> Vec<char> {
  let s = text(cs);
  let parts: Vec<&str> = s.split("NUM").collect();
  if parts.len() == 1 {
    return cs.to_vec();
  }
  let mut out = String::new();
  for (i, p) in parts.iter().enumerate() {
    let p = if i > 0 { p.trim_start() } else { p };
    let p = if i + 1 < parts.len() { p.trim_end() } else { p };
    if i > 0 {
      out += " ";
    }
    out += p;
  }
  out.chars().collect()
}

fn singular(cs: &[char]) -> Vec<char> {
  let n = cs.len();
  let mut out = Vec::new();
  let mut i = 0;
  'at: while i < n {
    for w in PLURAL.iter().chain([&PLURAL_LAST]) {
      let w: Vec<char> = w.chars().collect();
      let k = i + w.len();
      if k < n
        && cs[i..k].iter().zip(&w).all(|(a, b)| a == b || (*b == ' ' && a.is_whitespace()))
        && cs[k] == 's'
        && (k + 1 == n || cs[k + 1].is_whitespace())
      {
        out.extend(&cs[i..k]);
        if k + 1 < n {
          out.push(cs[k + 1]);
        }
        i = k + 2;
        continue 'at;
      }
    }
    out.push(cs[i]);
    i += 1;
  }
  out
}

/// one round
fn round(cs: &[char]) -> Vec<char> {
  let letter = |c: char| ('a'..='p').contains(&c);
  let s = trimmed(cs.to_vec());
  let s = trimmed(drop_words(&s, &|c| "xiv".contains(c), 0, usize::MAX));
  let s = trimmed(numbers(&s));
  let s = trimmed(drop_words(&s, &letter, 1, 1));
  let mut s = s;
  if s.len() >= 2 && letter(s[s.len() - 1]) && s[s.len() - 2].is_whitespace() {
    s.truncate(s.len() - 2);
  }
  let mut s = trimmed(s);
  for l in LEAD {
    let l: Vec<char> = l.chars().collect();
    if s.len() > l.len() && s[..l.len()] == l[..] && s[l.len()].is_whitespace() {
      s.drain(..=l.len());
      break;
    }
  }
  let mut s = trimmed(s);
  // the longest: it starts furthest left
  for t in TRAIL.iter().rev() {
    let t: Vec<char> = t.chars().collect();
    if s.len() > t.len() && s.ends_with(&t) && s[s.len() - t.len() - 1].is_whitespace() {
      s.truncate(s.len() - t.len() - 1);
      break;
    }
  }
  singular(&trimmed(s))
}

pub fn normal(title: &str) -> String {
  let mut cs: Vec<char> = title.chars().collect();
  loop {
    let next = round(&cs);
    if next.is_empty() {
      return String::new();
    }
    if next == cs {
      break;
    }
    cs = next;
  }
  let s = text(&cs);
  if let Some((_, v)) = EXACT.iter().find(|(k, _)| *k == s) {
    return v.to_string();
  }
  if let Some((_, v)) = PREFIX.iter().find(|(k, _)| s.starts_with(k)) {
    return v.to_string();
  }
  if let Some((_, v)) = SUFFIX.iter().find(|(k, _)| s.ends_with(k)) {
    return v.to_string();
  }
  s
}

fn one(ctx: &mut Ctx, title: &str) -> Verdict {
  ctx.steps(1);
  let want = normal(title);
  let got = normalize_heading_title(title);
  ensure(got == want, || format!("{title:?} becomes {got:?}, expected {want:?}"))
}

/// what may be added without consequence
fn stable(ctx: &mut Ctx, title: &str) -> Verdict {
  one(ctx, title)?;
  let cs: Vec<char> = title.chars().collect();
  if cs.is_empty() || round(&cs) != cs {
    return Ok(());
  }
  let base = normalize_heading_title(title);
  let words: Vec<&str> = title.split(' ').collect();
  let mut more = vec![format!(" {title}"), format!("{title}\n"), format!("\t {title}  ")];
  for at in 0..=words.len() {
    for w in ["NUM", "iv", "xxiii", "NUM NUM"] {
      let mut v = words.clone();
      v.insert(at, w);
      more.push(v.join(" "));
    }
  }
  for l in LEAD {
    more.push(format!("{l} {title}"));
    more.push(format!("{l}  {title}"));
  }
  for m in more {
    ctx.steps(1);
    let got = normalize_heading_title(&m);
    ensure(got == base, || format!("{title:?} becomes {base:?}, but {m:?} becomes {got:?}"))?;
  }
  Ok(())
}

fn run18(ctx: &mut Ctx) {
  let vocabulary = [
    "definition", "theorems", "proof", "a", "q", "xii", "v", "NUM", "the", "list", "of", "see", "paper", "general", "summary",
    "simulation", "results", "frameworks", "lemma", "exercise", "our", "key", "word", "remark", "data", "sets", "é", "for",
    "main", "chapter",
  ];
  for s in seqs(vocabulary.len(), 0, 2) {
    ctx.case(
      || format!("titles starting {:?}", s.iter().map(|&i| vocabulary[i]).collect::<Vec<_>>()),
      |ctx| {
        let long = s.len() == 2;
        for t in seqs(if long { vocabulary.len() } else { 0 }, 0, if long { ctx.pick(2, 3) } else { 0 }) {
          let title = s.iter().chain(&t).map(|&i| vocabulary[i]).collect::<Vec<_>>().join(" ");
          ctx.state(&normal(&title));
          if t.len() < 2 {
            stable(ctx, &title)?;
          } else {
            one(ctx, &title)?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  let few = &vocabulary[..20];
  let seps = [" ", "  ", "\t", "\n ", "\u{a0}", ""];
  for s in seqs(few.len(), 2, 3) {
    ctx.case(
      || format!("{:?} with separators", s.iter().map(|&i| few[i]).collect::<Vec<_>>()),
      |ctx| {
        for g in seqs(seps.len(), s.len() - 1, s.len() - 1) {
          let mut title = few[s[0]].to_string();
          for (w, g) in s[1..].iter().zip(&g) {
            title += seps[*g];
            title += few[*w];
          }
          one(ctx, &title)?;
          one(ctx, &format!("{} {title}{}", seps[g[0]], seps[g[0]]))?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  let chars = ['a', 'x', 'i', ' ', 'q', 'N', 'U', 'M', '\t'];
  for s in seqs(chars.len(), 2, 2) {
    ctx.case(
      || format!("strings starting {:?}", s.iter().map(|&i| chars[i]).collect::<String>()),
      |ctx| {
        for t in seqs(chars.len(), 0, ctx.pick(4, 5)) {
          one(ctx, &s.iter().chain(&t).map(|&i| chars[i]).collect::<String>())?;
        }
        Ok(())
      },
    );
  }
  // every character
  for cs in scalars(ctx.pick(false, true), 64) {
    ctx.case(
      || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        for c in &cs {
          for t in [
            format!("{c}"),
            format!("x{c}i"),
            format!("a{c}theorem"),
            format!("{c}the proof{c}"),
            format!("new{c}foo theorems{c}"),
            format!("theorems{c}of{c}x"),
            format!("list{c}of data{c}sets see"),
            format!("foo{c}NUM{c}bar{c}a"),
            format!("foo{c}proof"),
            format!("exercise{c}"),
            format!("lemma{c}s"),
          ] {
            one(ctx, &t)?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // long titles
  for n in LENGTHS.into_iter().filter(|n| *n < 5000) {
    for w in vocabulary.iter().copied().chain(["", "é ", "x", "NUM NUM", "simulation results", "lemmas of"]) {
      for (a, sep, b) in [("", " ", ""), ("foo ", " ", " theorem"), ("", "  ", " see"), ("", " foo ", ""), ("proof ", "", "")] {
        if n > 300 && !sep.contains("foo") && sep != "" {
          continue;
        }
        ctx.case(
          || format!("{a}, then {n} times {w:?} and {sep:?}, then {b}"),
          |ctx| one(ctx, &format!("{a}{}{b}", vec![w; n].join(sep))),
        );
      }
    }
    if ctx.done() {
      return;
    }
  }
  let mut listed: Vec<String> = LEAD.iter().chain(&TRAIL).map(|s| s.to_string()).collect();
  for p in PLURAL.iter().chain([&PLURAL_LAST]) {
    listed.push(p.to_string());
    listed.push(format!("{p}s"));
  }
  listed.extend(EXACT.iter().map(|e| e.0.to_string()));
  listed.extend(PREFIX.iter().map(|e| e.0.trim().to_string()));
  listed.extend(SUFFIX.iter().map(|e| e.0.trim().to_string()));
  listed.retain(|s| !s.is_empty());
  listed.sort();
  listed.dedup();
  for a in &listed {
    ctx.case(
      || format!("titles with {a:?}"),
      |ctx| {
        stable(ctx, a)?;
        for b in &listed {
          stable(ctx, &format!("{a} {b}"))?;
          one(ctx, &format!("{a}{b}"))?;
          one(ctx, &format!("{a} foo {b}"))?;
          one(ctx, &format!("bar {a} {b} baz"))?;
        }
        let cs: Vec<char> = a.chars().collect();
        for i in 0..=cs.len() {
          for c in "abeisxy -.é".chars() {
            let mut v = cs.clone();
            v.insert(i, c);
            for t in [text(&v), format!("foo {}", text(&v)), format!("{} foo", text(&v))] {
              one(ctx, &t)?;
            }
            if i < cs.len() {
              v = cs.clone();
              v[i] = c;
              for t in [text(&v), format!("foo {}", text(&v)), format!("{} foo", text(&v))] {
                one(ctx, &t)?;
              }
            }
          }
          if i < cs.len() {
            let mut v = cs.clone();
            v.remove(i);
            one(ctx, &text(&v))?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
}

macro_rules! envs {
  ($t:ident: $($v:ident)*) => { [$(($t::$v, stringify!($v))),*] };
}

/// the names of an environment kind, as they are written
fn spelled(v: &str) -> String {
  match v {
    "FutureWork" => "future work".to_string(),
    "RelatedWork" => "related work".to_string(),
    v => v.to_lowercase(),
  }
}
/// the environments and their names
pub struct Tables {
  pub ams: Vec<(AmsEnv, &'static str)>,
  pub structural: Vec<(StructuralEnv, &'static str)>,
  pub names: HashMap<&'static str, AmsEnv>,
  pub headings: HashMap<String, StructuralEnv>,
}
impl Tables {
  pub fn new() -> Tables {
    let ams = envs!(AmsEnv: Acknowledgement Affirmation Algorithm Answer Assumption Bound Caption Case Claim Comment Conclusion
      Condition Conjecture Constraint Convention Corollary Criterion Definition Demonstration Discussion Example Expansion
      Expectation Experiment Explanation Fact Hint Issue Keywords Lemma Notation Note Notice Observation Other Paragraph Principle
      Problem Proof Proposition Question Remark Result Rule Solution Step Summary Theorem);
    let structural = envs!(StructuralEnv: Abstract Acknowledgement Analysis Application Assumption Background Case Caption Claim
      Conclusion Condition Conjecture Contribution Corollary Data Dataset Definition Demonstration Description Discussion Example
      Experiment Fact FutureWork Implementation Introduction Lemma Methods Model Motivation Notation Observation Other
      Preliminaries Problem Proof Property Proposition Question RelatedWork Remark Result Simulation Step Summary Theorem Theory);
    let mut names: HashMap<&str, AmsEnv> = HashMap::new();
    for l in include_str!("environments.txt").lines() {
      let mut w = l.split(' ');
      let e = w.next().unwrap();
      let e = ams.iter().find(|a| a.1 == e).expect("harness error: unknown environment").0;
      for n in w {
        assert!(names.insert(n, e).is_none(), "harness error: {n} twice");
      }
    }
    let headings = structural.iter().map(|(e, n)| (spelled(n), *e)).collect();
    Tables { ams: ams.to_vec(), structural: structural.to_vec(), names, headings }
  }
  pub fn lookup(&self, name: &str) -> AmsEnv { self.names.get(name).copied().unwrap_or(AmsEnv::Other) }
  pub fn class_env(&self, c: &str) -> Option<AmsEnv> {
    if !c.contains("ltx_theorem") {
      return (c == "ltx_proof").then_some(AmsEnv::Proof);
    }
    let word = crate::docref::word_char;
    let at = (0..c.len()).filter(|&i| c.is_char_boundary(i)).find(|&i| c[i..].strip_prefix("ltx_theorem_").is_some_and(|r| r.chars().next().is_some_and(word)));
    Some(match at {
      None => AmsEnv::Theorem,
      Some(i) => {
        let name: String = c[i + "ltx_theorem_".len()..].chars().take_while(|c| word(*c)).collect();
        self.lookup(&name)
      },
    })
  }
  pub fn heading_env(&self, h: &str) -> StructuralEnv { self.headings.get(&normal(&h.to_lowercase())).copied().unwrap_or(StructuralEnv::Other) }
  /// how the environment of a class is written
  pub fn class_name(&self, c: &str) -> Option<String> {
    let e = self.class_env(c)?;
    Some(spelled(self.ams.iter().find(|a| a.0 == e).unwrap().1))
  }
  /// how the environment of a heading is written
  pub fn heading_name(&self, h: &str) -> String {
    let e = self.heading_env(h);
    spelled(self.structural.iter().find(|a| a.0 == e).unwrap().1)
  }
}

fn run19(ctx: &mut Ctx) {
  let tables = Tables::new();
  let (ams, structural, table) = (&tables.ams, &tables.structural, &tables.names);
  let lookup = |n: &str| tables.lookup(n);
  // names of the environments
  ctx.case(
    || "the names".into(),
    |ctx| {
      for (e, n) in ams.iter().copied() {
        ctx.state(n);
        ctx.steps(3);
        same("a name", &e.to_string(), &spelled(n))?;
        if e != AmsEnv::Other {
          ensure(normalize_env(&e.to_string()) == e, || format!("{e:?} is named {e}, which reads back as {:?}", normalize_env(&e.to_string())))?;
          same("a class", &class_to_env(&format!("ltx_theorem ltx_theorem_{e}")), &Some(e))?;
        }
        same("padding", &format!("{e}"), &e.to_string())?;
      }
      for (e, n) in structural.iter().copied() {
        ctx.state(n);
        ctx.steps(5);
        same("a name", &e.to_string(), &spelled(n))?;
        let s = e.to_string();
        let cap = s[..1].to_uppercase() + &s[1..];
        for t in [s.clone(), s.to_uppercase(), cap, format!(" {s}\n"), format!("NUM {s}"), format!("{s} iv")] {
          ensure(StructuralEnv::from(t.to_lowercase().as_str()) == StructuralEnv::from(t.as_str()), || format!("{t:?} depends on letter case"))?;
          if !t.contains("NUM") {
            ensure(StructuralEnv::from(t.as_str()) == e, || format!("{e:?} is named {s}, but {t:?} reads as {:?}", StructuralEnv::from(t.as_str())))?;
          }
        }
      }
      Ok(())
    },
  );
  // headings
  let env_of = |h: &str| tables.heading_env(h);
  let mut listed: Vec<String> = tables.headings.keys().cloned().collect();
  for l in EXACT.iter().chain(&PREFIX).chain(&SUFFIX) {
    listed.push(l.0.trim().into());
  }
  listed.extend(PLURAL.iter().map(|p| format!("{p}s")));
  listed.extend(["algorithm", "keywords", "references", "appendix", "subject", "foo", "É", "Dataset", "The Main Results", "İ"].map(String::from));
  listed.sort();
  listed.dedup();
  for a in &listed {
    ctx.case(
      || format!("headings with {a:?}"),
      |ctx| {
        for b in listed.iter().map(|b| format!(" {b}")).chain([String::new(), "s".into(), " II".into(), "x".into()]) {
          let h = format!("{a}{b}");
          for h in [h.to_uppercase(), h.replace('k', "\u{212a}"), h] {
            ctx.steps(1);
            same(&format!("the environment of {h:?}"), &StructuralEnv::from(h.as_str()), &env_of(&h))?;
          }
        }
        Ok(())
      },
    );
  }
  // environment names, and everything one edit away from them
  let mut names: Vec<&str> = table.keys().copied().collect();
  names.sort();
  let alphabet: Vec<char> = ('a'..='z').chain('0'..='9').chain(['_', 'A', 'T', ' ', '-', 'é']).collect();
  for some in names.chunks(20) {
    ctx.case(
      || format!("environment names from {:?}", some[0]),
      |ctx| {
        for n in some {
          let cs: Vec<char> = n.chars().collect();
          let mut near = vec![n.to_string(), n.to_uppercase(), format!("{n}{n}")];
          for i in 0..=cs.len() {
            for c in &alphabet {
              let mut v = cs.clone();
              v.insert(i, *c);
              near.push(text(&v));
              if i < cs.len() {
                v = cs.clone();
                v[i] = *c;
                near.push(text(&v));
              }
            }
            if i < cs.len() {
              let mut v = cs.clone();
              v.remove(i);
              near.push(text(&v));
            }
          }
          ctx.state(*n);
          ctx.steps(near.len() as u64);
          for m in near {
            let (got, want) = (normalize_env(&m), lookup(&m));
            ensure(got == want, || format!("the name {m:?} gives {got:?}, expected {want:?}"))?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  ctx.case(|| "short names".into(), |ctx| {
    for s in seqs(37, 0, 3) {
      let n: String = s.iter().map(|&i| alphabet[i]).collect();
      ctx.steps(1);
      let (got, want) = (normalize_env(&n), lookup(&n));
      ensure(got == want, || format!("the name {n:?} gives {got:?}, expected {want:?}"))?;
    }
    Ok(())
  });
  // class attributes
  let pieces = ["ltx_theorem", "ltx_theorem_", "_", "lemma", "thm", " ", "ltx_proof", "-", "é", "foo", "Lemma", "\n", "1"];
  let class_env = |c: &str| tables.class_env(c);
  for s in seqs(pieces.len(), 0, 2) {
    ctx.case(
      || format!("class attributes starting {:?}", s.iter().map(|&i| pieces[i]).collect::<String>()),
      |ctx| {
        let long = s.len() == 2;
        for t in seqs(if long { pieces.len() } else { 0 }, 0, if long { ctx.pick(3, 4) } else { 0 }) {
          let c: String = s.iter().chain(&t).map(|&i| pieces[i]).collect();
          ctx.steps(1);
          ctx.state(&format!("{:?}", class_env(&c)));
          let (got, want) = (class_to_env(&c), class_env(&c));
          ensure(got == want, || format!("the class {c:?} gives {got:?}, expected {want:?}"))?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  ctx.case(|| "classes of every environment name".into(), |ctx| {
    for n in &names {
      for c in [format!("ltx_theorem ltx_theorem_{n}"), format!("ltx_theorem_{n} ltx_theorem"), format!("a ltx_theorem_{n} ltx_theorem_lemma")] {
        ctx.steps(1);
        same(&c, &class_to_env(&c), &Some(lookup(n)))?;
      }
    }
    Ok(())
  });
  for cs in scalars(ctx.pick(false, true), 64) {
    ctx.case(
      || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        for c in &cs {
          ctx.steps(12);
          for a in [
            format!("ltx_theorem_{c}lemma"),
            format!("ltx_theorem_lemma{c}x"),
            format!("ltx_theorem{c}"),
            format!("ltx_proof{c}"),
            format!("{c}ltx_theorem_{c}ltx_theorem_proof{c}"),
          ] {
            let (got, want) = (class_to_env(&a), class_env(&a));
            ensure(got == want, || format!("the class {a:?} gives {got:?}, expected {want:?}"))?;
          }
          for n in [format!("{c}"), format!("lemma{c}"), format!("{c}thm"), format!("th{c}eorem")] {
            let (got, want) = (normalize_env(&n), lookup(&n));
            ensure(got == want, || format!("the name {n:?} gives {got:?}, expected {want:?}"))?;
          }
          for h in [format!("{c}"), format!("MAIN{c}Theorem"), format!("Proof{c}{c}")] {
            same(&format!("the environment of {h:?}"), &StructuralEnv::from(h.as_str()), &env_of(&h))?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  ctx.case(|| "long names".into(), |ctx| {
    for n in LENGTHS {
      for u in ["lemma", "_", "a", "é", "ltx_theorem_", "ltx_theorem ", "thm "] {
        ctx.steps(3);
        let u = u.repeat(n);
        same(&u, &normalize_env(&u), &lookup(&u))?;
        for c in [format!("{u}ltx_theorem_lemma"), format!("ltx_theorem_{u}"), format!("ltx_theorem_lemma {u}")] {
          let (got, want) = (class_to_env(&c), class_env(&c));
          ensure(got == want, || format!("the class {:?}.. of {} letters gives {got:?}, expected {want:?}", &c[..12], c.len()))?;
        }
      }
    }
    Ok(())
  });
  // documents
  let labels: [(&str, &[(&str, &str)]); 10] = [
    ("div", &[]),
    ("div", &[("class", "ltx_theorem")]),
    ("div", &[("class", "ltx_theorem ltx_theorem_lemma")]),
    ("div", &[("class", "a ltx_theorem_thm")]),
    ("div", &[("class", "ltx_proof")]),
    ("div", &[("id", "ltx_theorem")]),
    ("p", &[("class", "ltx_theorem")]),
    ("h6", &[("class", "ltx_theorem")]),
    ("svg:div", &[("class", "ltx_theorem"), ("xmlns:svg", "urn:s")]),
    ("p", &[]),
  ];
  for n in 1..=ctx.pick(4, 5) {
    for shape in forests(n) {
      for l in seqs(labels.len(), n, n) {
        if !ctx.mine() {
          if ctx.done() {
            return;
          }
          continue;
        }
        let make = |i: usize, kids: Vec<T>| {
          let kids = if kids.is_empty() { vec![tx("x ltx_theorem")] } else { kids };
          el(labels[i].0, labels[i].1, kids)
        };
        for xmlns in [false, true] {
          let attrs: &[(&str, &str)] = if xmlns { &[("xmlns", "http://www.w3.org/1999/xhtml")] } else { &[] };
          let t = el("html", attrs, dom::label_forest(&shape, &l, &make));
          ctx.run(
            || t.xml(),
            |ctx| {
              let xml = t.xml();
              let parser = libxml::parser::Parser::default();
              let dom = parser.parse_string(&xml).map_err(|e| format!("harness error: {e:?}"))?;
              let want = t.all().iter().any(|n| n.name().rsplit(':').next() == Some("div") && n.attr("class").is_some_and(|c| c.contains("ltx_theorem")));
              ctx.steps(2);
              ctx.state(&want);
              same("has_markup_xmldoc", &has_markup_xmldoc(&dom), &want)?;
              thread_local!(static CORPUS: &'static data::Corpus = Box::leak(Box::new(data::Corpus::default())));
              let d = data::Document { path: String::new(), dom, corpus: CORPUS.with(|c| *c), dnm: None };
              same("has_markup", &has_markup(&d), &want)
            },
          );
        }
      }
    }
  }
}
