//! Running an example program within this process.
use crate::dom::{el, tx, T};
use mccore::Fail;
use mcstd::mcfault;
use std::collections::BTreeMap;
use std::io::{Read, Seek, Write};
use std::os::fd::AsRawFd;
use std::path::Path;

/// what a program did
#[derive(Debug, Clone)]
pub struct Run {
  pub result: Result<(), String>,
  /// standard output and standard error
  pub said: String,
  /// writes refused for good
  pub hard: u32,
}

struct Redirected(i32, i32);
impl Redirected {
  fn to(f: &std::fs::File) -> Redirected {
    let _ = std::io::stdout().flush();
    unsafe {
      let r = Redirected(libc::dup(1), libc::dup(2));
      libc::dup2(f.as_raw_fd(), 1);
      libc::dup2(f.as_raw_fd(), 2);
      r
    }
  }
}
impl Drop for Redirected {
  fn drop(&mut self) {
    let _ = std::io::stdout().flush();
    unsafe {
      libc::dup2(self.0, 1);
      libc::dup2(self.1, 2);
      libc::close(self.0);
      libc::close(self.1);
    }
  }
}

/// run `main` with these arguments; `said` is a scratch file
pub fn run<E: std::fmt::Display>(main: impl FnOnce() -> Result<(), E>, args: &[&str], said: &Path) -> Run {
  let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(said).unwrap();
  mcstd::env::mc_set_args(std::iter::once("program").chain(args.iter().copied()).map(String::from).collect());
  let r = {
    let _r = Redirected::to(&f);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| main().map_err(|e| format!("error: {e}"))))
  };
  let result = match r {
    Ok(r) => r,
    // an aborted execution must go on unwinding
    Err(p) if !p.is::<String>() && !p.is::<&str>() => std::panic::resume_unwind(p),
    Err(p) => Err(format!("panic: {}", mcsched::panic_message(&*p))),
  };
  let mut bytes = Vec::new();
  f.rewind().unwrap();
  f.read_to_end(&mut bytes).unwrap();
  Run { result, said: String::from_utf8_lossy(&bytes).to_string(), hard: mcfault::hard_failures() }
}

impl Run {
  /// the number before these words
  pub fn number(&self, words: &str) -> Result<u64, Fail> {
    let hits: Vec<&str> = self.said.lines().filter(|l| l.ends_with(words)).collect();
    match hits[..] {
      [l] => l[..l.len() - words.len()].trim().parse().map_err(|_| Fail::from(format!("the report says {l:?}"))),
      _ => Err(format!("{} lines of the report end in {words:?}: {:?}", hits.len(), self.said).into()),
    }
  }
  /// the numbers on lines of their own
  pub fn bare(&self) -> Vec<u64> { self.said.lines().filter_map(|l| l.trim().parse().ok()).collect() }
}

/// the records of a CSV file
pub fn records(text: &str) -> Result<Vec<Vec<String>>, Fail> {
  let mut out = Vec::new();
  let mut cs = text.chars().peekable();
  while cs.peek().is_some() {
    let mut rec = vec![String::new()];
    loop {
      match cs.next() {
        None => return Err(format!("the last record {rec:?} has no end").into()),
        Some('\n') => break,
        Some(',') => rec.push(String::new()),
        Some('"') if rec.last().unwrap().is_empty() => loop {
          match cs.next() {
            None => return Err("an open quote".into()),
            Some('"') if cs.peek() == Some(&'"') => {
              cs.next();
              rec.last_mut().unwrap().push('"');
            },
            Some('"') => break,
            Some(c) => rec.last_mut().unwrap().push(c),
          }
        },
        Some(c) => rec.last_mut().unwrap().push(c),
      }
    }
    out.push(rec);
  }
  Ok(out)
}

/// the table of a statistic: its rows after the heading, by falling frequency
pub fn table(rows: Vec<(String, String)>) -> Result<BTreeMap<String, u64>, Fail> {
  let mut out = BTreeMap::new();
  let mut last = u64::MAX;
  for (k, v) in rows {
    let v: u64 = v.parse().map_err(|_| Fail::from(format!("the frequency of {k:?} is {v:?}")))?;
    if v > last {
      return Err(format!("{k:?} with {v} comes after {last}").into());
    }
    last = v;
    if out.insert(k.clone(), v).is_some() {
      return Err(format!("{k:?} is listed twice").into());
    }
  }
  Ok(out)
}

/// write a corpus
pub fn write(dir: &Path, docs: &[T]) {
  let _ = std::fs::remove_dir_all(dir);
  std::fs::create_dir_all(dir.join("sub")).unwrap();
  for (i, d) in docs.iter().enumerate() {
    let name = if i % 3 == 2 { format!("sub/d{i}.xhtml") } else { format!("d{i}.xhtml") };
    std::fs::write(dir.join(name), d.xml()).unwrap();
  }
  // neither a document
  std::fs::write(dir.join("empty.xhtml"), "").unwrap();
  std::fs::write(dir.join("notes.txt"), "<html/>").unwrap();
}

/// a document that reads the same as XML and as HTML, if it is written accordingly
pub fn both_ways(mut body: Vec<T>) -> T {
  let meta = el("meta", &[("http-equiv", "Content-Type"), ("content", "text/html; charset=UTF-8")], vec![]);
  body.insert(0, el("hr", &[], vec![]));
  el("html", &[], vec![el("head", &[], vec![meta, el("title", &[], vec![tx("t")])]), el("body", &[], body)])
}
/// each of these documents as XML, which HTML is not, and as HTML, which XML is not, under confusing names
pub fn write_both_ways(dir: &Path, docs: &[T]) -> Vec<T> {
  let _ = std::fs::remove_dir_all(dir);
  std::fs::create_dir_all(dir.join("of.xhtml")).unwrap();
  std::fs::create_dir_all(dir.join("of.html")).unwrap();
  let mut out = Vec::new();
  for (i, d) in docs.iter().enumerate() {
    // an unknown empty element ends there in XML only: it would take in the rest in HTML
    let xml = d.xml().replace("<hr></hr>", "<hr/>");
    let html = d.xml().replace("<hr></hr>", "<hr>").replace("</meta>", "").replace("<body>", "<BODY>").replace("</body></html>", "</Body>");
    let parsed = libxml::parser::Parser::default_html().parse_string(&html).unwrap_or_else(|e| panic!("harness error: {e:?}"));
    crate::dom::align(d, parsed.get_root_readonly().unwrap(), &mut Vec::new());
    for (name, text) in [
      (format!("{i}.xhtml"), &xml),
      (format!("{i}.html"), &html),
      (format!("of.xhtml/{i}.html"), &html),
      (format!("of.html/{i}.xhtml"), &xml),
      (format!("{i}.xhtml.html"), &html),
      (format!("{i}.html.xhtml"), &xml),
      (format!("{i}xhtml.html"), &html),
    ] {
      std::fs::write(dir.join(name), text).unwrap();
      out.push(d.clone());
    }
  }
  out
}
