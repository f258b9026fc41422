//! C20: the foreign entry point. C26: the language filter.
use crate::docref::{lexemes, node_of, preset, Doc};
use crate::dom::{el, tx, T};
use crate::lexical::normalized;
use crate::sentences::Ref;
use crate::text::over;
use crate::words;
use llamapun::extern_use::word_tokenize_for_vec2doc;
use llamapun::util::data_helpers::invalid_for_english_latin;
use llamapun::util::path_helpers::path_to_words;
use mccore::gen::{scalars, seqs, xml_scalars, LENGTHS};
use mccore::{ensure, same, Ctx, Prop, Verdict};
use std::cell::RefCell;
use std::ffi::{CStr, CString};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::rc::Rc;
use whatlang::{Info, Lang, Script};

pub const C20: Prop = Prop {
  id: "C20",
  run: run20,
  chunk: 4,
  assumptions: &["sentences, words, views and selectors are those C02, C06, C07 and C21 decide", "an abort of the process ends the worker and is reported as a violation"],
  bounds: "all documents of up to 2 (3 thorough) paragraphs of up to 3 pieces of a 16-piece alphabet in 4 containers, as XML and as HTML; every character of the first two planes and samples of the others (thorough: every character) in 6 places of a paragraph; every piece up to 257 (texts 4097) times, in up to 257 paragraphs, under up to 129 levels; missing, empty, blank, malformed, binary, truncated, unreadable and directory paths, paths with every suffix, non-ASCII names and paths that are not UTF-8",
};
pub const C26: Prop = Prop {
  id: "C26",
  run: run26,
  chunk: 64,
  assumptions: &["the language detector is a stand-in: its verdict is enumerated and its argument recorded"],
  bounds: "all plain texts of up to 5 (6 thorough) pieces of a 14-piece alphabet (the three tokens whole, cut, in other case and nested; blanks; text), every character of the first two planes and samples of the others (thorough: every character) in 2 contexts, 8 units repeated up to 65538 times, under every detector verdict of 3 scripts, 4 languages and 9 confidences, and no verdict",
};

const XHTML: &str = "http://www.w3.org/1999/xhtml";

fn math(lex: Option<&str>) -> T {
  let mut kids = vec![el("mi", &[], vec![tx("x")])];
  if let Some(l) = lex {
    kids.push(el("annotation", &[("encoding", "application/x-llamapun")], vec![tx(l)]));
  }
  el("math", &[], vec![el("semantics", &[], kids)])
}

fn piece(k: usize) -> T {
  match k {
    0 => tx("A Word. "),
    1 => math(Some("UNKNOWN:x RELOP:less-than NUMBER:1")),
    2 => tx(" 12 "),
    3 => el("cite", &[], vec![tx("[1, 2]")]),
    4 => tx("aVeryLongWordOf26Characters"),
    5 => tx(", don’t ask. It"),
    6 => math(None),
    7 => el("table", &[("class", "ltx_equation")], vec![math(Some("ID:a")), math(Some("OPEN:( NUMBER"))]),
    8 => tx("-3a e.g. Yes! "),
    9 => tx("ÄÄÄÄÄÄÄÄÄÄÄÄÄ "),
    10 => tx("..."),
    11 => el("a", &[("class", "ltx_ref")], vec![tx("2")]),
    12 => tx("exactlyTwentyFiveLettersXY"),
    13 => tx(" "),
    14 => el("em", &[], vec![tx("So? No")]),
    15 => tx("\n\nNew line"),
    _ => unreachable!(),
  }
}
const PIECES: usize = 16;

fn merged(kids: Vec<T>) -> Vec<T> {
  let mut out: Vec<T> = Vec::new();
  for k in kids {
    match (out.last_mut(), k) {
      (Some(T::Text(a)), T::Text(b)) => a.push_str(&b),
      (_, k) => out.push(k),
    }
  }
  out
}

fn container(k: usize, kids: Vec<T>) -> T {
  match k {
    0 => el("div", &[("class", "ltx_para")], kids),
    1 => el("p", &[], kids),
    2 => el("div", &[("class", "ltx_para extra")], vec![el("span", &[], kids)]),
    3 => el("div", &[("class", "ltx_para")], vec![el("span", &[("class", "ltx_ERROR")], vec![]), el("p", &[], kids)]),
    _ => unreachable!(),
  }
}

fn expected(t: &T, re: &Ref) -> String {
  let doc = Doc::new(t);
  let mut out = String::new();
  for p in doc.paragraphs() {
    let t = doc.all[p];
    let v = preset(t);
    let all = t.all();
    let mut lines = String::new();
    let mut whole = true;
    'all: for (a, b) in re.sentences(&v.chars) {
      let mut line = String::new();
      for (x, y) in words::words(&v.chars[a..b]) {
        let (x, y) = (a + x, a + y);
        let w: String = v.chars[x..y].iter().collect();
        match normalized(&w, || lexemes(all[node_of(t, &v, x, y)]), false, true, true) {
          Some(w) => line += &(w + " "),
          None => {
            whole = false;
            break 'all;
          },
        }
      }
      if !line.is_empty() {
        lines += &(line + "\n");
      }
    }
    if whole {
      out += &lines;
    }
  }
  out
}

fn call(path: &[u8]) -> Result<String, String> {
  let c = CString::new(path).unwrap();
  let r = unsafe { word_tokenize_for_vec2doc(c.as_ptr()) };
  if r.is_null() {
    return Err("the result is a null pointer".into());
  }
  let out = unsafe { CStr::from_ptr(r) }.to_str().map(str::to_string).map_err(|_| "the result is not UTF-8".to_string());
  drop(unsafe { CString::from_raw(r) });
  out
}

fn both(path: &Path, want: &str) -> Verdict {
  same("the result", &call(path.as_os_str().as_bytes())?, &want.to_string())?;
  if let Some(p) = path.to_str() {
    same("path_to_words", &path_to_words(p.to_string()), &want.to_string())?;
  }
  Ok(())
}

fn page(body: Vec<T>) -> T { el("html", &[("xmlns", XHTML)], vec![el("body", &[], body)]) }

fn run20(ctx: &mut Ctx) {
  let re = Ref::new();
  let dir = ctx.scratch.join("foreign");
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).unwrap();
  let mut bodies: Vec<Vec<T>> = vec![vec![]];
  let mut short = Vec::new();
  for s in seqs(PIECES, 0, 3) {
    for c in 0..4 {
      if s.len() < 3 || c == 0 {
        let b = container(c, merged(s.iter().map(|&k| piece(k)).collect()));
        if s.len() < 2 {
          short.push(b.clone());
        }
        bodies.push(vec![b]);
      }
    }
  }
  for s in seqs(short.len(), 2, 2) {
    bodies.push(s.iter().map(|&i| short[i].clone()).collect());
  }
  if !ctx.quick() {
    let some: Vec<T> = short.iter().step_by(2).cloned().collect();
    for s in seqs(some.len(), 3, 3) {
      bodies.push(s.iter().map(|&i| some[i].clone()).collect());
    }
  }
  for many in bodies.chunks(8) {
    ctx.case(
      || format!("documents {:?}", many.iter().map(|b| b.iter().map(T::xml).collect::<String>()).collect::<Vec<_>>()),
      |ctx| {
        for body in many {
          let d = page(body.clone());
          let want = expected(&d, &re);
          ctx.state(&want);
          ctx.steps(2);
          let p = dir.join("doc.xhtml");
          std::fs::write(&p, d.xml()).unwrap();
          both(&p, &want).map_err(|mut e| {
            e.msg = format!("{}: {}", d.xml(), e.msg);
            e
          })?;
          // as HTML: the XML namespace is gone, the paragraphs are the same where nothing is reparented
          if !d.all().iter().any(|n| n.name() == "table") {
            let html = el("html", &[], vec![el("head", &[], vec![el("meta", &[("charset", "utf-8")], vec![])]), el("body", &[], body.clone())]);
            let text = html.xml().replace("<meta charset=\"utf-8\"/>", "<meta charset=\"utf-8\">");
            if !text.contains("/>") {
              for name in ["doc.html", "doc", "dÖc.xml"] {
                let p = dir.join(name);
                std::fs::write(&p, &text).unwrap();
                both(&p, &want).map_err(|mut e| {
                  e.msg = format!("{text} as {name}: {}", e.msg);
                  e
                })?;
              }
            }
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  let whole = |ctx: &mut Ctx, body: Vec<T>| -> Verdict {
    let d = page(body);
    let want = expected(&d, &re);
    ctx.state(&want);
    ctx.steps(2);
    let p = dir.join("doc.xhtml");
    std::fs::write(&p, d.xml()).unwrap();
    both(&p, &want)
  };
  // every character
  for cs in xml_scalars(ctx.pick(false, true), 32) {
    ctx.case(
      || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        let body = cs.iter().map(|c| container(0, vec![tx(&format!("{c} A{c}b. {c}oo {c}1{c}. Foo{c}? {c}'s"))])).collect();
        whole(ctx, body)
      },
    );
    if ctx.done() {
      return;
    }
  }
  // large documents
  for n in LENGTHS.into_iter().filter(|n| *n < 5000) {
    for k in 0..PIECES {
      ctx.case(
        || format!("{n} times piece {k}"),
        |ctx| {
          let t = piece(k);
          if n < 300 {
            let seps = ["a", ". B ", " "];
            whole(ctx, vec![container(0, merged((0..n).flat_map(|i| [t.clone(), tx(seps[i % 3])]).collect()))])?;
            whole(ctx, (0..n).map(|i| container(i % 4, vec![t.clone()])).collect())?;
          } else if let T::Text(w) = &t {
            whole(ctx, vec![container(0, vec![tx(&w.repeat(n))])])?;
          }
          if n < 200 {
            let mut d = t;
            for i in 0..n {
              d = el(["em", "span", "div"][i % 3], &[("class", ["", "ltx_text"][i % 2])], vec![tx("A "), d, tx(" b.")]);
            }
            whole(ctx, vec![container(0, vec![d])])?;
          }
          Ok(())
        },
      );
    }
    if ctx.done() {
      return;
    }
  }
  let full = page(vec![container(0, vec![piece(0)])]).xml();
  let bads: Vec<(&str, Vec<u8>)> = vec![
    ("empty", vec![]),
    ("blank", b" \n".to_vec()),
    ("malformed", b"<html><body></div></html>".to_vec()),
    ("text", b"just text".to_vec()),
    ("binary", (0..=255u8).collect()),
    ("two roots", b"<a/><b/>".to_vec()),
    ("comment only", b"<!-- c -->".to_vec()),
    ("entity", b"<html><body><p>&nope;</p></body></html>".to_vec()),
    ("bad encoding", b"<?xml version='1.0' encoding='nope'?><html/>".to_vec()),
    ("no paragraph", b"<html><body>Text.</body></html>".to_vec()),
  ];
  for (what, bytes) in &bads {
    for name in ["f.xhtml", "f.html", "f", "f.HTML", "ü 漢.xhtml"] {
      ctx.case(
        || format!("a file {name} that is {what}"),
        |ctx| {
          let p = dir.join(name);
          std::fs::write(&p, bytes).unwrap();
          ctx.steps(2);
          let r = both(&p, "");
          std::fs::remove_file(&p).unwrap();
          r
        },
      );
    }
  }
  // cut anywhere, with any byte flipped: whatever it means, no failure
  let len = full.len();
  for at in (0..len).step_by(8) {
    ctx.case(
      || format!("documents cut or damaged from byte {at}"),
      |ctx| {
        for k in at..(at + 8).min(len) {
          for name in ["g.xhtml", "g.html"] {
            let p = dir.join(name);
            let mut damaged = full.clone().into_bytes();
            damaged.truncate(k);
            std::fs::write(&p, &damaged).unwrap();
            call(p.as_os_str().as_bytes())?;
            for b in [0u8, 0xff, b'<', b'&', 0xc3] {
              let mut damaged = full.clone().into_bytes();
              damaged[k] = b;
              std::fs::write(&p, &damaged).unwrap();
              ctx.steps(1);
              call(p.as_os_str().as_bytes())?;
            }
          }
        }
        Ok(())
      },
    );
  }
  for name in ["", "/", "none.xhtml", "none.html", "none", "http://[", "file:///none.html", "d.html", "d.xhtml", "d", "loop.html", "f.html/x", "nul\u{1}.html"] {
    ctx.case(
      || format!("the path {name:?}"),
      |ctx| {
        for d in ["d.html", "d.xhtml", "d"] {
          std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        let _ = std::os::unix::fs::symlink(dir.join("loop.html"), dir.join("loop.html"));
        ctx.steps(2);
        if name.is_empty() || name == "/" || name.contains(':') {
          both(Path::new(name), "")
        } else {
          both(&dir.join(name), "")
        }
      },
    );
  }
  for raw in [&b"\xff.html"[..], b"a\xc3", b"\xed\xa0\x80.xhtml", b"\x80", b"x/\xfe/y.html"] {
    ctx.case(
      || format!("the path {raw:?}"),
      |ctx| {
        // even when such a file exists
        let mut p = dir.as_os_str().as_bytes().to_vec();
        p.push(b'/');
        p.extend(raw);
        let _ = std::fs::write(Path::new(std::ffi::OsStr::from_bytes(&p)), &full);
        ctx.steps(1);
        same("the result", &call(&p)?, &String::new())
      },
    );
  }
  let _ = std::fs::remove_dir_all(&dir);
}

fn run26(ctx: &mut Ctx) {
  let asked: Rc<RefCell<Vec<String>>> = Rc::new(RefCell::new(Vec::new()));
  let verdict: Rc<RefCell<Option<Info>>> = Rc::new(RefCell::new(None));
  let (a, v) = (asked.clone(), verdict.clone());
  whatlang::set_hook(Some(Box::new(move |t: &str| {
    a.borrow_mut().push(t.to_string());
    *v.borrow()
  })));
  let next_up = |x: f64| f64::from_bits(x.to_bits() + 1);
  let mut verdicts = vec![None];
  for script in [Script::Latin, Script::Cyrillic, Script::Greek] {
    for lang in [Lang::Eng, Lang::Deu, Lang::Rus, Lang::Fra] {
      for c in [0.0, 0.5, 0.9, 0.9299, 0.93, next_up(0.93), 0.931, 0.95, 1.0] {
        verdicts.push(Some(Info::new(script, lang, c)));
      }
    }
  }
  let alpha = [
    "mathformula", "CitationElement", "REF", " ", "\n", "word", "é", "MathFormula", "citationelement", "Ref", "math", "formula", "RE", "F",
  ];
  let blanked = |t: &str| -> String {
    // the tokens, one after the other, each from left to right
    let mut cs: Vec<char> = t.chars().collect();
    for tok in ["mathformula", "CitationElement", "REF"] {
      let tok: Vec<char> = tok.chars().collect();
      let mut out = Vec::new();
      let mut i = 0;
      while i < cs.len() {
        if cs[i..].starts_with(&tok) {
          out.push(' ');
          i += tok.len();
        } else {
          out.push(cs[i]);
          i += 1;
        }
      }
      cs = out;
    }
    cs.into_iter().collect::<String>().trim().to_string()
  };
  let long = LENGTHS.into_iter().flat_map(|n| {
    ["mathformula", "CitationElement ", "REF", "aREF ", "é", " ", "mathREFformula ", "CitationmathformulaElement"]
      .map(|u| format!("{}{u}", u.repeat(n)))
  });
  let characters = scalars(!ctx.quick(), 1 << 14).into_iter().flatten().flat_map(|c| {
    [format!("{c}REF{c}mathformula {c}"), format!("{c}mathform{c}ula RE{c}F CitationElement{c}")]
  });
  let lists = seqs(alpha.len(), 0, ctx.pick(5, 6)).map(|s| (s.iter().map(|&i| alpha[i]).collect::<String>(), s.len()));
  let one_of_many = long.chain(characters).map(|t| (t, 3));
  for (text, len) in lists.chain(one_of_many) {
    if ctx.mine() {
      ctx.run(
        || format!("{text:?}"),
        |ctx| {
          let d = over(&text, &[]);
          ctx.state(&text);
          let all = len < 3;
          for (i, i_verdict) in verdicts.iter().enumerate() {
            if !all && !(i < 20 || i % 7 == 0) {
              continue;
            }
            *verdict.borrow_mut() = *i_verdict;
            asked.borrow_mut().clear();
            ctx.steps(1);
            let got = invalid_for_english_latin(&d);
            let want = match i_verdict {
              None => false,
              Some(x) => x.script() != Script::Latin || (x.lang() != Lang::Eng && x.confidence() > 0.93),
            };
            ensure(got == want, || format!("the verdict {i_verdict:?} makes it {got}"))?;
            let asked = asked.borrow();
            let want = blanked(&text);
            ensure(!asked.is_empty() || want.is_empty(), || "the detector is not asked".into())?;
            ensure(asked.iter().all(|q| *q == want), || format!("the detector is asked about {asked:?}, expected {want:?}"))?;
          }
          Ok(())
        },
      );
    }
    if ctx.done() {
      break;
    }
  }
  whatlang::set_hook(None);
}
