//! C25: text views of plain strings.
use crate::dom::{self, el, tx, T};
use crate::refdnm::{view, P};
use llamapun::data::Document;
use llamapun::dnm::DNM;
use mccore::gen::{seqs, LENGTHS};
use mccore::{ensure, same, Ctx, Prop, Verdict};

pub const PROP: Prop = Prop {
  id: "C25",
  run,
  chunk: 32,
  assumptions: &["transliteration and stemming are stand-ins, shared with the reference", "tokenized text consists of words separated by single blanks, and no word but NUM ends in NUM"],
  bounds: "all strings of up to 4 (5 thorough) pieces of a 22-piece alphabet (markup characters, entities, blanks, control characters, characters outside the XML range, non-ASCII of every UTF-8 length) under 8 parameter settings, up to 2 pieces under all 96 switch settings, single characters of every block, texts of up to 1 MB; every placement of a NUL; all tokenized lines of up to 5 (6) words of a 14-word alphabet and all paragraphs of up to 4 lines of an 11-line menu; every word repeated up to 4097 times between 5 separators",
};

fn plain(bits: usize) -> P {
  let b = |k: usize| bits >> k & 1 == 1;
  P { ws: b(0), wrap: b(1), uni: b(2), once: b(3), full: b(4), lower: b(5), back: b(6), ..P::default() }
}

fn tree(text: &str) -> T {
  let kids = if text.is_empty() { vec![] } else { vec![tx(text)] };
  el("html", &[], vec![el("body", &[], vec![el("div", &[("class", "ltx_para")], kids)])])
}

fn one(ctx: &mut Ctx, text: &str, p: Option<&P>) -> Verdict {
  ctx.steps(1);
  let r = DNM::from_str(text, p.map(P::real));
  if text.contains('\0') {
    return ensure(r.is_err(), || "a text with a NUL is accepted".into());
  }
  let (doc, dnm) = r.map_err(|e| format!("refused: {e}"))?;
  exact(&doc, &dnm, text, p)
}

/// the document holds exactly this text, and the view is that of the document
fn exact(doc: &libxml::tree::Document, dnm: &DNM, text: &str, p: Option<&P>) -> Verdict {
  let t = tree(text);
  let mut nodes = Vec::new();
  let root = doc.get_root_readonly().ok_or("no root element")?;
  // the tree, node for node
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dom::align(&t, root, &mut nodes)));
  ensure(r.is_ok(), || format!("the document is {:?}", doc.to_string()))?;
  let paras = Document::paragraph_nodes(doc);
  ensure(paras.len() == 1 && paras[0] == nodes[2], || format!("{} paragraphs", paras.len()))?;
  ensure(nodes[2].get_property("class").as_deref() == Some("ltx_para"), || "the paragraph's class".into())?;
  same("the paragraph's text", &nodes[2].get_content(), &text.to_string())?;
  ensure(dnm.root_node == nodes[0], || "the view is not of the document's root".into())?;
  let default = P { ws: true, back: true, ..P::default() };
  let p = p.unwrap_or(&default);
  let v = view(&t, p);
  same("the plain text", &dnm.plaintext, &v.text)?;
  same("get_plaintext", &dnm.get_plaintext().to_string(), &v.text)?;
  if p.back {
    same("the length of the back map", &dnm.back_map.len(), &v.chars.len())?;
    for (i, (n, o)) in dnm.back_map.iter().enumerate() {
      ensure((*n, *o) == (nodes[v.back[i].0], v.back[i].1), || format!("character {i} maps to offset {o}"))?;
    }
  }
  Ok(())
}

fn lexeme(w: &str) -> bool {
  let cs: Vec<char> = w.chars().collect();
  w == "NUM" || (cs.len() > 2 && cs[1..cs.len() - 1].contains(&'_'))
}

/// the text of a tokenized paragraph
fn rebuilt(text: &str) -> String {
  let mut out: Vec<String> = Vec::new();
  for line in text.split('\n').filter(|l| !l.is_empty()) {
    let mut new = String::new();
    let words: Vec<&str> = line.split(' ').collect();
    let mut i = 0;
    while i < words.len() {
      if lexeme(words[i]) {
        // the run, and the blank after it
        while i < words.len() && lexeme(words[i]) {
          i += 1;
        }
        new += "mathformula ";
      } else {
        new += words[i];
        i += 1;
        if i < words.len() {
          new += " ";
        }
      }
    }
    // a run that ends the line leaves its blank, too
    let mut cs = new.chars();
    let first = cs.next().map(|c| c.to_ascii_uppercase());
    out.push(first.into_iter().chain(cs).collect());
  }
  out.join(" . ")
}

fn tokenized(ctx: &mut Ctx, text: &str) -> Verdict {
  let want = rebuilt(text);
  ctx.state(&want);
  for p in [None, Some(P { back: true, ..P::default() }), Some(P::llamapun())] {
    ctx.steps(1);
    let (doc, dnm) = DNM::from_ams_paragraph_str(text, p.as_ref().map(P::real)).map_err(|e| format!("refused: {e}"))?;
    exact(&doc, &dnm, &want, p.as_ref())?;
  }
  Ok(())
}

fn run(ctx: &mut Ctx) {
  let alpha = [
    "a", "Word", " ", "\n", "<", ">", "&", "&amp;", "<b/>", "]]>", "\"", "\r", "\t", "\u{1}", "\u{fffe}", "é", "İ", "漢", "𝒳", "\u{a0}", "<!--",
    "math",
  ];
  let settings: Vec<Option<P>> = [None, Some(0), Some(1 | 64), Some(1 | 4 | 64), Some(32 | 64), Some(1 | 8), Some(16 | 32), Some(4 | 32 | 64)]
    .into_iter()
    .map(|b| b.map(plain))
    .chain([Some(P::llamapun())])
    .collect();
  let all: Vec<Option<P>> = (0..128).filter(|b| b & 64 == 0 || b & 24 == 0).map(|b| Some(plain(b))).collect();
  for s in seqs(alpha.len(), 0, 2) {
    ctx.case(
      || format!("texts starting {:?}", s.iter().map(|&i| alpha[i]).collect::<String>()),
      |ctx| {
        for t in seqs(if s.len() < 2 { 0 } else { alpha.len() }, 0, if s.len() < 2 { 0 } else { ctx.pick(2, 3) }) {
          let text: String = s.iter().chain(&t).map(|&i| alpha[i]).collect();
          ctx.state(&text);
          for p in if t.is_empty() { &all } else { &settings } {
            if t.len() > 2 && p.as_ref().is_some_and(|p| p.once || p.full) {
              continue;
            }
            one(ctx, &text, p.as_ref()).map_err(|mut e| {
              e.msg = format!("{text:?} with {p:?}: {}", e.msg);
              e
            })?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // single characters
  for block in 0..0x1100u32 {
    ctx.case(
      || format!("characters from U+{:X}", block << 8),
      |ctx| {
        for c in (block << 8..(block + 1) << 8).filter_map(char::from_u32) {
          // all of the basic planes, the ends of the blocks of the others
          if block < 0x100 || matches!(c as u32 & 0xff, 0 | 1 | 0x42 | 0xfe | 0xff) {
            one(ctx, &c.to_string(), None)?;
            one(ctx, &format!("a{c}b"), Some(&plain(32 | 64)))?;
          }
        }
        Ok(())
      },
    );
  }
  // long texts
  for n in [100usize, 999, 1000, 1001, 4095, 4096, 4097, 65_536, 1 << 20] {
    for w in ["a", "é ", "𝒳", "<&>"] {
      ctx.case(|| format!("{n} times {w:?}"), |ctx| one(ctx, &w.repeat(n), Some(&plain(1 | 64))));
    }
  }
  // a NUL anywhere
  let nul = ["a", "\0", "é", " "];
  for s in seqs(nul.len(), 1, 5) {
    ctx.case(
      || format!("{:?}", s.iter().map(|&i| nul[i]).collect::<String>()),
      |ctx| {
        let text: String = s.iter().map(|&i| nul[i]).collect();
        one(ctx, &text, None)?;
        one(ctx, &text, Some(&plain(1)))?;
        if text.contains('\0') {
          ensure(DNM::from_ams_paragraph_str(&text, None).is_err(), || "tokenized text with a NUL is accepted".into())?;
        }
        Ok(())
      },
    );
  }
  // tokenized paragraphs
  let words =
    ["let", "NUM", "italic_f", "POSTSUBSCRIPT_start", "a_", "_b", "é", "Ω_x", "num", "___", "", "1", "x-y_z", "i"];
  for s in seqs(words.len(), 1, 2) {
    ctx.case(
      || format!("lines starting {:?}", s.iter().map(|&i| words[i]).collect::<Vec<_>>()),
      |ctx| {
        for t in seqs(if s.len() < 2 { 0 } else { words.len() }, 0, if s.len() < 2 { 0 } else { ctx.pick(3, 4) }) {
          let v: Vec<&str> = s.iter().chain(&t).map(|&i| words[i]).collect();
          // words are separated by single blanks
          if v.len() > 1 && v[..v.len() - 1].iter().skip(1).any(|w| w.is_empty()) {
            continue;
          }
          let line = v.join(" ");
          tokenized(ctx, &line).map_err(|mut e| {
            e.msg = format!("{line:?}: {}", e.msg);
            e
          })?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  for n in LENGTHS.into_iter().filter(|n| *n < 5000) {
    for w in words {
      for sep in [" ", "\n", " let ", "\nx ", " a_b "] {
        ctx.case(
          || format!("{n} times {w:?} between {sep:?}"),
          |ctx| tokenized(ctx, &vec![if w.is_empty() && sep != "\n" { "w" } else { w }; n].join(sep)),
        );
      }
    }
  }
  let lines = ["", "let NUM be", "NUM", "é is", "we see ", " x", "italic_f NUM ", ".", "and", "A b", "<x_y> &amp;"];
  for s in seqs(lines.len(), 0, 4) {
    ctx.case(
      || format!("{:?}", s.iter().map(|&i| lines[i]).collect::<Vec<_>>()),
      |ctx| {
        for end in ["", "\n"] {
          tokenized(ctx, &(s.iter().map(|&i| lines[i]).collect::<Vec<_>>().join("\n") + end))?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
}
