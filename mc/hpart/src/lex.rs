//! C15: mathematical lexemes against a hand-written state machine.
use libxml::parser::Parser;
use libxml::xpath::Context;
use llamapun::dnm::node::lexematize_math;
use mccore::gen::{edits, seqs, xml_scalars, LENGTHS};
use mccore::{same, Ctx, Prop, Verdict};

pub const PROP: Prop = Prop {
  id: "C15",
  run,
  chunk: 64,
  assumptions: &["libxml2 evaluates XPath and serialises text content as specified"],
  bounds: "all concatenations of up to 5 (6 thorough) pieces of a 13-piece lexeme alphabet, with and without separating blanks; every near miss of the markers, encodings, element names and role words (a character dropped, doubled, replaced, added or in the other case); every marker role alone, doubled and glued to every other; all arrangements of up to 3 annotations from 10 kinds in 4 tree positions; every character of the first two planes and samples of the others (thorough: every character) glued to and between lexemes; texts, annotation lists and nestings of up to 65537, 257 and 129 items",
};

const MARK: [&str; 14] = [
  "OPFUNCTION", "OPERATOR", "OPEN", "CLOSE", "UNKNOWN", "RELOP", "ADDOP", "MULOP", "ARROW", "BIGOP",
  "BINOP", "ID", "OVERACCENT", "UNDERACCENT",
];

/// lexemes of one annotation text
fn lexemes(text: &str) -> Vec<String> {
  // isolate ROLE:end
  let mut a = String::new();
  let mut i = 0;
  'scan: while i < text.len() {
    for m in MARK {
      let full = format!("{m}:end");
      if text[i..].starts_with(&full) {
        a.push(' ');
        a.push_str(&full);
        a.push(' ');
        i += full.len();
        continue 'scan;
      }
    }
    let c = text[i..].chars().next().unwrap();
    a.push(c);
    i += c.len_utf8();
  }
  let a = a.replace(":end", ":end ").replace(":start", ":start ");
  let mut out = Vec::new();
  for w in a.split_whitespace() {
    let mut done = false;
    for p in ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP"] {
      if w.starts_with(p) {
        out.push(p.to_string());
        done = true;
        break;
      }
    }
    if !done {
      out.push(w.replace(':', "_").replace('-', "_"));
    }
  }
  out
}

fn esc(s: &str) -> String {
  s.replace('&', "&amp;").replace('<', "&lt;").replace('\r', "&#13;")
}

fn check(ctx: &mut Ctx, xml: &str, annos: &[String]) -> Verdict {
  let doc = Parser::default().parse_string(xml).map_err(|e| format!("harness error: {e:?}"))?;
  let mut context = Context::new(&doc).map_err(|_| "harness error: context".to_string())?;
  let root = doc.get_root_readonly().ok_or("harness error: no root")?;
  // the math node is the element m; whatever lies outside of it must not matter
  let mut m = root.get_first_child();
  while let Some(n) = m {
    if n.get_name() == "math" {
      break;
    }
    m = n.get_next_sibling();
  }
  let got = lexematize_math(m.ok_or("harness error: no math")?, &mut context);
  let all: Vec<String> = annos.iter().flat_map(|a| lexemes(a)).collect();
  let want = if all.is_empty() { "mathformula".to_string() } else { all.join(" ") };
  ctx.steps(1 + all.len() as u64);
  ctx.state(&want);
  same("lexemes", &got, &want)
}

fn wrap(inner: &str) -> String {
  format!("<r xmlns:h=\"urn:h\"><annotation encoding=\"application/x-llamapun\">OUTSIDE</annotation><math><semantics>{inner}</semantics></math><annotation encoding=\"application/x-llamapun\">AFTER</annotation></r>")
}
fn anno(text: &str) -> String {
  format!("<annotation encoding=\"application/x-llamapun\">{}</annotation>", esc(text))
}

fn run(ctx: &mut Ctx) {
  let pieces = [
    "RELOP:equals:1", "ID:end", "OPEN:start", "POSTFIX:end", "NUM:1.5:2", "ATOM-x", "x-y:z", " ",
    "SUPERSCRIPTOP1:2", ":end", ":start", "ADDOP", "\n",
  ];
  for s in seqs(pieces.len(), 0, ctx.pick(5, 6)) {
    if ctx.mine() {
      let text: String = s.iter().map(|&i| pieces[i]).collect();
      ctx.run(|| format!("{text:?}"), |ctx| check(ctx, &wrap(&anno(&text)), &[text.clone()]));
    }
    if ctx.done() {
      return;
    }
  }
  // separated tokens, including look-alikes and other characters
  let toks = [
    "NUM", "NUMBER:1", "num:1", "ARRAY", "ARRAYX", "ATOM", "AATOM", "SUPERSCRIPTOP", "SUPERSCRIPT",
    "a:b:c", "a-b-c", "--", "::", "é:ß-漢", "ID:endID:end", "FOO:startBAR:end", "UNKNOWN:x:1", "ID:End", "&<",
    "\u{2013}", "a_b", "FENCED-NUM",
  ];
  for sep in [" ", "\n", "\t", "  ", "\u{a0}", "\u{2003}", "\r"] {
    for s in seqs(toks.len(), 1, ctx.pick(2, 3)) {
      if ctx.mine() {
        let text: String = s.iter().map(|&i| toks[i]).collect::<Vec<_>>().join(sep);
        let text = if s.len() == 2 { format!("{sep}{text}{sep}") } else { text };
        ctx.run(|| format!("{text:?}"), |ctx| check(ctx, &wrap(&anno(&text)), &[text.clone()]));
      }
    }
  }
  // every role
  let others = ["", "x", "X", "POSTFIX", "1", "é", "_"];
  for a in MARK {
    for b in MARK {
      for pre in others {
        for mid in others {
          for post in ["", "x", " ", ":end", "s"] {
            if ctx.mine() {
              let text = format!("{pre}{a}:end{mid}{b}:end{post}");
              ctx.run(|| format!("{text:?}"), |ctx| check(ctx, &wrap(&anno(&text)), &[text.clone()]));
            }
          }
        }
      }
    }
    for suffix in [":start", ":end", ":sta", ":en", ":", ":end:end", ":start:end", ":end:start", "-end"] {
      for reps in 1..=3 {
        if ctx.mine() {
          let text = format!("{a}{suffix}").repeat(reps);
          ctx.run(|| format!("{text:?}"), |ctx| check(ctx, &wrap(&anno(&text)), &[text.clone()]));
        }
      }
    }
  }
  // almost the words with a meaning
  for w in ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP"] {
    for e in edits(w) {
      for post in ["", ":x", "-x:1", "X", "1", ":end", ":start", " NUM:1"] {
        if ctx.mine() {
          let text = format!("{e}{post}");
          ctx.run(|| format!("{text:?}"), |ctx| check(ctx, &wrap(&anno(&text)), &[text.clone()]));
        }
      }
    }
  }
  for a in MARK {
    for e in edits(a) {
      for (pre, post) in [("", ""), ("x", ""), ("X", "x"), ("ID:end", "ID:end"), ("é", ":end")] {
        if ctx.mine() {
          let text = format!("{pre}{e}:end{post} {pre}{e}:start{post}");
          ctx.run(|| format!("{text:?}"), |ctx| check(ctx, &wrap(&anno(&text)), &[text.clone()]));
        }
      }
    }
  }
  for e in edits("end").into_iter().chain(edits("start")) {
    if ctx.mine() {
      let text = format!("xID:{e} OPEN:{e}x ATOM:{e} ID:{e}ID:end");
      ctx.run(|| format!("{text:?}"), |ctx| check(ctx, &wrap(&anno(&text)), &[text.clone()]));
    }
  }
  for e in edits("application/x-llamapun") {
    if ctx.mine() {
      let xml = wrap(&format!("<annotation encoding=\"{e}\">RELOP:y</annotation>{}", anno("ID:z")));
      ctx.run(|| xml.clone(), |ctx| check(ctx, &xml, &["ID:z".into()]));
    }
  }
  for e in edits("annotation").into_iter().filter(|e| e.chars().next().is_some_and(char::is_alphabetic) && !e.contains(' ')) {
    if ctx.mine() {
      let xml = wrap(&format!("{}<{e} encoding=\"application/x-llamapun\">RELOP:y</{e}>", anno("ID:z")));
      ctx.run(|| xml.clone(), |ctx| check(ctx, &xml, &["ID:z".into()]));
    }
  }
  for e in edits("encoding").into_iter().filter(|e| e.chars().next().is_some_and(char::is_alphabetic) && !e.contains(' ')) {
    if ctx.mine() {
      let xml = wrap(&format!("<annotation {e}=\"application/x-llamapun\">RELOP:y</annotation>{}", anno("ID:z")));
      ctx.run(|| xml.clone(), |ctx| check(ctx, &xml, &["ID:z".into()]));
    }
  }
  // arrangements of annotations: (markup, lexeme text if it counts)
  let kinds: Vec<(String, Option<&str>)> = vec![
    (anno("ADDOP:plus:1 ID:x:2"), Some("ADDOP:plus:1 ID:x:2")),
    (anno("NUM:3"), Some("NUM:3")),
    (anno(""), Some("")),
    (anno(" \n "), Some(" \n ")),
    ("<annotation encoding=\"application/x-tex\">RELOP:x</annotation>".into(), None),
    ("<annotation>RELOP:y</annotation>".into(), None),
    ("<h:annotation encoding=\"application/x-llamapun\">q-1</h:annotation>".into(), Some("q-1")),
    ("<annotation-xml encoding=\"application/x-llamapun\">no</annotation-xml>".into(), None),
    ("<mi encoding=\"application/x-llamapun\">no</mi>".into(), None),
    ("<annotation encoding=\"application/x-llamapun\">a<b>:c</b> d<!-- no --></annotation>".into(), Some("a:c d")),
  ];
  for s in seqs(kinds.len(), 0, ctx.pick(3, 4)) {
    for place in 0..4 {
      if ctx.mine() {
        let mut inner = String::new();
        let mut annos = Vec::new();
        for (k, &i) in s.iter().enumerate() {
          let m = &kinds[i].0;
          match (place, k % 2) {
            (0, _) => inner.push_str(m),
            (1, _) => inner.push_str(&format!("<mrow><mrow>{m}</mrow>t</mrow>")),
            (2, 0) => inner.push_str(&format!("<mrow>{m}</mrow>")),
            (3, 1) => inner.push_str(&format!("<!-- c -->text<mi>x</mi>{m}")),
            _ => inner.push_str(m),
          }
          if let Some(t) = kinds[i].1 {
            annos.push(t.to_string());
          }
        }
        let xml = wrap(&inner);
        ctx.run(|| xml.clone(), |ctx| check(ctx, &xml, &annos));
      }
    }
    if ctx.done() {
      return;
    }
  }
  for cs in xml_scalars(ctx.pick(false, true), 64) {
    if ctx.mine() {
      ctx.run(
        || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
        |ctx| {
          let texts: Vec<String> =
            cs.iter().map(|c| format!("{c}a-{c}b{c}ID:x{c}:end{c} NUM{c} {c}NUM RELOP:end{c}x:start{c}A{c}TOM OPEN{c}:end")).collect();
          check(ctx, &wrap(&texts.iter().map(|t| anno(t)).collect::<String>()), &texts)?;
          let texts: Vec<String> = cs.iter().map(|c| c.to_string()).collect();
          check(ctx, &wrap(&texts.iter().map(|t| anno(t)).collect::<String>()), &texts)
        },
      );
    }
    if ctx.done() {
      return;
    }
  }
  for n in LENGTHS {
    for unit in ["x", "ID:end", ":start", "é-", "NUM:1 ", "a:b ", " ", "OPEN:start", "RELOP:end ADDOP:plus:1 ", "-:"] {
      if !ctx.mine() {
        continue;
      }
      ctx.run(
        || format!("{n} times {unit:?}"),
        |ctx| {
          let text = unit.repeat(n);
          check(ctx, &wrap(&anno(&text)), &[text.clone()])?;
          if n < 300 {
            let texts = vec![unit.to_string(); n];
            check(ctx, &wrap(&anno(unit).repeat(n)), &texts)?;
          }
          if n < 200 {
            let texts = vec![unit.to_string(); n];
            let inner = (0..n).fold(String::new(), |t, _| format!("<mrow>{t}{}</mrow>", anno(unit)));
            check(ctx, &wrap(&inner), &texts)?;
          }
          Ok(())
        },
      );
    }
  }
}
