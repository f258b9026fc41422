//! C35: the pattern report.
use crate::docref::preset;
use crate::dom::{el, tx, T};
use crate::patterns::{self, math_of, File, Mk, Rm, Wd, G, M, S, W};
use crate::program::run;
use crate::refdnm::{view, Rule, View, P};
use crate::sentences::Ref;
use llamapun_examples as ex;
use mccore::gen::{seqs, xml_scalars};
use mccore::{ensure, Ctx, Fail, Prop, Verdict};
use senna::phrase::Phrase;
use senna::pos::POS;
use senna::sentence::PSGNode;
use std::path::PathBuf;

pub const PROP: Prop = Prop {
  id: "C35",
  run: run35,
  chunk: 8,
  assumptions: &[
    "text views, sentences, matches and pattern files are those C02, C05, C06, C16 and C17 prescribe",
    "Senna is a stand-in that splits and tags a sentence and groups its words",
    "the second view covers what the first one covers (an element is not skipped by it alone); no comments inside formulas",
  ],
  bounds: "all documents of up to 2 (3 thorough) blocks of a 20-block menu with 6 pattern files; all sequence patterns of up to 2 (3) elements, all formula patterns of up to 2 (3), and every 32nd (all) of 10656 combinations of larger marked patterns on a fixed document; every character an XML document can contain (quick: the first 8192 and samples) within words, at their ends and in formulas; up to 257 (1025) sentences, words and formulas",
};

// ---- Senna ----

const TAGS: [POS; 4] = [POS::DT, POS::NN, POS::VB, POS::NN];
fn tagged(s: &str) -> senna::senna::Tokens {
  senna::senna::tokenize(s).into_iter().enumerate().map(|(i, (a, b, _))| (a, b, TAGS[(i + b - a) % TAGS.len()])).collect()
}
fn grow(lo: usize, hi: usize, k: usize) -> G {
  let label = [Phrase::NP, Phrase::VP, Phrase::S][k % 3];
  match hi - lo {
    1 if k % 2 == 0 => G::Leaf(lo),
    1 => G::Phrase(label, vec![G::Leaf(lo)]),
    n => {
      let mid = lo + n.min(3) / 2;
      G::Phrase(label, vec![grow(lo, mid, k + 1), grow(mid, hi, k + 2)])
    },
  }
}
fn tree(n: usize) -> G {
  // long sentences stay flat
  let m = n.min(40);
  let mut v = if m == 0 { vec![] } else { vec![grow(0, m, 0)] };
  v.extend((m..n).map(G::Leaf));
  G::Phrase(Phrase::S, v)
}
fn real_tree(n: usize) -> PSGNode { tree(n).real() }

// ---- the readable view ----

fn shown(t: &T) -> String {
  fn go(t: &T, out: &mut String) {
    match t {
      T::Text(s) => out.push_str(s),
      T::El(..) => match t.name() {
        "semantics" => t.kids().iter().for_each(|k| go(k, out)),
        "annotation" | "annotation-xml" | "text" => {},
        n => {
          out.push_str(&format!("<{n}>"));
          t.kids().iter().for_each(|k| go(k, out));
          out.push_str(&format!("</{n}>"));
        },
      },
      _ => panic!("harness error: {t:?} within a formula"),
    }
  }
  let mut s = String::new();
  go(t, &mut s);
  s
}
fn readable() -> P {
  let own = |v: &[(&str, Rule)]| v.iter().map(|(a, b)| (a.to_string(), b.clone())).collect();
  P {
    names: own(&[("math", Rule::Func), ("cite", Rule::Token("CitationElement".into())), ("table", Rule::Skip), ("head", Rule::Skip)]),
    classes: own(&[
      ("ltx_equation", Rule::Func),
      ("ltx_equationgroup", Rule::Func),
      ("ltx_note_mark", Rule::Skip),
      ("ltx_note_outer", Rule::Skip),
      ("ltx_bibliography", Rule::Skip),
    ]),
    ws: true,
    back: true,
    compute: Some(shown),
    ..P::default()
  }
}
/// what characters a to b of one view are in the other
fn carried(from: &View, to: &View, a: usize, b: usize) -> String {
  if a >= b {
    return String::new();
  }
  let at = |i: usize, end: bool| -> usize {
    let (node, off) = from.back[i];
    let whole = || to.ranges[node].unwrap_or_else(|| panic!("harness error: node {node} is not in the other view"));
    if off < 0 {
      return if end { whole().1 } else { whole().0 };
    }
    let k = to.back.partition_point(|x| (x.0, x.1) < (node, off));
    if to.back.get(k) != Some(&(node, off)) {
      panic!("harness error: character {off} of node {node} is not in the other view");
    }
    if end { to.back.partition_point(|x| (x.0, x.1) <= (node, off)) } else { k }
  };
  to.chars[at(a, false)..at(b - 1, true)].iter().collect()
}

// ---- the report ----

struct Place {
  work: PathBuf,
  said: PathBuf,
  of: Ref,
  readable: P,
}
impl Place {
  fn article(&self) -> PathBuf { self.work.join("tests/resources/1311.0066.xhtml") }
  fn pattern(&self) -> PathBuf { self.work.join("examples/declaration_pattern.xml") }
  fn run(&self) -> crate::program::Run {
    run(
      || {
        ex::pattern_example::main();
        Ok::<(), String>(())
      },
      &[],
      &self.said,
    )
  }
  /// the file's first rule is the one looked for
  fn patterns(&self, f: &File) { std::fs::write(self.pattern(), f.xml(false).xml().replace("\"rule 0\"", "\"declaration\"")).unwrap() }
  fn document(&self, t: &T) { std::fs::write(self.article(), t.xml()).unwrap() }

  fn expected(&self, f: &File, t: &T) -> (String, usize) {
    let all = t.all();
    let text = preset(t);
    let alt = view(t, &self.readable);
    let mut out = String::new();
    let mut n = 0;
    for (a, b) in self.of.sentences(&text.chars).into_iter().filter(|(a, b)| a < b) {
      let s: String = text.chars[a..b].iter().collect();
      let s: &'static str = Box::leak(s.into_boxed_str());
      let toks = tagged(s);
      let words: Vec<Wd> = toks
        .iter()
        .map(|&(x, y, pos)| {
          let c = |i: usize| a + s[..i].chars().count();
          let node = text.back[c(x)].0;
          let math = if all[node].name() == "math" { Some((all[node].clone(), vec![])) } else { None };
          Wd { bytes: (x, y), chars: (c(x), c(y)), string: &s[x..y], pos, math }
        })
        .collect();
      let hits = patterns::matches(f, 0, &words, &tree(words.len()));
      if hits.is_empty() {
        continue;
      }
      out += &format!("<hr />\n<h4>Sentence</h4>\n<p>{}</p>\n", carried(&text, &alt, a, b));
      fn list(f: &File, h: &Rm, out: &mut String, show: &dyn Fn(&Mk) -> (bool, String)) {
        let (name, tags) = f.marker(h.k);
        let tags: Vec<String> = tags.iter().map(|t| format!("'{t}'")).collect();
        let (text, what) = show(&h.what);
        *out += &if text {
          format!("<h5>TextMarker</h5> \"{name} {{{}}}\" \n <br /><br /><p>{what}</p>\n", tags.join(", "))
        } else {
          format!("<h5>MathMarker</h5> \"{name} {{{}}}\"\n <br /><br /> <p>{what}</p>\n", tags.join(", "))
        };
        h.subs.iter().for_each(|s| list(f, s, out, show));
      }
      n += hits.len();
      let show = |m: &Mk| match *m {
        Mk::Words(i, j) => (true, if i < j { carried(&text, &alt, words[i].chars.0, words[j - 1].chars.1) } else { String::new() }),
        Mk::Node(w, k) => (false, shown(words[w].math.as_ref().unwrap().0.all()[k])),
      };
      hits.iter().for_each(|h| list(f, h, &mut out, &show));
    }
    (out, n)
  }
  fn report(&self, ctx: &mut Ctx, f: &File, t: &T) -> Verdict {
    let r = self.run();
    r.result.as_ref().map_err(|e| Fail::from(format!("the report: {e}")))?;
    ctx.steps(1);
    let (want, n) = self.expected(f, t);
    ctx.steps(n as u64);
    let said = r.said.replace("{''}", "{}"); // an empty tag is left open
    let body = said.split_once("<body>\n").and_then(|(_, b)| b.strip_suffix("</body></html>\n"));
    let body = body.ok_or_else(|| Fail::from(format!("the report is no page: {:?}", &said.chars().take(300).collect::<String>())))?;
    if body == want {
      return Ok(());
    }
    let at = body.lines().zip(want.lines()).take_while(|(a, b)| a == b).count();
    Err(format!("line {at} is {:?}, expected {:?}", body.lines().nth(at), want.lines().nth(at)).into())
  }
}

// ---- documents ----

fn mi(s: &str) -> T { el("mi", &[], vec![tx(s)]) }
fn mo(s: &str) -> T { el("mo", &[], vec![tx(s)]) }
fn row(v: Vec<T>) -> T { el("mrow", &[], v) }
fn block(k: usize) -> T {
  let p = |kids: Vec<T>| el("div", &[("class", "ltx_para")], vec![el("p", &[("class", "ltx_p")], kids)]);
  let semantic = |main: T| math_of(vec![el("semantics", &[], vec![main, el("annotation", &[("encoding", "application/x-llamapun")], vec![tx("ID:x")]), el("annotation-xml", &[], vec![mi("no")])])]);
  match k {
    0 => p(vec![tx("Let "), math_of(vec![mi("x")]), tx(" be a set. So a \u{e9} a.")]),
    1 => p(vec![tx("a a \u{e9}. \u{e9} a! a? A! And a")]),
    2 => p(vec![tx("Let "), semantic(row(vec![mi("x"), mo("\u{2208}"), mi("M")])), tx(". Then "), semantic(mi("y")), tx(" "), math_of(vec![]), tx(" is.")]),
    3 => p(vec![tx("As "), el("a", &[("class", "ltx_ref")], vec![tx("Thm.\n 3 ")]), tx(" says a "), el("cite", &[], vec![tx("[1]")]), tx(", a thing")]),
    4 => el("div", &[("class", "ltx_equation")], vec![math_of(vec![mi("e")]), el("span", &[], vec![tx("(1)")])]),
    5 => p(vec![tx("A note"), el("sup", &[("class", "ltx_note_mark")], vec![tx("1")]), el("span", &[("class", "ltx_note_outer")], vec![tx("Hidden a. a")]), tx(" is a note.")]),
    6 => p(vec![tx("  wide \n\t a   text\u{a0}\u{2003}here  ")]),
    7 => p(vec![]),
    8 => p(vec![tx("Na\u{ef}ve \u{bd} \u{c6}on \u{6f22}\u{5b57} stra\u{df}e a\u{301} a")]),
    9 => p(vec![tx("one "), el("em", &[], vec![tx("a"), el("b", &[], vec![tx("\u{e9}")])]), tx("a a")]),
    10 => el("table", &[], vec![tx("In a table a.")]),
    11 => p(vec![tx("See "), el("span", &[("class", "ltx_TOC")], vec![tx("the contents a")]), tx(" a "), el("img", &[], vec![tx("im")]), tx("a.")]),
    12 => p(vec![math_of(vec![row(vec![mi("x"), row(vec![mi("x"), el("mi", &[], vec![])])])]), math_of(vec![mi("x")]), math_of(vec![tx("x")])]),
    13 => T::Comment(" a ".into()),
    14 => el("div", &[("class", "ltx_bibliography")], vec![tx("A book. Another a")]),
    15 => p(vec![tx("a"), T::Comment("c"  .into()), tx("a "), T::Pi("pi a".into()), tx("a")]),
    16 => el("div", &[("id", "S1")], vec![tx("loose a "), el("p", &[("id", "S1.p1")], vec![tx("inner \u{e9}. A"), math_of(vec![el("mtext", &[], vec![tx("a  \u{e9}\n")])])])]),
    17 => p(vec![tx("mathformula and "), el("span", &[("class", "ltx_equationgroup x")], vec![tx("math a")]), tx(" x")]),
    18 => tx(" between a. "),
    19 => el("h2", &[("class", "ltx_title")], vec![tx("1 A title a")]),
    _ => unreachable!(),
  }
}
const BLOCKS: usize = 20;
fn page(mut body: Vec<T>) -> T {
  body.insert(0, el("hr", &[], vec![]));
  fn number(t: &mut T, n: &mut usize) {
    if let T::El(_, attrs, kids) = t {
      for (_, v) in attrs.iter_mut().filter(|a| a.0 == "id") {
        *v = format!("S{n}");
        *n += 1;
      }
      kids.iter_mut().for_each(|k| number(k, n));
    }
  }
  let mut t = el("html", &[], vec![el("head", &[], vec![el("title", &[], vec![tx("a t")])]), el("body", &[], body)]);
  number(&mut t, &mut 0);
  t
}
fn with(s: S) -> File {
  let mut f = patterns::base();
  f.seqs[0] = s;
  patterns::number_s(&mut f.seqs[0], &mut 0);
  f
}
fn files() -> Vec<File> {
  let mark = |s: S| S::Mark(Box::new(s), 0);
  let word = |w: W| S::Word(W::Mark(Box::new(w), 0));
  let math = |m: M| S::Word(W::Math(m));
  let msub = |m: M| M::Mark(Box::new(m), 0);
  vec![
    with(word(W::Any)),
    with(mark(S::Seq(vec![word(W::Lit("a")), S::Or(vec![word(W::Any)], Some("any"))]))),
    with(mark(S::Phrase("NP", None, None, None))),
    with(S::Or(vec![math(msub(M::Any)), mark(math(M::Any)), mark(S::Seq(vec![]))], Some("first"))),
    with(math(M::Desc(Box::new(msub(M::Node(Some("mi"), None, None))), "at_least_one"))),
    with(mark(S::Seq(vec![word(W::Not(Box::new(W::Lit("a")))), S::Phrase("VP", Some("shortest"), Some((Box::new(word(W::Any)), None)), Some(Box::new(word(W::Any))))]))),
  ]
}

fn run35(ctx: &mut Ctx) {
  let work = ctx.scratch.join("work");
  std::fs::create_dir_all(work.join("tests/resources")).unwrap();
  std::fs::create_dir_all(work.join("examples")).unwrap();
  let back = std::env::current_dir().unwrap();
  std::env::set_current_dir(&work).unwrap();
  senna::senna::set_hook(Some(tagged));
  senna::senna::set_tree(Some(real_tree));
  let at = Place { work, said: ctx.scratch.join("said"), of: Ref::new(), readable: readable() };
  explore(ctx, &at);
  senna::senna::set_hook(None);
  senna::senna::set_tree(None);
  std::env::set_current_dir(back).unwrap();
}
fn explore(ctx: &mut Ctx, at: &Place) {
  let menu = files();
  let depth = ctx.pick(2, 3);
  for s in seqs(BLOCKS, 0, depth) {
    // two texts side by side would be one
    if s.windows(2).any(|w| w == [18, 18]) {
      continue;
    }
    ctx.case(
      || format!("blocks {s:?}"),
      |ctx| {
        let t = page(s.iter().map(|&k| block(k)).collect());
        at.document(&t);
        for (i, f) in menu.iter().enumerate() {
          at.patterns(f);
          ctx.state(&(&s, i));
          at.report(ctx, f, &t).map_err(|e| Fail { msg: format!("pattern file {i}: {}: {}", t.xml(), e.msg), key: e.key })?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // patterns
  let every = page((0..BLOCKS).map(block).collect());
  let quick = ctx.quick();
  let mut pats: Vec<S> = patterns::gen_seq(ctx.pick(2, 3)).into_iter().flatten().collect();
  pats.extend(patterns::gen_math(ctx.pick(2, 3)).into_iter().flatten().map(|m| S::Word(W::Math(M::Mark(Box::new(m), 0)))));
  pats.extend(patterns::rich(false).into_iter().enumerate().filter(|(i, _)| !quick || i % 32 == 0).map(|x| x.1));
  for chunk in pats.chunks(16) {
    ctx.case(
      || format!("patterns from {:?}", chunk[0].xml().xml()),
      |ctx| {
        at.document(&every);
        for s in chunk {
          let f = with(s.clone());
          at.patterns(&f);
          ctx.state(&f.seqs[0]);
          at.report(ctx, &f, &every).map_err(|e| Fail { msg: format!("{}: {}", f.seqs[0].xml().xml(), e.msg), key: e.key })?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // characters
  for (i, cs) in xml_scalars(!quick, 128).into_iter().enumerate() {
    // those after the first ones, by samples
    if quick && i >= 64 && i % 8 != 0 {
      continue;
    }
    let cs: Vec<char> = cs.into_iter().filter(|c| !c.is_whitespace()).collect();
    if cs.is_empty() {
      continue;
    }
    ctx.case(
      || format!("{:?} to {:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        let body = cs.iter().map(|c| el("p", &[], vec![tx(&format!("w{c}ord {c} {c}word a{c}. It {c}a is ")), math_of(vec![mi(&format!("{c}"))])])).collect();
        let t = page(body);
        at.document(&t);
        for f in [&menu[1], &menu[4]] {
          at.patterns(f);
          at.report(ctx, f, &t)?;
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // many
  for n in [16usize, 63, 64, 65, 127, 129, 255, 257, 513, 1025] {
    if quick && n > 300 {
      continue;
    }
    for what in 0..4 {
      ctx.case(
        || format!("{n} of kind {what}"),
        |ctx| {
          let m = || math_of(vec![mi("x")]);
          let body = match what {
            0 => (0..n).map(|i| el("p", &[], vec![tx(&format!("Sentence {i} a b. "))])).collect(),
            1 => vec![el("p", &[], vec![tx(&"a b ".repeat(n))])],
            2 => vec![el("p", &[], (0..n).flat_map(|_| [m(), tx(" a ")]).collect())],
            _ => vec![(0..n.min(200)).fold(el("p", &[], vec![tx("a deep "), m()]), |t, _| el("div", &[], vec![tx("x "), t, tx(" y")]))],
          };
          let t = page(body);
          at.document(&t);
          for f in &menu {
            at.patterns(f);
            at.report(ctx, f, &t)?;
          }
          Ok(())
        },
      );
    }
  }
  ctx.case(
    || "what the program can not do without".into(),
    |_| {
      let f = &menu[0];
      at.document(&every);
      let _ = std::fs::remove_file(at.pattern());
      ensure(at.run().result.is_err(), || "the report goes without its patterns".into())?;
      std::fs::write(at.pattern(), "<pattern_file><seq_rule name=\"declaration\"/></pattern_file>").unwrap();
      ensure(at.run().result.is_err(), || "the report goes with wrong patterns".into())?;
      std::fs::write(at.pattern(), f.xml(false).xml()).unwrap();
      ensure(at.run().result.is_err(), || "the report goes without the rule it looks for".into())?;
      at.patterns(f);
      let _ = std::fs::remove_file(at.article());
      ensure(at.run().result.is_err(), || "the report goes without its document".into())
    },
  );
  ctx.case(
    || "the pattern file that comes with the program".into(),
    |_| {
      std::fs::copy("/repo/examples/declaration_pattern.xml", at.pattern()).map_err(|e| format!("no pattern file: {e}"))?;
      at.document(&every);
      at.run().result.map_err(|e| Fail { msg: format!("the report: {e}"), key: "the shipped pattern file".into() })
    },
  );
}
