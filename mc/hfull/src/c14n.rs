//! C08 and C09: canonical forms and hashes.
use crate::dom::{self, el, tx, Parsed, T};
use crate::refdnm::P;
use libxml::readonly::RoNode;
use llamapun::dnm::{DNMParameters, DNM};
use mccore::gen::{forests, permutations, seqs, xml_scalars, LENGTHS};
use mccore::{ensure, same, Ctx, Prop, Verdict};
use std::cell::Cell;

pub const C08: Prop = Prop {
  id: "C08",
  run: run08,
  chunk: 32,
  assumptions: &[
    "libxml2 gives the DOM of the generated XML (checked for every tree)",
    "the text of a node is what the view says it is (C01 and C02 decide that)",
    "rust-crypto's MD5 is replaced by an implementation of RFC 1321, compared with known digests",
  ],
  bounds: "all trees of up to 3 nodes below the root over 17 node kinds and of 4 nodes over 9 (thorough: 17) (class lists with every separator and order, ids, annotations, semantics, replaced and skipped elements, blank and non-blank texts, comments, PIs) under 3 parameter sets, every node of each; all single and pairwise invariant edits of those trees; all orders of up to 4 (5) class names; every character of the first two planes and samples of the others (thorough: every character) in texts and class lists; texts, class lists, names, child lists and nestings of up to 65537, 4097, 4097, 4097 and 129 items",
};
pub const C09: Prop = Prop {
  id: "C09",
  run: run09,
  chunk: 1,
  assumptions: &["rust-crypto's MD5 is replaced by an implementation with a scheduling point at every operation", "sequentially consistent memory"],
  bounds: "all schedules of 2 threads hashing once or twice and of 3 threads hashing once (2 x 3, 3 x 2 and 4 x 1 thorough, up to 2 or 3 preemptions), over documents of different lengths and node hashes; scheduling points at every lock, unlock and digest operation",
};

/// the canonical form; `nodes` is in step with the preorder of `t`
fn canonical(t: &T, at: &mut usize, nodes: &[RoNode], dnm: &DNM, out: &mut String) {
  let me = nodes[*at];
  *at += 1;
  match t {
    T::Text(_) => {
      if let Some((a, b)) = dnm.node_map.get(&me.to_hashable()) {
        let s: String = dnm.plaintext.chars().skip(*a).take(b - a).collect();
        if s.chars().any(|c| !c.is_whitespace()) {
          out.push_str(&s);
        }
      }
    },
    T::El(_, _, kids) => {
      let name = t.name();
      if ["annotation", "annotation-xml"].contains(&name) {
        *at += t.size() - 1;
        return;
      }
      let mut cs = t.classes();
      cs.sort();
      if name != "semantics" {
        out.push_str(&if cs.is_empty() { format!("<{name}>") } else { format!("<{name} class=\"{}\">", cs.join(" ")) });
      }
      for k in kids {
        canonical(k, at, nodes, dnm, out);
      }
      if name != "semantics" {
        out.push_str(&format!("</{name}>"));
      }
    },
    _ => {},
  }
}
fn form(t: &T, d: &Parsed, k: usize, dnm: &DNM) -> String {
  let mut s = String::new();
  let mut at = k;
  canonical(t.all()[k], &mut at, &d.nodes, dnm, &mut s);
  s
}
fn md5(s: &str) -> String { crypto::md5::compute(s.as_bytes()).iter().map(|b| format!("{b:02x}")).collect() }

fn node(k: usize, kids: Vec<T>) -> Option<T> {
  let leaf = |t: T| if kids.is_empty() { Some(t) } else { None };
  match k {
    0 => leaf(tx("a b")),
    1 => leaf(tx(" \n ")),
    2 => leaf(tx("\u{a0}")),
    3 => leaf(tx(" Ü<&>\" ")),
    4 => leaf(T::Comment(" c ".into())),
    5 => leaf(T::Pi("pi x".into())),
    6 => Some(el("p", &[], kids)),
    7 => Some(el("span", &[("class", "b a")], kids)),
    8 => Some(el("span", &[("class", " B\tA10\n A9  a "), ("id", "x"), ("title", "y")], kids)),
    9 => Some(el("p", &[("class", ""), ("lang", "en")], kids)),
    10 => Some(el("annotation", &[], kids)),
    11 => Some(el("annotation-xml", &[("class", "z")], kids)),
    12 => Some(el("semantics", &[("class", "a")], kids)),
    13 => Some(el("math", &[("class", "ltx_Math"), ("alttext", "x")], kids)),
    14 => Some(el("table", &[], kids)),
    15 => Some(el("div", &[("class", "ltx_ref ltx_p")], kids)),
    16 => Some(el("span", &[("class", "a b a é")], kids)),
    _ => unreachable!(),
  }
}
const KINDS: usize = 17;

fn params() -> Vec<DNMParameters> {
  vec![DNMParameters::llamapun_normalization(), DNMParameters { normalize_unicode: true, normalize_white_spaces: true, ..P { ws: true, uni: true, ..P::default() }.real() }, P::default().real()]
}

fn one(ctx: &mut Ctx, t: &T, inner: bool) -> Verdict {
  let d = dom::parse(t);
  for (i, p) in params().into_iter().enumerate() {
    let dnm = DNM::new(d.nodes[0], p);
    for k in 0..if inner { d.nodes.len() } else { 1 } {
      let want = form(t, &d, k, &dnm);
      same(&format!("canonical form of node {k} with parameters {i}"), &dnm.node_c14n_basic(d.nodes[k]), &want)?;
      same(&format!("hash of node {k} with parameters {i}"), &dnm.node_hash_basic(d.nodes[k]), &md5(&want))?;
      ctx.steps(2);
      if k == 0 {
        same("canonical form of the document", &dnm.to_c14n_basic(), &want)?;
        same("hash of the document", &dnm.to_hash_basic(), &md5(&want))?;
      }
    }
    ctx.state(&dnm.to_c14n_basic());
  }
  Ok(())
}

/// the invariant edits of a tree
fn edits(t: &T) -> Vec<T> {
  fn at(t: &T, k: &mut isize, f: &dyn Fn(&T) -> T) -> T {
    let hit = *k == 0;
    *k -= 1;
    let t2 = match t {
      T::El(n, a, kids) => T::El(n.clone(), a.clone(), kids.iter().map(|c| at(c, k, f)).collect()),
      x => x.clone(),
    };
    if hit {
      f(&t2)
    } else {
      t2
    }
  }
  let mut v = Vec::new();
  for (k, n) in t.all().iter().enumerate() {
    if let T::El(..) = n {
      let mut add = |f: &dyn Fn(&T) -> T| v.push(at(t, &mut (k as isize), f));
      add(&|t| match t {
        T::El(n, a, kids) => {
          let a = a
            .iter()
            .map(|(x, v)| {
              let mut c: Vec<&str> = v.split_whitespace().collect();
              c.reverse();
              (x.clone(), if x == "class" { format!("\n{}\t ", c.join("  ")) } else { v.clone() })
            })
            .collect();
          T::El(n.clone(), a, kids.clone())
        },
        _ => unreachable!(),
      });
      add(&|t| match t {
        T::El(n, a, kids) => T::El(n.clone(), a.iter().filter(|x| x.0 == "class").cloned().chain([("about".to_string(), "é".to_string())]).collect(), kids.clone()),
        _ => unreachable!(),
      });
      for extra in [T::Comment("new".into()), el("annotation", &[("class", "q")], vec![tx("x"), el("p", &[], vec![])])] {
        add(&|t| match t {
          T::El(n, a, kids) => {
            let mut kids = kids.clone();
            kids.push(extra.clone());
            T::El(n.clone(), a.clone(), kids)
          },
          _ => unreachable!(),
        });
      }
      add(&|t| match t {
        T::El(n, a, kids) => {
          let mut kids = kids.clone();
          if !matches!(kids.last(), Some(T::Text(_))) {
            kids.push(tx(" \n"));
          }
          T::El(n.clone(), a.clone(), kids)
        },
        _ => unreachable!(),
      });
    }
  }
  v
}

fn run08(ctx: &mut Ctx) {
  ctx.case(
    || "known digests".into(),
    |ctx| {
      for (n, want) in [
        (0, "d41d8cd98f00b204e9800998ecf8427e"),
        (1, "8666683506aacd900bbd5a74ac4edf68"),
        (55, "030157be00035d098644cfc70e5deaea"),
        (56, "8e758df1ec8681fc06daa64253668f13"),
        (57, "7cc4dbe44c422ac3e98466e4ff92bb95"),
        (63, "4a805576b511a836fefee199fb797ae5"),
        (64, "7a0cbe2eab91195c56eae7f83588d243"),
        (65, "940b4e909b09d4828b0eebe642613192"),
        (119, "c78b1987e67f5f382adb7de5fed3e55e"),
        (120, "4bebaf2293f8b2e434f1a4f024eea593"),
        (128, "087b965e51e4b1200ebfd13e9761caa5"),
        (1000, "c90582fbbeb1275142915b85da61ade9"),
      ] {
        let s: Vec<u8> = (0..n).map(|i| ((i * 7 + 3) % 251) as u8).collect();
        let got: String = crypto::md5::compute(&s).iter().map(|b| format!("{b:02x}")).collect();
        if got != want {
          panic!("harness error: the stand-in digest of {n} bytes is {got}");
        }
        ctx.steps(1);
      }
      Ok(())
    },
  );
  // orders of class names
  let names = ["a", "B", "a1", "a-b", "é"];
  for n in 1..=ctx.pick(4, 5) {
    for p in permutations(n) {
      for sep in [" ", "\n", "\u{a0}", " \t"] {
        let class: String = p.iter().map(|&i| names[i]).collect::<Vec<_>>().join(sep);
        let t = el("r", &[], vec![el("p", &[("class", &class)], vec![tx("x")])]);
        ctx.case(|| t.xml(), |ctx| one(ctx, &t, true));
      }
    }
  }
  // large documents
  for n in LENGTHS {
    let mut docs: Vec<(T, String)> = ["a", " ", "é ", "\n\t", "\u{a0}", "<&"]
      .iter()
      .map(|u| (el("r", &[], vec![el("p", &[], vec![tx(&u.repeat(n))]), tx("z")]), format!("{n} times {u:?}")))
      .collect();
    if n < 5000 {
      for (sep, what) in [(" ", "descending"), ("\n ", "mixed")] {
        let mut cs: Vec<String> = (0..n).rev().map(|i| if what == "mixed" { format!("{}{i}", ["b", "B", "é"][i * 7 % 3]) } else { format!("c{i}") }).collect();
        cs.push("b0".into());
        docs.push((el("r", &[], vec![el("p", &[("class", &cs.join(sep))], vec![tx("x")])]), format!("{n} {what} classes")));
      }
      docs.push((el("r", &[], vec![el("p", &[("class", &"x".repeat(n))], vec![tx("x")])]), format!("a class of {n} letters")));
      docs.push((el("r", &[], vec![el(&"x".repeat(n), &[], vec![tx("x")])]), format!("a name of {n} letters")));
      for k in [0, 1, 4, 7, 10, 12, 14] {
        let kids = |i: usize| if k < 6 { vec![] } else { vec![tx(["u", " ", "é"][i % 3])] };
        let sep = |i: usize| if k < 2 { node(4, vec![]).unwrap() } else { tx(["-", " "][i % 2]) };
        docs.push((el("r", &[], (0..n).flat_map(|i| [node(k, kids(i)).unwrap(), sep(i)]).collect()), format!("{n} children of kind {k}")));
      }
    }
    if n < 250 {
      for k in [6, 7, 10, 12, 15] {
        let mut t = tx("core");
        for i in 0..n {
          t = node(k, if i == 0 { vec![t] } else { vec![tx("a"), t, tx("é")] }).unwrap();
        }
        docs.push((el("r", &[], vec![tx("s"), t]), format!("{n} levels of kind {k}")));
      }
    }
    for (t, what) in docs {
      ctx.case(|| what.clone(), |ctx| one(ctx, &t, t.size() < 300));
    }
    if ctx.done() {
      return;
    }
  }
  // every character in texts and class lists
  for cs in xml_scalars(ctx.pick(false, true), 32) {
    if ctx.mine() {
      let kids = cs
        .iter()
        .flat_map(|c| [el("p", &[("class", &format!("b{c}a {c}a"))], vec![tx(&format!("{c}b{c}"))]), el("q", &[("class", &format!("{c}"))], vec![tx(&c.to_string())])])
        .collect();
      let t = el("r", &[], kids);
      ctx.run(|| format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]), |ctx| one(ctx, &t, false));
    }
    if ctx.done() {
      return;
    }
  }
  let all: Vec<usize> = (0..KINDS).collect();
  let few = vec![0, 1, 4, 6, 7, 10, 12, 14, 16];
  for (n, kinds) in [(1, &all), (2, &all), (3, &all), (4, ctx.pick(&few, &all))] {
    for shape in forests(n) {
      for l in seqs(kinds.len(), n, n) {
        let l: Vec<usize> = l.iter().map(|&i| kinds[i]).collect();
        let ok = Cell::new(true);
        let kids = dom::label_forest(&shape, &l, &|k, kids| {
          node(k, kids).unwrap_or_else(|| {
            ok.set(false);
            tx("?")
          })
        });
        let t = el("html", &[("class", "z y")], kids);
        if ok.get() && t.parse_stable() {
          ctx.case(
            || t.xml(),
            |ctx| {
              one(ctx, &t, true)?;
              if n > 2 {
                return Ok(());
              }
              let d = dom::parse(&t);
              let all = params();
              let hashes: Vec<String> = all.iter().map(|p| DNM::new(d.nodes[0], p.clone()).to_hash_basic()).collect();
              for e in edits(&t) {
                for e in std::iter::once(e.clone()).chain(if n == 1 { edits(&e) } else { vec![] }) {
                  let d = dom::parse(&e);
                  for (i, p) in all.iter().enumerate() {
                    // texts are joined and trimmed across nodes where white space is normalized
                    if i == 1 {
                      continue;
                    }
                    ctx.steps(1);
                    let h = DNM::new(d.nodes[0], p.clone()).to_hash_basic();
                    ensure(h == hashes[i], || format!("the edited document {} hashes differently with parameters {i}", e.xml()))?;
                  }
                }
              }
              Ok(())
            },
          );
        }
        if ctx.done() {
          return;
        }
      }
    }
  }
}

struct Sharing<T>(T);
unsafe impl<T> Sync for Sharing<T> {}
unsafe impl<T> Send for Sharing<T> {}

fn run09(ctx: &mut Ctx) {
  let docs = [
    el("html", &[], vec![el("p", &[("class", "b a")], vec![tx("some words")]), el("p", &[], vec![])]),
    el("html", &[], vec![tx("é")]),
    el("div", &[], vec![el("p", &[], vec![tx("a text so long that the canonical form of it needs more than one block of the digest")])]),
  ];
  // what a thread hashes: document, node (0: whole document by to_hash_basic)
  let jobs = [(0, 0), (1, 0), (2, 1), (0, 1)];
  let layouts: Vec<(Vec<Vec<usize>>, u32)> = {
    let mut v = vec![
      (vec![vec![0], vec![1]], 99),
      (vec![vec![0], vec![2]], 99),
      (vec![vec![3], vec![0]], 99),
      (vec![vec![0, 1], vec![2]], 99),
      (vec![vec![0, 1], vec![2, 0]], 3),
      (vec![vec![0], vec![1], vec![2]], 3),
      (vec![vec![1], vec![1], vec![3]], 2),
    ];
    if !ctx.quick() {
      v.push((vec![vec![0, 1], vec![2, 0]], 99));
      v.push((vec![vec![0], vec![1], vec![2]], 4));
      v.push((vec![vec![0, 1, 2], vec![2, 3, 1]], 3));
      v.push((vec![vec![0, 1], vec![2, 0], vec![3, 1]], 2));
      v.push((vec![vec![0], vec![1], vec![2], vec![3]], 2));
    }
    v
  };
  let parsed: Vec<Parsed> = docs.iter().map(dom::parse).collect();
  let views: Vec<DNM> = parsed.iter().map(|d| DNM::new(d.nodes[0], DNMParameters::llamapun_normalization())).collect();
  let want: Vec<String> = jobs.iter().map(|&(d, k)| md5(&form(&docs[d], &parsed[d], k, &views[d]))).collect();
  let shared = Sharing((parsed, views));
  for (layout, bound) in layouts {
    let shared = &shared;
    let want = &want;
    ctx.case(
      || format!("threads hashing {layout:?}, up to {bound} preemptions"),
      |ctx| {
        let l2 = layout.clone();
        // initialize what is initialized lazily
        let _ = shared.0 .1[0].to_hash_basic();
        ctx.explore(
          bound,
          3_000_000,
          move || {
            let out: Vec<std::sync::Mutex<Vec<String>>> = l2.iter().map(|_| Default::default()).collect();
            let bodies: Vec<_> = l2
              .iter()
              .enumerate()
              .map(|(t, js)| {
                let out = &out;
                move || {
                  let shared = shared;
                  for &j in js {
                    let (d, k) = jobs[j];
                    let (p, v) = &shared.0;
                    let h = if k == 0 { v[d].to_hash_basic() } else { v[d].node_hash_basic(p[d].nodes[k]) };
                    out[t].lock().unwrap().push(h);
                  }
                }
              })
              .collect();
            let r = mcsched::run_threads(bodies);
            let fails: Vec<String> = r.into_iter().filter_map(|r| r.err().map(|e| mcsched::panic_message(&*e))).collect();
            (out.into_iter().map(|m| m.into_inner().unwrap()).collect::<Vec<_>>(), fails)
          },
          |x, ctx| {
            let (got, fails) = x.result.as_ref().map_err(|e| format!("hashing failed: {e}"))?;
            ensure(fails.is_empty(), || format!("a thread failed: {fails:?}"))?;
            ctx.state(&x.schedule());
            for (t, js) in layout.iter().enumerate() {
              let w: Vec<String> = js.iter().map(|&j| want[j].clone()).collect();
              same(&format!("hashes of thread {t}"), &got[t], &w)?;
            }
            Ok(())
          },
        )
      },
    );
  }
}
