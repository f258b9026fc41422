//! C24: the stop-word collection.
use llamapun::stopwords;
use mccore::{ensure, same, Ctx, Prop};
use mccore::gen::scalars;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
  id: "C24",
  run,
  chunk: 16,
  assumptions: &["the published list is the one in stopwords.txt, taken from the pinned commit"],
  bounds: "every listed word, and every single-character edit (deletion, capitalisation, surrounding blank, appended letter, doubled letter) of every listed word; every character put in front of, behind and for the middle of a listed word; every load of up to 3 loads",
};

fn run(ctx: &mut Ctx) {
  let listed: BTreeSet<&str> = include_str!("stopwords.txt").lines().collect();
  for n in 1..=3 {
    ctx.case(
      || format!("{n} loads"),
      |ctx| {
        for _ in 0..n {
          let got: BTreeSet<&str> = stopwords::load().into_iter().collect();
          ctx.steps(1);
          let missing: Vec<_> = listed.difference(&got).collect();
          let extra: Vec<_> = got.difference(&listed).collect();
          same("missing stop words", &missing, &vec![])?;
          same("additional stop words", &extra, &vec![])?;
        }
        Ok(())
      },
    );
  }
  let loaded = stopwords::load();
  for w in &listed {
    let mut edits: BTreeSet<String> = BTreeSet::new();
    for (i, c) in w.char_indices() {
      let mut d = w.to_string();
      d.remove(i);
      edits.insert(d);
      let mut d = w.to_string();
      d.insert(i, c);
      edits.insert(d);
      let up: String = c.to_uppercase().collect();
      let mut d = w.to_string();
      d.replace_range(i..i + c.len_utf8(), &up);
      edits.insert(d);
    }
    for e in [format!("{w} "), format!(" {w}"), format!("{w}s"), format!("{w}'"), w.replace('\'', "\u{2019}")] {
      edits.insert(e);
    }
    ctx.case(
      || format!("{w:?} and its edits"),
      |ctx| {
        ensure(loaded.contains(w), || format!("{w:?} is not a stop word"))?;
        for e in &edits {
          ctx.steps(1);
          ctx.state(e);
          same(&format!("membership of {e:?}"), &loaded.contains(e.as_str()), &listed.contains(e.as_str()))?;
        }
        Ok(())
      },
    );
  }
  for cs in scalars(true, 1 << 12) {
    ctx.case(
      || format!("characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        for c in &cs {
          for e in [c.to_string(), format!("the{c}"), format!("{c}the"), format!("t{c}e"), format!("can{c}t")] {
            ctx.steps(1);
            same(&format!("membership of {e:?}"), &loaded.contains(e.as_str()), &listed.contains(e.as_str()))?;
          }
        }
        Ok(())
      },
    );
  }
}
