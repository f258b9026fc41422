//! C29: the parameter presets against the documented tables.
use llamapun::dnm::{DNMParameters, SpecialTagsOption};
use mccore::{ensure, same, Ctx, Prop, Verdict};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub const PROP: Prop = Prop {
  id: "C29",
  run,
  chunk: 8,
  assumptions: &["the documented presets are those of the pinned commit"],
  bounds: "both presets completely (every rule and every switch), each built up to 3 times in a row; all 128 switch combinations with 4 rule tables through the parameter check, compared before and after",
};

fn show(o: &SpecialTagsOption) -> String {
  match o {
    SpecialTagsOption::Enter => "enter".into(),
    SpecialTagsOption::Skip => "skip".into(),
    SpecialTagsOption::Normalize(t) => format!("token {t:?}"),
    SpecialTagsOption::FunctionNormalize(_) => "function".into(),
  }
}
fn table(m: &HashMap<String, SpecialTagsOption>) -> BTreeMap<String, String> {
  m.iter().map(|(k, v)| (k.clone(), show(v))).collect()
}
fn want(rows: &[(&str, &str)]) -> BTreeMap<String, String> {
  rows.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}
type Flags = [(&'static str, bool); 7];
fn flags(p: &DNMParameters) -> Flags {
  [
    ("normalize_white_spaces", p.normalize_white_spaces),
    ("wrap_tokens", p.wrap_tokens),
    ("normalize_unicode", p.normalize_unicode),
    ("stem_words_once", p.stem_words_once),
    ("stem_words_full", p.stem_words_full),
    ("convert_to_lowercase", p.convert_to_lowercase),
    ("support_back_mapping", p.support_back_mapping),
  ]
}

fn default_preset() -> Verdict {
  let p = DNMParameters::default();
  same("element rules", &table(&p.special_tag_name_options), &want(&[]))?;
  same("class rules", &table(&p.special_tag_class_options), &want(&[]))?;
  same(
    "switches",
    &flags(&p),
    &[
      ("normalize_white_spaces", true),
      ("wrap_tokens", false),
      ("normalize_unicode", false),
      ("stem_words_once", false),
      ("stem_words_full", false),
      ("convert_to_lowercase", false),
      ("support_back_mapping", true),
    ],
  )
}

fn llamapun_preset() -> Verdict {
  let p = DNMParameters::llamapun_normalization();
  let formula = "token \"\\nmathformula\\n\"";
  same(
    "element rules",
    &table(&p.special_tag_name_options),
    &want(&[
      ("math", "token \"mathformula\""),
      ("cite", "token \"CitationElement\""),
      ("img", "skip"),
      ("table", "skip"),
      ("head", "skip"),
      ("footer", "skip"),
    ]),
  )?;
  same(
    "class rules",
    &table(&p.special_tag_class_options),
    &want(&[
      ("ltx_equation", formula),
      ("ltx_equationgroup", formula),
      ("ltx_ref", "token \"REF\""),
      ("ltx_authors", "skip"),
      ("ltx_TOC", "skip"),
      ("ltx_note_mark", "skip"),
      ("ltx_note_outer", "skip"),
      ("ltx_bibliography", "skip"),
      ("ltx_tag_figure", "skip"),
      ("ltx_tag_table", "skip"),
    ]),
  )?;
  same(
    "switches",
    &flags(&p),
    &[
      ("normalize_white_spaces", false),
      ("wrap_tokens", true),
      ("normalize_unicode", true),
      ("stem_words_once", false),
      ("stem_words_full", false),
      ("convert_to_lowercase", false),
      ("support_back_mapping", true),
    ],
  )
}

fn run(ctx: &mut Ctx) {
  for times in 1..=3 {
    for which in 0..2 {
      if ctx.mine() {
        ctx.run(
          || format!("{} preset, built {times} times", ["default", "llamapun"][which]),
          |ctx| {
            for t in 0..times {
              if which == 0 { default_preset()? } else { llamapun_preset()? }
              ctx.state(&(which, t));
              ctx.steps(1);
            }
            Ok(())
          },
        );
      }
    }
  }
  fn token(_: libxml::readonly::RoNode) -> String { "T".into() }
  let rules = |k: usize| -> HashMap<String, SpecialTagsOption> {
    match k {
      0 => HashMap::new(),
      1 => DNMParameters::llamapun_normalization().special_tag_class_options,
      2 => [("a".to_string(), SpecialTagsOption::Enter), ("b".to_string(), SpecialTagsOption::Skip)].into(),
      _ => [("".to_string(), SpecialTagsOption::FunctionNormalize(Arc::new(token)))].into(),
    }
  };
  for m in 0u32..128 {
    for k in 0..4 {
      if !ctx.mine() {
        continue;
      }
      ctx.run(
        || format!("parameter check with switches {m:07b}, rule table {k}"),
        |ctx| {
          let bit = |i: u32| m >> i & 1 == 1;
          let p = DNMParameters {
            special_tag_name_options: rules(k),
            special_tag_class_options: rules((k + 1) % 4),
            normalize_white_spaces: bit(0),
            wrap_tokens: bit(1),
            normalize_unicode: bit(2),
            stem_words_once: bit(3),
            stem_words_full: bit(4),
            convert_to_lowercase: bit(5),
            support_back_mapping: bit(6),
          };
          let before = (flags(&p), table(&p.special_tag_name_options), table(&p.special_tag_class_options));
          p.check();
          let q = p.clone();
          for x in [&p, &q] {
            let after = (flags(x), table(&x.special_tag_name_options), table(&x.special_tag_class_options));
            same("parameters after the check", &after, &before)?;
          }
          ensure(!format!("{p:?}").is_empty(), || "no debug form".into())?;
          ctx.state(&before);
          ctx.steps(1);
          Ok(())
        },
      );
    }
  }
}
