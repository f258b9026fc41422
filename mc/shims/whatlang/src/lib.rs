//! Stand-in for whatlang: the harness supplies the detector's answer, so that every combination of
//! script, language and confidence can be enumerated; by default a trivial script detector.
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Script {
  Latin,
  Cyrillic,
  Greek,
  Mandarin,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lang {
  Eng,
  Deu,
  Fra,
  Rus,
  Lat,
  Cmn,
  Ell,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Info {
  script: Script,
  lang: Lang,
  confidence: f64,
}
impl Info {
  pub fn new(script: Script, lang: Lang, confidence: f64) -> Info {
    Info { script, lang, confidence }
  }
  pub fn script(&self) -> Script { self.script }
  pub fn lang(&self) -> Lang { self.lang }
  pub fn confidence(&self) -> f64 { self.confidence }
  pub fn is_reliable(&self) -> bool { self.confidence > 0.9 }
}

type Hook = Box<dyn Fn(&str) -> Option<Info>>;
thread_local! { static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) }; }
/// harness side
pub fn set_hook(h: Option<Hook>) { HOOK.with(|c| *c.borrow_mut() = h) }

pub fn detect(text: &str) -> Option<Info> {
  HOOK.with(|h| match &*h.borrow() {
    Some(f) => f(text),
    None => {
      if !text.chars().any(|c| c.is_alphabetic()) {
        None
      } else if text.chars().any(|c| ('а'..='я').contains(&c)) {
        Some(Info::new(Script::Cyrillic, Lang::Rus, 1.0))
      } else {
        Some(Info::new(Script::Latin, Lang::Eng, 0.5))
      }
    },
  })
}
pub fn detect_lang(text: &str) -> Option<Lang> { detect(text).map(|i| i.lang()) }
pub fn detect_script(text: &str) -> Option<Script> { detect(text).map(|i| i.script()) }
