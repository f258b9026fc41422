//! The enumeration engine shared by the harnesses: a parent process that re-executes itself as
//! worker processes, hands out enumerated cases in order, turns panics, crashes and hangs of the code
//! under test into violations with a replay file, and writes the evidence file.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::io::FromRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod gen;
pub mod rng;

pub use mcsched;

/// exploration depth
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

/// A property's harness
pub struct Prop {
  /// property id
  pub id: &'static str,
  /// enumerates the bounded space
  pub run: fn(&mut Ctx),
  /// cases handed out at a time
  pub chunk: u64,
  /// what the run assumes
  pub assumptions: &'static [&'static str],
  /// what is enumerated, for the evidence file
  pub bounds: &'static str,
}

/// How one case failed: `key` identifies the failing input for the known-findings file
#[derive(Debug, Clone)]
pub struct Fail {
  pub key: String,
  pub msg: String,
}
impl From<String> for Fail {
  fn from(msg: String) -> Fail { Fail { key: String::new(), msg } }
}
impl From<&str> for Fail {
  fn from(msg: &str) -> Fail { Fail { key: String::new(), msg: msg.to_string() } }
}
pub type Verdict = Result<(), Fail>;

/// fail unless equal
pub fn same<A: PartialEq + std::fmt::Debug>(what: &str, got: &A, want: &A) -> Verdict {
  if got == want {
    Ok(())
  } else {
    Err(format!("{what}: got {got:?}, expected {want:?}").into())
  }
}
/// fail unless true
pub fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Verdict {
  if cond {
    Ok(())
  } else {
    Err(msg().into())
  }
}

/// FNV-1a based hasher, stable over runs
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
  fn default() -> Self { Fnv(0xcbf29ce484222325) }
}
impl Hasher for Fnv {
  fn finish(&self) -> u64 {
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
  }
  fn write(&mut self, b: &[u8]) {
    for x in b {
      self.0 ^= *x as u64;
      self.0 = self.0.wrapping_mul(0x100000001b3);
    }
  }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
  let mut h = Fnv::default();
  t.hash(&mut h);
  h.finish()
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
  Work,
  /// run only this case
  Replay(u64),
  /// print the description of this case without running it
  Describe(u64),
}

/// The enumeration context of a worker
pub struct Ctx {
  pub tier: Tier,
  mode: Mode,
  chunk: u64,
  idx: u64,
  claim: (u64, u64),
  claimed: Instant,
  shm: *const AtomicU64,
  worker: usize,
  out: std::fs::File,
  states: HashSet<u64>,
  transitions: u64,
  traces: u64,
  extra: BTreeMap<String, u64>,
  samples: Vec<(u64, String)>,
  pub scratch: PathBuf,
  known: Vec<String>,
  started: Instant,
  deadline: Duration,
  capped: bool,
  stop: bool,
  pub seed: u64,
  /// cases that take this many milliseconds are reported on stderr
  slow: u128,
}

thread_local! {
  static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

const SHM_WORDS: usize = 512;
fn shm_open(path: &Path, create: bool) -> *const AtomicU64 {
  use std::os::unix::io::AsRawFd;
  let f = std::fs::OpenOptions::new()
    .read(true)
    .write(true)
    .create(create)
    .truncate(false)
    .open(path)
    .expect("shared page");
  if create {
    f.set_len((SHM_WORDS * 8) as u64).expect("shared page size");
  }
  let p = unsafe {
    libc::mmap(
      std::ptr::null_mut(),
      SHM_WORDS * 8,
      libc::PROT_READ | libc::PROT_WRITE,
      libc::MAP_SHARED,
      f.as_raw_fd(),
      0,
    )
  };
  assert!(p != libc::MAP_FAILED, "mmap");
  p as *const AtomicU64
}

fn esc(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\t' => o.push_str("\\t"),
      '\r' => o.push_str("\\r"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o
}
fn oneline(s: &str) -> String {
  s.chars().flat_map(|c| c.escape_debug()).collect::<String>().replace("\\\"", "\"").replace("\\'", "'")
}

impl Ctx {
  fn word(&self, i: usize) -> &AtomicU64 { unsafe { &*self.shm.add(i) } }
  fn line(&mut self, s: &str) {
    let _ = writeln!(self.out, "{s}");
  }
  pub fn quick(&self) -> bool { self.tier == Tier::Quick }
  /// quick or thorough value
  pub fn pick<T>(&self, q: T, t: T) -> T {
    if self.quick() {
      q
    } else {
      t
    }
  }
  /// Count one enumerated case; true if this worker is to run it.
  pub fn mine(&mut self) -> bool {
    let i = self.idx;
    self.idx += 1;
    if self.stop {
      return false;
    }
    match self.mode {
      Mode::Replay(k) | Mode::Describe(k) => return i == k,
      Mode::Work => {},
    }
    while i >= self.claim.1 {
      if self.started.elapsed() > self.deadline {
        self.capped = true;
        self.stop = true;
        return false;
      }
      // as many cases at a time as take a while together
      let now = Instant::now();
      let took = now.duration_since(self.claimed);
      self.claimed = now;
      let n = self.claim.1 - self.claim.0;
      let n = if took > Duration::from_millis(80) { n / 4 } else if took < Duration::from_millis(20) { n * 2 } else { n };
      let n = n.clamp(1, self.chunk);
      let a = self.word(0).fetch_add(n, SeqCst);
      self.claim = (a, a + n);
    }
    i >= self.claim.0
  }
  /// true once there is nothing more to do for this worker (enumerations may stop early)
  pub fn done(&self) -> bool {
    self.stop
      || match self.mode {
        Mode::Replay(k) | Mode::Describe(k) => self.idx > k,
        Mode::Work => false,
      }
  }
  /// sign of life within a long case
  pub fn beat(&self) {
    self.word(1 + 2 * self.worker + 1).fetch_add(1, SeqCst);
  }
  /// record a state of the model or of the explored space
  pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
    if self.states.len() < 4_000_000 {
      self.states.insert(hash_of(t));
    }
  }
  /// record model or API operations executed
  pub fn steps(&mut self, n: u64) { self.transitions += n; }
  /// record executions of the implementation compared with the reference
  pub fn traces(&mut self, n: u64) { self.traces += n; }
  /// a named counter of the evidence file
  pub fn count(&mut self, k: &str, n: u64) {
    match self.extra.get_mut(k) {
      Some(v) => *v += n,
      None => {
        self.extra.insert(k.to_string(), n);
      },
    }
  }
  /// a capped exploration: the reason appears in the evidence file
  pub fn note_cap(&mut self) { self.capped = true; }

  /// Run a case handed out by [`Ctx::mine`]. `desc` writes the case out.
  pub fn run(
    &mut self,
    desc: impl Fn() -> String,
    f: impl FnOnce(&mut Ctx) -> Verdict,
  ) {
    let idx = self.idx - 1;
    if let Mode::Describe(_) = self.mode {
      let d = oneline(&desc());
      self.line(&format!("D\t{d}"));
      self.stop = true;
      return;
    }
    self.word(1 + 2 * self.worker).store(idx + 1, SeqCst);
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    let begun = Instant::now();
    let r = panic::catch_unwind(AssertUnwindSafe(|| f(&mut *self)));
    if begun.elapsed().as_millis() >= self.slow {
      let d = oneline(&desc());
      self.line(&format!("T\t{} ms\t{d}", begun.elapsed().as_millis()));
    }
    let verdict = match r {
      Ok(v) => v,
      Err(p) => {
        let m = LAST_PANIC
          .with(|l| l.borrow_mut().take())
          .unwrap_or_else(|| mcsched::panic_message(&*p));
        if m.contains("mcsched engine error") || m.contains("harness error") {
          let m = oneline(&m);
          let d = oneline(&desc());
          self.line(&format!("E\t{idx}\t{m} in {d}"));
          self.stop = true;
          return;
        }
        Err(Fail { key: String::new(), msg: format!("panic: {m}") })
      },
    };
    self.word(1 + 2 * self.worker).store(idx + 1, SeqCst);
    self.beat();
    self.traces += 1;
    if self.samples.len() < 2 || (self.samples.len() < 6 && idx > self.samples.last().map_or(0, |s| s.0) * 4) {
      let d = desc();
      self.samples.push((idx, d));
    }
    if let Mode::Replay(_) = self.mode {
      let d = oneline(&desc());
      let v = match &verdict {
        Ok(()) => "held".to_string(),
        Err(e) => format!("VIOLATED: {}", oneline(&e.msg)),
      };
      self.line(&format!("R\t{d}\t{v}"));
      self.stop = true;
      return;
    }
    if let Err(e) = verdict {
      let d = oneline(&desc());
      let key = if e.key.is_empty() { d.clone() } else { oneline(&e.key) };
      let m = oneline(&e.msg);
      if self.known.contains(&key) {
        self.line(&format!("K\t{key}"));
      } else {
        self.line(&format!("V\t{idx}\t{key}\t{d}\t{m}"));
        self.stop = true;
      }
    }
  }
  /// [`Ctx::mine`] and [`Ctx::run`] in one
  pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Ctx) -> Verdict) {
    if self.mine() {
      self.run(desc, f)
    }
  }

  /// Explore all executions of `body` with at most `bound` deviations, adding to the counters.
  pub fn explore<R: Send>(
    &mut self,
    bound: u32,
    max_executions: u64,
    body: impl Fn() -> R + Sync,
    mut check: impl FnMut(&mcsched::Execution<R>, &mut Ctx) -> Verdict,
  ) -> Verdict {
    let mut fail: Verdict = Ok(());
    let mut cap = false;
    let started = self.started;
    let deadline = self.deadline;
    let stats = {
      let this = RefCell::new(&mut *self);
      mcsched::explore(bound, 2_000_000, max_executions, (0, 1), &body, |x| {
        let mut me = this.borrow_mut();
        me.beat();
        let v = if let Some(d) = &x.deadlock {
          Err(Fail::from(format!("{d}")))
        } else {
          check(x, &mut me)
        };
        match v {
          Ok(()) => {
            if started.elapsed() > deadline {
              cap = true;
              return false;
            }
            true
          },
          Err(e) => {
            fail = Err(Fail {
              key: e.key,
              msg: format!(
                "{} [schedule {:?}, {} deviations]",
                e.msg,
                x.schedule(),
                x.deviations()
              ),
            });
            false
          },
        }
      })
    };
    self.steps(stats.steps);
    self.traces += stats.executions.saturating_sub(1);
    self.count("executions", stats.executions);
    self.count("decision_tree_nodes", stats.nodes);
    if stats.capped || cap {
      self.capped = true;
    }
    let m = self.extra.entry("max_decisions".into()).or_insert(0);
    *m = (*m).max(stats.max_decisions);
    fail
  }
}

fn find(props: &'static [Prop], id: &str) -> &'static Prop {
  props.iter().find(|p| p.id == id).unwrap_or_else(|| {
    eprintln!("no harness for {id} in this binary");
    std::process::exit(2)
  })
}

fn verif_dir() -> PathBuf {
  PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// lines `known: property=<id> key=<key>` of the known-findings file, for one property
fn known_findings(id: &str) -> Vec<(String, String)> {
  let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
  let mut v = Vec::new();
  for l in text.lines() {
    if let Some(r) = l.strip_prefix("known: property=") {
      if let Some((p, rest)) = r.split_once(" key=") {
        if p == id {
          let (k, d) = rest.split_once(" :: ").unwrap_or((rest, ""));
          v.push((k.to_string(), d.to_string()));
        }
      }
    }
  }
  v
}

fn set_limits() {
  unsafe {
    let gb: u64 = std::env::var("MC_MEM_GB").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
    let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
    libc::setrlimit(libc::RLIMIT_AS, &l);
    let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &c);
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
  }
}

fn worker(props: &'static [Prop], id: &str, tier: Tier) {
  set_limits();
  let env = |k: &str| std::env::var(k).unwrap_or_default();
  let widx: usize = env("MC_WORKER").parse().unwrap();
  let run = PathBuf::from(env("MC_RUN"));
  let out = unsafe {
    // results go to the original stdout; the code under test only sees /dev/null
    let fd = libc::dup(1);
    libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
    let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_RDWR);
    libc::dup2(null, 1);
    if env("MC_STDERR").is_empty() {
      libc::dup2(null, 2);
    }
    std::fs::File::from_raw_fd(fd)
  };
  panic::set_hook(Box::new(|info| {
    let p = info.payload();
    let m = p
      .downcast_ref::<&str>()
      .map(|s| s.to_string())
      .or_else(|| p.downcast_ref::<String>().cloned())
      .unwrap_or_else(|| "non-string panic".into());
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let _ = LAST_PANIC.try_with(|l| {
      if let Ok(mut l) = l.try_borrow_mut() {
        *l = Some(format!("{m} at {loc}"));
      }
    });
    if let Ok(mut g) = PANICS.lock() {
      if g.len() < 100 {
        g.push(format!("{m} at {loc}"));
      }
    }
    if std::env::var("MC_STDERR").map_or(false, |s| !s.is_empty()) {
      eprintln!("panic: {m} at {loc}");
    }
  }));
  let prop = find(props, id);
  let mode = if let Ok(k) = std::env::var("MC_REPLAY") {
    Mode::Replay(k.parse().unwrap())
  } else if let Ok(k) = std::env::var("MC_DESCRIBE") {
    Mode::Describe(k.parse().unwrap())
  } else {
    Mode::Work
  };
  let scratch = run.join(format!("w{widx}"));
  std::fs::create_dir_all(&scratch).expect("scratch");
  let mut ctx = Ctx {
    tier,
    mode,
    chunk: prop.chunk.max(1),
    idx: 0,
    claim: (0, 0),
    claimed: Instant::now(),
    shm: shm_open(&run.join("shm"), false),
    worker: widx,
    out,
    states: HashSet::new(),
    transitions: 0,
    traces: 0,
    extra: BTreeMap::new(),
    samples: Vec::new(),
    scratch,
    known: known_findings(id).into_iter().map(|k| k.0).collect(),
    started: Instant::now(),
    deadline: Duration::from_secs(
      env("MC_DEADLINE").parse().unwrap_or(if tier == Tier::Quick { 420 } else { 3000 }),
    ),
    capped: false,
    stop: false,
    seed: env("VERIF_SEED").parse().unwrap_or(1),
    slow: env("MC_SLOW").parse().unwrap_or(u128::MAX),
  };
  // panics between cases are the harness's own fault
  let r = panic::catch_unwind(AssertUnwindSafe(|| (prop.run)(&mut ctx)));
  if r.is_err() {
    let m = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
    let m = oneline(&m);
    ctx.line(&format!("E\t{}\tharness panic outside of a case: {m}", ctx.idx));
  }
  let st: Vec<u8> = ctx.states.iter().flat_map(|h| h.to_le_bytes()).collect();
  let _ = std::fs::write(run.join(format!("states.{widx}")), st);
  let total = ctx.idx;
  let lines: Vec<String> = ctx
    .extra
    .iter()
    .map(|(k, v)| format!("X\t{k}\t{v}"))
    .chain(ctx.samples.iter().map(|(i, d)| format!("S\t{i}\t{}", oneline(d))))
    .collect();
  for l in lines {
    ctx.line(&l);
  }
  let l = format!("F\t{}\t{}\t{total}\t{}", ctx.transitions, ctx.traces, ctx.capped);
  ctx.line(&l);
  // no destructors of the code under test at exit
  unsafe { libc::_exit(0) }
}

#[derive(Default)]
struct Totals {
  transitions: u64,
  traces: u64,
  extra: BTreeMap<String, u64>,
  samples: Vec<(u64, String)>,
  capped: bool,
  finished: usize,
  known: HashSet<String>,
  violations: Vec<(u64, String, String, String)>,
  errors: Vec<String>,
  cases: u64,
}

fn spawn(id: &str, tier: Tier, run: &Path, w: usize, extra: &[(&str, String)]) -> std::process::Child {
  let mut c = Command::new(std::env::current_exe().expect("own path"));
  c.arg(id)
    .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
    .env("MC_WORKER", w.to_string())
    .env("MC_RUN", run)
    .env("RUST_BACKTRACE", "0")
    .current_dir(run)
    .stdin(Stdio::null())
    .stdout(Stdio::piped());
  for (k, v) in extra {
    c.env(k, v);
  }
  c.process_group(0);
  c.spawn().expect("spawning a worker")
}

fn parse(line: &str, t: &mut Totals) -> bool {
  let f: Vec<&str> = line.split('\t').collect();
  match f[0] {
    "V" if f.len() >= 5 => {
      t.violations.push((f[1].parse().unwrap_or(0), f[2].into(), f[3].into(), f[4..].join(" ")));
      return true;
    },
    "K" => {
      t.known.insert(f[1].to_string());
    },
    "E" => {
      t.errors.push(f[1..].join(" "));
      return true;
    },
    "X" => {
      let v: u64 = f[2].parse().unwrap_or(0);
      let e = t.extra.entry(f[1].into()).or_insert(0);
      if f[1].starts_with("max_") {
        *e = (*e).max(v)
      } else {
        *e += v
      }
    },
    "T" => eprintln!("slow: {}", f[1..].join(" ")),
    "S" => t.samples.push((f[1].parse().unwrap_or(0), f[2..].join(" "))),
    "F" => {
      t.transitions += f[1].parse::<u64>().unwrap_or(0);
      t.traces += f[2].parse::<u64>().unwrap_or(0);
      t.cases = t.cases.max(f[3].parse::<u64>().unwrap_or(0));
      t.capped |= f[4] == "true";
      t.finished += 1;
    },
    _ => {},
  }
  false
}

fn describe(id: &str, tier: Tier, run: &Path, idx: u64) -> String {
  let mut c = spawn(id, tier, run, 30, &[("MC_DESCRIBE", idx.to_string())]);
  let out = c.stdout.take().unwrap();
  let mut d = String::new();
  for l in BufReader::new(out).lines().map_while(Result::ok) {
    if let Some(x) = l.strip_prefix("D\t") {
      d = x.to_string();
      break;
    }
  }
  let _ = c.kill();
  let _ = c.wait();
  d
}

/// Entry point of a harness binary: `<bin> <property> [quick|thorough] [replay <case>]`
pub fn main(props: &'static [Prop]) {
  let args: Vec<String> = std::env::args().collect();
  if args.len() < 2 {
    for p in props {
      println!("{}", p.id);
    }
    return;
  }
  let id = args[1].clone();
  let tier = match args.get(2).map(|s| s.as_str()) {
    Some("thorough") => Tier::Thorough,
    _ => Tier::Quick,
  };
  if std::env::var("MC_WORKER").is_ok() {
    return worker(props, &id, tier);
  }
  let prop = find(props, &id);
  let started = Instant::now();
  let run = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
  std::fs::create_dir_all(&run).expect("run directory");
  shm_open(&run.join("shm"), true);
  let cleanup = |code: i32| -> ! {
    let _ = std::fs::remove_dir_all(&run);
    std::process::exit(code)
  };
  if args.get(3).map(|s| s.as_str()) == Some("replay") {
    let k = args.get(4).cloned().unwrap_or_default();
    let mut c = spawn(&id, tier, &run, 0, &[("MC_REPLAY", k), ("MC_STDERR", "1".into())]);
    let out = c.stdout.take().unwrap();
    let mut bad = false;
    let mut seen = false;
    for l in BufReader::new(out).lines().map_while(Result::ok) {
      if l.starts_with("R\t") || l.starts_with("E\t") {
        seen = true;
        bad |= l.contains("\tVIOLATED");
        println!("{}", l.replace('\t', "\n  "));
      }
    }
    let st = c.wait().unwrap();
    if !seen {
      println!("the case ended with {st}");
      bad = true;
    }
    cleanup(if bad { 1 } else { 0 });
  }
  let nworkers: usize = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
  let shm = shm_open(&run.join("shm"), false);
  let word = |i: usize| unsafe { &*shm.add(i) };
  let totals = std::sync::Arc::new(Mutex::new(Totals::default()));
  let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
  let mut kids = Vec::new();
  for w in 0..nworkers {
    let mut c = spawn(&id, tier, &run, w, &[]);
    let out = c.stdout.take().unwrap();
    let t = totals.clone();
    let s = stop.clone();
    let h = std::thread::spawn(move || {
      for l in BufReader::new(out).lines().map_while(Result::ok) {
        if parse(&l, &mut t.lock().unwrap()) {
          s.store(true, SeqCst);
        }
      }
    });
    kids.push((c, h, None::<std::process::ExitStatus>, (0u64, 0u64), Instant::now()));
  }
  let stall = Duration::from_secs(
    std::env::var("MC_STALL").ok().and_then(|s| s.parse().ok()).unwrap_or(90),
  );
  let mut crashed: Vec<(u64, String)> = Vec::new();
  let mut grace: Option<Instant> = None;
  loop {
    let mut alive = 0;
    for (w, k) in kids.iter_mut().enumerate() {
      if k.2.is_some() {
        continue;
      }
      match k.0.try_wait() {
        Ok(Some(st)) => {
          k.2 = Some(st);
          if let Some(sig) = st.signal() {
            let idx = word(1 + 2 * w).load(SeqCst);
            if sig == libc::SIGKILL {
              totals.lock().unwrap().errors.push(format!("worker {w} was killed (memory?)"));
            } else if idx > 0 {
              crashed.push((idx - 1, format!("the process died of signal {sig}")));
            } else {
              totals.lock().unwrap().errors.push(format!("worker {w} died of signal {sig}"));
            }
            stop.store(true, SeqCst);
          } else if st.code() != Some(0) {
            let idx = word(1 + 2 * w).load(SeqCst);
            if idx > 0 {
              crashed.push((idx - 1, format!("the process exited with {st}")));
            } else {
              totals.lock().unwrap().errors.push(format!("worker {w} ended with {st}"));
            }
            stop.store(true, SeqCst);
          }
        },
        _ => {
          alive += 1;
          let now = (word(1 + 2 * w).load(SeqCst), word(1 + 2 * w + 1).load(SeqCst));
          if now != k.3 {
            k.3 = now;
            k.4 = Instant::now();
          } else if now.0 > 0 && k.4.elapsed() > stall {
            crashed.push((now.0 - 1, format!("no progress for {} s", stall.as_secs())));
            stop.store(true, SeqCst);
          }
        },
      }
    }
    if alive == 0 {
      break;
    }
    if stop.load(SeqCst) {
      let g = *grace.get_or_insert_with(Instant::now);
      if g.elapsed() > Duration::from_millis(300) {
        for k in kids.iter_mut() {
          if k.2.is_none() {
            unsafe { libc::kill(-(k.0.id() as i32), libc::SIGKILL) };
            k.2 = k.0.wait().ok();
          }
        }
        break;
      }
    }
    std::thread::sleep(Duration::from_millis(20));
  }
  for k in kids {
    // leftovers of a worker's own children
    unsafe { libc::kill(-(k.0.id() as i32), libc::SIGKILL) };
    let _ = k.1.join();
  }
  let mut t = std::mem::take(&mut *totals.lock().unwrap());
  crashed.sort();
  for (idx, what) in crashed {
    let d = describe(&id, tier, &run, idx);
    if known_findings(&id).iter().any(|k| k.0 == d) {
      // a crash ends the enumeration, so it cannot be passed over
      t.errors.push(format!("known finding {d} ends the process: {what}"));
    }
    t.violations.push((idx, d.clone(), d, what));
  }
  t.violations.sort();
  let mut states: HashSet<u64> = HashSet::new();
  for w in 0..nworkers {
    if let Ok(b) = std::fs::read(run.join(format!("states.{w}"))) {
      for c in b.chunks_exact(8) {
        states.insert(u64::from_le_bytes(c.try_into().unwrap()));
      }
    }
  }
  for (k, d) in known_findings(&id) {
    if t.known.contains(&k) {
      println!("KNOWN-FINDING: property={id} {k} {d}");
    }
  }
  t.samples.sort();
  t.samples.dedup();
  let n = t.samples.len();
  let mut samples: Vec<String> = Vec::new();
  for i in [0, n / 4, n / 2, 3 * n / 4, n.wrapping_sub(1)] {
    if let Some(s) = t.samples.get(i) {
      let mut s: String = s.1.chars().take(1500).collect();
      s = format!("\"{}\"", esc(&s));
      if !samples.contains(&s) {
        samples.push(s);
      }
    }
  }
  let nodes = t.extra.get("decision_tree_nodes").copied().unwrap_or(0);
  let mut cov = vec![
    format!("\"states\": {}", states.len() as u64 + nodes),
    format!("\"transitions\": {}", t.transitions),
    format!("\"traces_validated_against_impl\": {}", t.traces),
    format!("\"cases_enumerated\": {}", t.cases),
    format!("\"exhaustive\": {}", !t.capped && t.violations.is_empty() && t.errors.is_empty()),
    format!("\"bounds\": \"{}\"", esc(prop.bounds)),
    format!("\"samples\": [{}]", samples.join(", ")),
  ];
  for (k, v) in &t.extra {
    cov.push(format!("\"{}\": {}", esc(k), v));
  }
  let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
  let ev = format!(
    "{{\"property\": \"{id}\", \"tier\": \"{}\", \"seed\": {seed}, \"level\": \"model_checking\",\n \"coverage\": {{{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}}}\n",
    if tier == Tier::Quick { "quick" } else { "thorough" },
    cov.join(",\n   "),
    prop.assumptions.iter().map(|a| format!("\"{}\"", esc(a))).collect::<Vec<_>>().join(", "),
    started.elapsed().as_secs_f64(),
    t.violations.len()
  );
  let evdir = verif_dir().join("evidence");
  let _ = std::fs::create_dir_all(&evdir);
  if let Err(e) = std::fs::write(evdir.join(format!("{id}.json")), ev) {
    eprintln!("cannot write the evidence file: {e}");
    cleanup(2);
  }
  println!(
    "{id}: {} cases, {} states, {} transitions, {} traces compared, {:.1} s{}",
    t.cases,
    states.len() as u64 + nodes,
    t.transitions,
    t.traces,
    started.elapsed().as_secs_f64(),
    if t.capped { " (CAPPED)" } else { "" }
  );
  for (k, v) in &t.extra {
    println!("  {k} = {v}");
  }
  if let Some((idx, key, d, m)) = t.violations.first() {
    let dir = verif_dir().join("mc").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{idx}.txt"));
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = std::fs::write(
      &path,
      format!(
        "property: {id}\ncase: {idx} ({tier_s} enumeration)\ninput: {d}\nkey: {key}\nobserved: {m}\nreplay: cd /verif && ./check.sh {id} {tier_s} replay {idx}\n"
      ),
    );
    println!("input: {d}");
    let (m, more) = match m.char_indices().nth(1200) {
      Some((n, _)) => (&m[..n], " ..."),
      None => (&m[..], ""),
    };
    println!("observed: {m}{more}");
    println!("VIOLATION property={id} replay={}", path.display());
    cleanup(1);
  }
  if !t.errors.is_empty() || t.finished != nworkers {
    for e in &t.errors {
      eprintln!("ERROR: {e}");
    }
    eprintln!("ERROR: {} of {nworkers} workers finished", t.finished);
    cleanup(2);
  }
  cleanup(0);
}
