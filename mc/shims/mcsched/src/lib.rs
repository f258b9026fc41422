//! A small controlled scheduler and deviation-bounded depth-first explorer.
//!
//! One *execution* runs a closure on a controlled main thread. Controlled threads are OS threads of
//! which exactly one runs at a time; control changes hands only at scheduling points
//! ([`point`], blocking, thread exit). Every decision (which enabled thread runs next, which answer
//! the environment gives) is taken from a prefix, and is 0 beyond the prefix. The explorer
//! enumerates every decision sequence whose number of *deviations* (preemptions of a runnable
//! thread, non-default environment answers with a cost) stays within the bound.
//!
//! Outside of an execution every function degrades to a no-op or the default answer, so that the
//! shims can also be used by ordinary single-threaded code.

use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{self, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
  Runnable,
  Blocked(usize),
  Done,
}

/// One recorded decision of an execution
#[derive(Clone, Debug)]
pub struct Decision {
  /// what was decided (scheduling or the kind of environment choice)
  pub kind: &'static str,
  /// number of alternatives
  pub n: u32,
  /// the alternative taken
  pub taken: u32,
  /// deviation cost of taking a non-zero alternative
  pub cost: u32,
}

struct State {
  status: Vec<Status>,
  current: usize,
  prefix: Vec<u32>,
  decisions: Vec<Decision>,
  steps: u64,
  max_steps: u64,
  log: Vec<String>,
  deadlock: Option<String>,
  abort: bool,
  diverged: Option<String>,
}

struct Exec {
  state: Mutex<State>,
  cvs: Mutex<Vec<Arc<Condvar>>>,
}

thread_local! {
  static CUR: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
}

fn current() -> Option<(Arc<Exec>, usize)> {
  CUR.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}

/// payload used to unwind threads of an aborted execution (deadlock, horizon, divergence)
struct AbortExecution;

impl Exec {
  fn cv(&self, t: usize) -> Arc<Condvar> { self.cvs.lock().unwrap()[t].clone() }

  /// take a decision among n alternatives
  fn decide(st: &mut State, kind: &'static str, n: usize, cost: u32) -> usize {
    if n <= 1 {
      return 0;
    }
    let i = st.decisions.len();
    let taken = if i < st.prefix.len() {
      let want = st.prefix[i];
      if want as usize >= n {
        st.diverged = Some(format!(
          "replay divergence at decision {i} ({kind}): prefix wants {want} of {n} alternatives"
        ));
        st.abort = true;
        0
      } else {
        want as usize
      }
    } else {
      0
    };
    let cost = if EVERY_DELAY.load(std::sync::atomic::Ordering::SeqCst) { cost.max(1) } else { cost };
    st.decisions.push(Decision { kind, n: n as u32, taken: taken as u32, cost });
    taken
  }

  /// choose the next thread to run; `me_runnable` says whether the current one may continue
  fn reschedule(&self, st: &mut State, me: usize, me_runnable: bool, kind: &'static str) {
    let mut enabled: Vec<usize> = Vec::new();
    if me_runnable {
      enabled.push(me);
    }
    for (t, s) in st.status.iter().enumerate() {
      if t != me && *s == Status::Runnable {
        enabled.push(t);
      }
    }
    if enabled.is_empty() {
      if st.status.iter().any(|s| matches!(s, Status::Blocked(_))) {
        st.deadlock = Some(format!("no enabled thread, statuses {:?}", st.status));
        st.abort = true;
      }
      return;
    }
    let k = Exec::decide(st, kind, enabled.len(), if me_runnable { 1 } else { 0 });
    st.current = enabled[k];
  }

  fn wait_for_turn<'a>(
    &self,
    mut st: std::sync::MutexGuard<'a, State>,
    me: usize,
  ) -> std::sync::MutexGuard<'a, State> {
    let cv = self.cv(me);
    while st.current != me && !st.abort {
      st = cv.wait(st).unwrap();
    }
    st
  }

  fn wake_all(&self) {
    for cv in self.cvs.lock().unwrap().iter() {
      cv.notify_all();
    }
  }
}

fn abort_if(st: std::sync::MutexGuard<State>, ex: &Exec) {
  if st.abort {
    drop(st);
    ex.wake_all();
    if !std::thread::panicking() {
      panic::resume_unwind(Box::new(AbortExecution));
    }
  }
}

/// true when called from a controlled thread of a running execution
pub fn active() -> bool { current().is_some() }

/// A scheduling point: any other enabled thread may be run here.
pub fn point(kind: &'static str) {
  if std::thread::panicking() {
    return;
  }
  if let Some((ex, me)) = current() {
    let mut st = ex.state.lock().unwrap();
    if st.abort {
      return abort_if(st, &ex);
    }
    st.steps += 1;
    if st.steps > st.max_steps {
      st.deadlock = Some(format!("execution exceeded the horizon of {} steps", st.max_steps));
      st.abort = true;
      return abort_if(st, &ex);
    }
    ex.reschedule(&mut st, me, true, kind);
    if st.current != me && !st.abort {
      ex.cv(st.current).notify_all();
      st = ex.wait_for_turn(st, me);
    }
    abort_if(st, &ex)
  }
}

/// An environment choice among `n` answers; answer 0 is the default and free, any other has `cost`.
pub fn choose(kind: &'static str, n: usize, cost: u32) -> usize {
  match current() {
    None => 0,
    Some((ex, _)) => {
      let mut st = ex.state.lock().unwrap();
      st.steps += 1;
      let k = Exec::decide(&mut st, kind, n, cost);
      abort_if(st, &ex);
      k
    },
  }
}

/// Append to the observation log of the current execution.
pub fn log(msg: impl Into<String>) {
  if let Some((ex, me)) = current() {
    ex.state.lock().unwrap().log.push(format!("t{me}:{}", msg.into()));
  }
}

/// Block the current thread until [`wake`] is called for `resource`.
/// Returns false outside of an execution.
pub fn block_on(resource: usize) -> bool {
  if let Some((ex, me)) = current() {
    let mut st = ex.state.lock().unwrap();
    st.steps += 1;
    st.status[me] = Status::Blocked(resource);
    ex.reschedule(&mut st, me, false, "blocked");
    if !st.abort {
      ex.cv(st.current).notify_all();
      st = ex.wait_for_turn(st, me);
    }
    abort_if(st, &ex);
    true
  } else {
    false
  }
}

/// Make every thread blocked on `resource` runnable again.
pub fn wake(resource: usize) {
  if let Some((ex, _)) = current() {
    let mut st = ex.state.lock().unwrap();
    for s in st.status.iter_mut() {
      if *s == Status::Blocked(resource) {
        *s = Status::Runnable;
      }
    }
  }
}

/// the scheduler's id of the current thread
pub fn thread_id() -> usize { current().map(|c| c.1).unwrap_or(0) }

fn finish(ex: &Exec, me: usize) {
  let mut st = ex.state.lock().unwrap();
  st.status[me] = Status::Done;
  // joiners wait on the pseudo resource of the thread
  for s in st.status.iter_mut() {
    if *s == Status::Blocked(join_resource(me)) {
      *s = Status::Runnable;
    }
  }
  if !st.abort {
    ex.reschedule(&mut st, me, false, "exit");
  }
  drop(st);
  ex.wake_all();
}

fn join_resource(t: usize) -> usize { usize::MAX - t }

/// Run the given bodies to completion as controlled threads next to the current one, which blocks
/// until all are done. Without an execution they are run one after another on the current thread.
/// Panics of the bodies are returned.
pub fn run_threads<'env, F>(bodies: Vec<F>) -> Vec<Result<(), Box<dyn Any + Send>>>
where F: FnOnce() + Send + 'env {
  match current() {
    None => bodies
      .into_iter()
      .map(|b| panic::catch_unwind(AssertUnwindSafe(b)))
      .collect(),
    Some((ex, _me)) => {
      let mut ids = Vec::new();
      {
        let mut st = ex.state.lock().unwrap();
        let mut cvs = ex.cvs.lock().unwrap();
        for _ in &bodies {
          ids.push(st.status.len());
          st.status.push(Status::Runnable);
          cvs.push(Arc::new(Condvar::new()));
        }
      }
      let results: Vec<Mutex<Option<Result<(), Box<dyn Any + Send>>>>> =
        bodies.iter().map(|_| Mutex::new(None)).collect();
      let mut aborted = false;
      std::thread::scope(|scope| {
        for (k, body) in bodies.into_iter().enumerate() {
          let ex2 = ex.clone();
          let id = ids[k];
          let slot = &results[k];
          std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(scope, move || {
              CUR.with(|c| *c.borrow_mut() = Some((ex2.clone(), id)));
              let st = ex2.wait_for_turn(ex2.state.lock().unwrap(), id);
              let abort = st.abort;
              drop(st);
              let r = if abort {
                Err(Box::new(AbortExecution) as Box<dyn Any + Send>)
              } else {
                panic::catch_unwind(AssertUnwindSafe(body))
              };
              *slot.lock().unwrap() = Some(r);
              finish(&ex2, id);
              CUR.with(|c| *c.borrow_mut() = None);
            })
            .expect("spawning a controlled thread");
        }
        for id in &ids {
          loop {
            let st = ex.state.lock().unwrap();
            if st.status[*id] == Status::Done || st.abort {
              break;
            }
            drop(st);
            let r = panic::catch_unwind(AssertUnwindSafe(|| block_on(join_resource(*id))));
            if r.is_err() {
              aborted = true;
              break;
            }
          }
        }
        if ex.state.lock().unwrap().abort {
          aborted = true;
          ex.wake_all();
        }
      });
      if aborted {
        panic::resume_unwind(Box::new(AbortExecution));
      }
      results
        .into_iter()
        .map(|m| m.into_inner().unwrap().unwrap())
        .collect()
    },
  }
}

/// What one execution did
pub struct Execution<R> {
  /// the decisions taken
  pub decisions: Vec<Decision>,
  /// scheduling steps
  pub steps: u64,
  /// observation log
  pub log: Vec<String>,
  /// result of the body: value, or panic message
  pub result: Result<R, String>,
  /// deadlock or exceeded horizon
  pub deadlock: Option<String>,
}

static EVERY_DELAY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// count every departure from the first runnable thread as a deviation, also where the running one cannot
/// continue (delay bounding); by default those are free (preemption bounding)
pub fn count_every_delay(on: bool) { EVERY_DELAY.store(on, std::sync::atomic::Ordering::SeqCst) }

impl<R> Execution<R> {
  /// the decision sequence, replayable as a prefix
  pub fn schedule(&self) -> Vec<u32> { self.decisions.iter().map(|d| d.taken).collect() }
  /// number of deviations
  pub fn deviations(&self) -> u32 {
    self.decisions.iter().map(|d| if d.taken != 0 { d.cost } else { 0 }).sum()
  }
}

/// human-readable panic payload
pub fn panic_message(p: &(dyn Any + Send)) -> String {
  if let Some(s) = p.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = p.downcast_ref::<String>() {
    s.clone()
  } else {
    "non-string panic payload".to_string()
  }
}

/// Run one execution along `prefix`.
pub fn run_once<R: Send>(
  prefix: &[u32],
  max_steps: u64,
  body: impl FnOnce() -> R + Send,
) -> Execution<R> {
  let ex = Arc::new(Exec {
    state: Mutex::new(State {
      status: vec![Status::Runnable],
      current: 0,
      prefix: prefix.to_vec(),
      decisions: Vec::new(),
      steps: 0,
      max_steps,
      log: Vec::new(),
      deadlock: None,
      abort: false,
      diverged: None,
    }),
    cvs: Mutex::new(vec![Arc::new(Condvar::new())]),
  });
  let ex2 = ex.clone();
  let mut out: Option<Result<R, Box<dyn Any + Send>>> = None;
  CUR.with(|c| {
    assert!(c.borrow().is_none(), "nested executions are not supported");
    *c.borrow_mut() = Some((ex2.clone(), 0));
  });
  let r = panic::catch_unwind(AssertUnwindSafe(body));
  CUR.with(|c| *c.borrow_mut() = None);
  out.replace(r);
  let mut st = ex.state.lock().unwrap();
  if let Some(d) = &st.diverged {
    panic!("mcsched engine error: {d}");
  }
  if st.decisions.len() < prefix.len() && st.deadlock.is_none() {
    let d = format!(
      "replay divergence: execution ended after {} of {} prescribed decisions",
      st.decisions.len(),
      prefix.len()
    );
    drop(st);
    panic!("mcsched engine error: {d}");
  }
  Execution {
    decisions: std::mem::take(&mut st.decisions),
    steps: st.steps,
    log: std::mem::take(&mut st.log),
    deadlock: st.deadlock.take(),
    result: out.unwrap().map_err(|p| panic_message(&*p)),
  }
}

/// Totals of an exploration
#[derive(Default, Debug, Clone)]
pub struct Stats {
  /// complete executions
  pub executions: u64,
  /// scheduling steps over all executions
  pub steps: u64,
  /// decision-tree nodes (distinct decision prefixes) visited
  pub nodes: u64,
  /// longest decision sequence
  pub max_decisions: u64,
  /// a cap was hit, with what was completed below it
  pub capped: bool,
}

/// Enumerate every execution with at most `bound` deviations. `check` sees every execution and
/// returns false to stop. `shard = (i, n)`: explore only every n-th subtree of the root.
pub fn explore<R: Send>(
  bound: u32,
  max_steps: u64,
  max_executions: u64,
  shard: (u64, u64),
  body: impl Fn() -> R + Sync,
  mut check: impl FnMut(&Execution<R>) -> bool,
) -> Stats
where
{
  let mut stats = Stats::default();
  let mut seen_roots = 0u64;
  let mut stack: Vec<Vec<u32>> = vec![Vec::new()];
  let mut dedup: HashSet<Vec<u32>> = HashSet::new();
  let mut first = true;
  while let Some(prefix) = stack.pop() {
    if stats.executions >= max_executions {
      stats.capped = true;
      break;
    }
    let x = run_once(&prefix, max_steps, &body);
    let is_root = first;
    first = false;
    if !is_root || shard.0 == 0 {
      stats.executions += 1;
      stats.steps += x.steps;
      stats.nodes += (x.decisions.len() - prefix.len()) as u64 + 1;
      stats.max_decisions = stats.max_decisions.max(x.decisions.len() as u64);
      if !check(&x) {
        return stats;
      }
    }
    if x.deadlock.is_some() {
      continue;
    }
    let mut cost = 0;
    let mut children = Vec::new();
    for (i, d) in x.decisions.iter().enumerate() {
      if i >= prefix.len() && cost + d.cost <= bound {
        for alt in 1..d.n {
          let mut p: Vec<u32> = x.decisions[..i].iter().map(|d| d.taken).collect();
          p.push(alt);
          children.push(p);
        }
      }
      if d.taken != 0 {
        cost += d.cost;
      }
    }
    for c in children.into_iter().rev() {
      if is_root {
        seen_roots += 1;
        if seen_roots % shard.1 != shard.0 {
          continue;
        }
      }
      debug_assert!(dedup.insert(c.clone()), "explorer visited a prefix twice");
      stack.push(c);
    }
  }
  stats
}
