//! Controlled stand-in for the part of rayon that llamapun (or a small rewrite of it) uses.
//!
//! Every parallel pipeline is a *source* from which W controlled workers pull items under a lock,
//! a chain of per-item stages, and a terminal operation with one accumulator per worker ("leaf").
//! Which worker gets which item, and how the stages of different workers interleave, is decided by
//! the explorer; so is the association in which leaf accumulators are combined. This covers every
//! work split rayon's `par_bridge` can produce with W threads.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

static WORKERS: AtomicUsize = AtomicUsize::new(2);
/// harness side: number of workers
pub fn set_workers(n: usize) { WORKERS.store(n, Ordering::SeqCst) }
/// number of workers
pub fn current_num_threads() -> usize { WORKERS.load(Ordering::SeqCst) }
/// index of the worker
pub fn current_thread_index() -> Option<usize> { mcsched::thread_id().checked_sub(1) }

/// run two closures, in either interleaving
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
  A: FnOnce() -> RA + Send,
  B: FnOnce() -> RB + Send,
  RA: Send,
  RB: Send,
{
  let (ra, rb) = (Mutex::new(None), Mutex::new(None));
  {
    let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = vec![
      Box::new(|| {
        let v = a();
        *ra.lock().unwrap() = Some(v)
      }),
      Box::new(|| {
        let v = b();
        *rb.lock().unwrap() = Some(v)
      }),
    ];
    for r in mcsched::run_threads(bodies) {
      if let Err(p) = r {
        std::panic::resume_unwind(p)
      }
    }
  }
  (ra.into_inner().unwrap().unwrap(), rb.into_inner().unwrap().unwrap())
}

type Sink<'a, T> = &'a (dyn Fn(usize, (usize, T)) + Sync + 'a);

/// the pulling source
fn drive_source<I>(iter: I, sink: Sink<'_, I::Item>)
where
  I: Iterator + Send,
  I::Item: Send,
{
  // (iterator, next index, a worker is inside the iterator)
  let src = Mutex::new((iter, 0usize));
  let token = 0u8;
  let addr = &token as *const u8 as usize;
  let busy = Mutex::new(false);
  let n = current_num_threads().max(1);
  let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = Vec::new();
  for w in 0..n {
    let (src, busy) = (&src, &busy);
    bodies.push(Box::new(move || loop {
      mcsched::point("bridge.pull");
      // visible lock around the shared iterator
      loop {
        let mut b = busy.lock().unwrap();
        if !*b {
          *b = true;
          break;
        }
        drop(b);
        if !mcsched::block_on(addr) {
          unreachable!("sequential execution cannot contend");
        }
      }
      struct Release<'a>(&'a Mutex<bool>, usize);
      impl Drop for Release<'_> {
        fn drop(&mut self) {
          *self.0.lock().unwrap() = false;
          mcsched::wake(self.1);
        }
      }
      let item = {
        let _release = Release(busy, addr);
        let mut s = src.lock().unwrap_or_else(|p| p.into_inner());
        match s.0.next() {
          None => None,
          Some(x) => {
            let i = s.1;
            s.1 += 1;
            Some((i, x))
          },
        }
      };
      match item {
        None => break,
        Some(ix) => {
          mcsched::log(format!("pull#{}", ix.0));
          mcsched::point("bridge.item");
          sink(w, ix);
        },
      }
    }));
  }
  let mut panics = Vec::new();
  for r in mcsched::run_threads(bodies) {
    if let Err(p) = r {
      panics.push(p);
    }
  }
  if let Some(p) = panics.into_iter().next() {
    std::panic::resume_unwind(p)
  }
}

pub mod iter {
  pub use super::{
    FromParallelIterator, IndexedParallelIterator, IntoParallelIterator,
    IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelIterator, ParallelSlice,
  };
}
pub mod prelude {
  pub use super::iter::*;
}

/// the parallel iterator interface
pub trait ParallelIterator: Sized + Send {
  type Item: Send;
  /// feed every item to the sink, from the workers
  fn drive(self, sink: Sink<'_, Self::Item>);

  fn map<F, R>(self, f: F) -> Map<Self, F>
  where
    F: Fn(Self::Item) -> R + Sync + Send,
    R: Send,
  {
    Map(self, f)
  }
  fn map_with<F, T, R>(self, init: T, f: F) -> Vec<R>
  where
    F: Fn(&mut T, Self::Item) -> R + Sync + Send,
    T: Send + Clone + Sync,
    R: Send,
  {
    let acc: Mutex<Vec<(usize, R)>> = Mutex::new(Vec::new());
    let states: Vec<Mutex<T>> =
      (0..current_num_threads().max(1)).map(|_| Mutex::new(init.clone())).collect();
    self.drive(&|w, (i, x)| {
      let r = f(&mut states[w].lock().unwrap(), x);
      acc.lock().unwrap().push((i, r))
    });
    acc.into_inner().unwrap().into_iter().map(|x| x.1).collect()
  }
  fn filter<F>(self, f: F) -> Filter<Self, F>
  where F: Fn(&Self::Item) -> bool + Sync + Send {
    Filter(self, f)
  }
  fn filter_map<F, R>(self, f: F) -> FilterMap<Self, F>
  where
    F: Fn(Self::Item) -> Option<R> + Sync + Send,
    R: Send,
  {
    FilterMap(self, f)
  }
  fn flat_map<F, R>(self, f: F) -> FlatMapIter<Self, F>
  where
    F: Fn(Self::Item) -> R + Sync + Send,
    R: IntoIterator,
    R::Item: Send,
  {
    FlatMapIter(self, f)
  }
  fn flat_map_iter<F, R>(self, f: F) -> FlatMapIter<Self, F>
  where
    F: Fn(Self::Item) -> R + Sync + Send,
    R: IntoIterator,
    R::Item: Send,
  {
    FlatMapIter(self, f)
  }
  fn inspect<F>(self, f: F) -> Inspect<Self, F>
  where F: Fn(&Self::Item) + Sync + Send {
    Inspect(self, f)
  }
  fn for_each<F>(self, f: F)
  where F: Fn(Self::Item) + Sync + Send {
    self.drive(&|_, (_, x)| f(x))
  }
  fn fold<T, ID, F>(self, identity: ID, f: F) -> Ready<T>
  where
    ID: Fn() -> T + Sync + Send,
    F: Fn(T, Self::Item) -> T + Sync + Send,
    T: Send,
  {
    Ready(leaves(self, identity, f))
  }
  fn reduce<ID, OP>(self, identity: ID, op: OP) -> Self::Item
  where
    ID: Fn() -> Self::Item + Sync + Send,
    OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send,
  {
    let parts = leaves(self, &identity, &op);
    combine(parts, &op).unwrap_or_else(identity)
  }
  fn reduce_with<OP>(self, op: OP) -> Option<Self::Item>
  where OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send {
    let parts = leaves(
      self,
      || None,
      |a: Option<Self::Item>, b| match a {
        None => Some(b),
        Some(a) => Some(op(a, b)),
      },
    );
    combine(parts.into_iter().flatten().collect(), &op)
  }
  fn sum<S>(self) -> S
  where S: Send + std::iter::Sum<Self::Item> + std::iter::Sum<S> {
    let all: Vec<Self::Item> = unordered(self);
    all.into_iter().sum()
  }
  fn count(self) -> usize { unordered(self).len() }
  fn any<P>(self, p: P) -> bool
  where P: Fn(Self::Item) -> bool + Sync + Send {
    unordered(self).into_iter().any(p)
  }
  fn all<P>(self, p: P) -> bool
  where P: Fn(Self::Item) -> bool + Sync + Send {
    unordered(self).into_iter().all(p)
  }
  fn collect<C>(self) -> C
  where C: FromParallelIterator<Self::Item> {
    C::from_par_iter(self)
  }
}

/// marker for compatibility
pub trait IndexedParallelIterator: ParallelIterator {
  fn enumerate(self) -> Ready<(usize, Self::Item)> {
    Ready(ordered(self).into_iter().enumerate().collect())
  }
}
impl<T: ParallelIterator> IndexedParallelIterator for T {}

fn leaves<P, T, ID, F>(p: P, identity: ID, f: F) -> Vec<T>
where
  P: ParallelIterator,
  ID: Fn() -> T + Sync,
  F: Fn(T, P::Item) -> T + Sync,
  T: Send,
{
  let n = current_num_threads().max(1);
  let accs: Vec<Mutex<Option<T>>> = (0..n).map(|_| Mutex::new(None)).collect();
  p.drive(&|w, (_, x)| {
    let acc = accs[w].lock().unwrap().take();
    let acc = acc.unwrap_or_else(&identity);
    let acc = f(acc, x);
    *accs[w].lock().unwrap() = Some(acc);
  });
  accs
    .into_iter()
    .map(|m| m.into_inner().unwrap().unwrap_or_else(&identity))
    .collect()
}

/// combine neighbouring parts, association chosen by the explorer
fn combine<T>(mut parts: Vec<T>, op: &(impl Fn(T, T) -> T + Sync)) -> Option<T> {
  while parts.len() > 1 {
    let k = mcsched::choose("combine", parts.len() - 1, 0);
    let b = parts.remove(k + 1);
    let a = parts.remove(k);
    parts.insert(k, op(a, b));
  }
  parts.pop()
}

fn unordered<P: ParallelIterator>(p: P) -> Vec<P::Item> {
  let acc = Mutex::new(Vec::new());
  p.drive(&|_, (_, x)| acc.lock().unwrap().push(x));
  acc.into_inner().unwrap()
}
fn ordered<P: ParallelIterator>(p: P) -> Vec<P::Item> {
  let acc = Mutex::new(Vec::new());
  p.drive(&|_, ix| acc.lock().unwrap().push(ix));
  let mut v = acc.into_inner().unwrap();
  v.sort_by_key(|x: &(usize, P::Item)| x.0);
  v.into_iter().map(|x| x.1).collect()
}

pub trait FromParallelIterator<T: Send>: Sized {
  fn from_par_iter<P: ParallelIterator<Item = T>>(p: P) -> Self;
}
impl<T: Send> FromParallelIterator<T> for Vec<T> {
  fn from_par_iter<P: ParallelIterator<Item = T>>(p: P) -> Self { ordered(p) }
}
impl<T: Send + Hash + Eq, S: BuildHasher + Default + Send> FromParallelIterator<T>
  for HashSet<T, S>
{
  fn from_par_iter<P: ParallelIterator<Item = T>>(p: P) -> Self {
    unordered(p).into_iter().collect()
  }
}
impl<K: Send + Hash + Eq, V: Send, S: BuildHasher + Default + Send> FromParallelIterator<(K, V)>
  for HashMap<K, V, S>
{
  fn from_par_iter<P: ParallelIterator<Item = (K, V)>>(p: P) -> Self {
    unordered(p).into_iter().collect()
  }
}
impl<K: Send + Ord, V: Send> FromParallelIterator<(K, V)> for BTreeMap<K, V> {
  fn from_par_iter<P: ParallelIterator<Item = (K, V)>>(p: P) -> Self {
    unordered(p).into_iter().collect()
  }
}
impl<K: Send + Ord> FromParallelIterator<K> for BTreeSet<K> {
  fn from_par_iter<P: ParallelIterator<Item = K>>(p: P) -> Self {
    unordered(p).into_iter().collect()
  }
}

pub struct Map<P, F>(P, F);
impl<P: ParallelIterator, F: Fn(P::Item) -> R + Sync + Send, R: Send> ParallelIterator
  for Map<P, F>
{
  type Item = R;
  fn drive(self, sink: Sink<'_, R>) {
    let f = self.1;
    self.0.drive(&|w, (i, x)| sink(w, (i, f(x))))
  }
}
pub struct Filter<P, F>(P, F);
impl<P: ParallelIterator, F: Fn(&P::Item) -> bool + Sync + Send> ParallelIterator for Filter<P, F> {
  type Item = P::Item;
  fn drive(self, sink: Sink<'_, P::Item>) {
    let f = self.1;
    self.0.drive(&|w, (i, x)| {
      if f(&x) {
        sink(w, (i, x))
      }
    })
  }
}
pub struct FilterMap<P, F>(P, F);
impl<P: ParallelIterator, F: Fn(P::Item) -> Option<R> + Sync + Send, R: Send> ParallelIterator
  for FilterMap<P, F>
{
  type Item = R;
  fn drive(self, sink: Sink<'_, R>) {
    let f = self.1;
    self.0.drive(&|w, (i, x)| {
      if let Some(r) = f(x) {
        sink(w, (i, r))
      }
    })
  }
}
pub struct FlatMapIter<P, F>(P, F);
impl<P: ParallelIterator, F: Fn(P::Item) -> R + Sync + Send, R: IntoIterator> ParallelIterator
  for FlatMapIter<P, F>
where R::Item: Send
{
  type Item = R::Item;
  fn drive(self, sink: Sink<'_, R::Item>) {
    let f = self.1;
    self.0.drive(&|w, (i, x)| {
      for y in f(x) {
        sink(w, (i, y))
      }
    })
  }
}
pub struct Inspect<P, F>(P, F);
impl<P: ParallelIterator, F: Fn(&P::Item) + Sync + Send> ParallelIterator for Inspect<P, F> {
  type Item = P::Item;
  fn drive(self, sink: Sink<'_, P::Item>) {
    let f = self.1;
    self.0.drive(&|w, (i, x)| {
      f(&x);
      sink(w, (i, x))
    })
  }
}
/// already computed items
pub struct Ready<T>(Vec<T>);
impl<T: Send> ParallelIterator for Ready<T> {
  type Item = T;
  fn drive(self, sink: Sink<'_, T>) { drive_source(self.0.into_iter(), sink) }
}
/// par_bridge
pub struct IterBridge<I>(I);
impl<I: Iterator + Send> ParallelIterator for IterBridge<I>
where I::Item: Send
{
  type Item = I::Item;
  fn drive(self, sink: Sink<'_, I::Item>) { drive_source(self.0, sink) }
}
pub trait ParallelBridge: Sized {
  fn par_bridge(self) -> IterBridge<Self>;
}
impl<I: Iterator + Send> ParallelBridge for I
where I::Item: Send
{
  fn par_bridge(self) -> IterBridge<I> { IterBridge(self) }
}
pub trait IntoParallelIterator {
  type Item: Send;
  fn into_par_iter(self) -> Ready<Self::Item>;
}
impl<T: Send> IntoParallelIterator for Vec<T> {
  type Item = T;
  fn into_par_iter(self) -> Ready<T> { Ready(self) }
}
impl IntoParallelIterator for std::ops::Range<usize> {
  type Item = usize;
  fn into_par_iter(self) -> Ready<usize> { Ready(self.collect()) }
}
pub trait IntoParallelRefIterator<'a> {
  type Item: Send + 'a;
  fn par_iter(&'a self) -> Ready<Self::Item>;
}
impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for [T] {
  type Item = &'a T;
  fn par_iter(&'a self) -> Ready<&'a T> { Ready(self.iter().collect()) }
}
impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for Vec<T> {
  type Item = &'a T;
  fn par_iter(&'a self) -> Ready<&'a T> { Ready(self.iter().collect()) }
}
pub trait IntoParallelRefMutIterator<'a> {
  type Item: Send + 'a;
  fn par_iter_mut(&'a mut self) -> Ready<Self::Item>;
}
impl<'a, T: Send + 'a> IntoParallelRefMutIterator<'a> for [T] {
  type Item = &'a mut T;
  fn par_iter_mut(&'a mut self) -> Ready<&'a mut T> { Ready(self.iter_mut().collect()) }
}
pub trait ParallelSlice<T: Sync> {
  fn par_chunks(&self, n: usize) -> Ready<&[T]>;
}
impl<T: Sync> ParallelSlice<T> for [T] {
  fn par_chunks(&self, n: usize) -> Ready<&[T]> { Ready(self.chunks(n).collect()) }
}
