//! Stands in for `std` in the extern prelude of the crate under test: everything is re-exported
//! unchanged, except for the sources of nondeterminism and faults the model checker has to own.
pub use ::std::*;

pub mod sync {
  //! std::sync with scheduling points
  pub use ::std::sync::*;
  use ::std::ops::{Deref, DerefMut};
  use ::std::sync as s;

  fn addr<T: ?Sized>(x: &T) -> usize { x as *const T as *const u8 as usize }

  /// std::sync::Mutex, with a scheduling point before acquisition and blocking visible to the
  /// scheduler
  #[derive(Debug, Default)]
  pub struct Mutex<T: ?Sized> {
    inner: s::Mutex<T>,
  }
  #[derive(Debug)]
  pub struct MutexGuard<'a, T: ?Sized> {
    guard: Option<s::MutexGuard<'a, T>>,
    lock: &'a Mutex<T>,
  }
  impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex { inner: s::Mutex::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
  }
  impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, g: s::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
      MutexGuard { guard: Some(g), lock: self }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
      mcsched::point("mutex.lock");
      loop {
        match self.inner.try_lock() {
          Ok(g) => return Ok(self.wrap(g)),
          Err(s::TryLockError::Poisoned(p)) => {
            return Err(PoisonError::new(self.wrap(p.into_inner())))
          },
          Err(s::TryLockError::WouldBlock) => {
            if !mcsched::block_on(addr(&self.inner)) {
              return match self.inner.lock() {
                Ok(g) => Ok(self.wrap(g)),
                Err(p) => Err(PoisonError::new(self.wrap(p.into_inner()))),
              };
            }
          },
        }
      }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
      mcsched::point("mutex.try_lock");
      match self.inner.try_lock() {
        Ok(g) => Ok(self.wrap(g)),
        Err(s::TryLockError::WouldBlock) => Err(s::TryLockError::WouldBlock),
        Err(s::TryLockError::Poisoned(p)) => Err(s::TryLockError::Poisoned(PoisonError::new(
          self.wrap(p.into_inner()),
        ))),
      }
    }
    pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
    pub fn clear_poison(&self) { self.inner.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
  }
  impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self { Mutex::new(t) }
  }
  impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T { self.guard.as_ref().unwrap() }
  }
  impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T { self.guard.as_mut().unwrap() }
  }
  impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
      drop(self.guard.take());
      mcsched::wake(addr(&self.lock.inner));
      mcsched::point("mutex.unlock");
    }
  }

  /// std::sync::RwLock under the scheduler
  #[derive(Debug, Default)]
  pub struct RwLock<T: ?Sized> {
    inner: s::RwLock<T>,
  }
  pub struct RwLockReadGuard<'a, T: ?Sized> {
    guard: Option<s::RwLockReadGuard<'a, T>>,
    lock: &'a RwLock<T>,
  }
  pub struct RwLockWriteGuard<'a, T: ?Sized> {
    guard: Option<s::RwLockWriteGuard<'a, T>>,
    lock: &'a RwLock<T>,
  }
  impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self { RwLock { inner: s::RwLock::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
  }
  impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
      mcsched::point("rwlock.read");
      loop {
        match self.inner.try_read() {
          Ok(g) => return Ok(RwLockReadGuard { guard: Some(g), lock: self }),
          Err(s::TryLockError::Poisoned(p)) => {
            return Err(PoisonError::new(RwLockReadGuard {
              guard: Some(p.into_inner()),
              lock: self,
            }))
          },
          Err(s::TryLockError::WouldBlock) => {
            if !mcsched::block_on(addr(&self.inner)) {
              return match self.inner.read() {
                Ok(g) => Ok(RwLockReadGuard { guard: Some(g), lock: self }),
                Err(p) => Err(PoisonError::new(RwLockReadGuard {
                  guard: Some(p.into_inner()),
                  lock: self,
                })),
              };
            }
          },
        }
      }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
      mcsched::point("rwlock.write");
      loop {
        match self.inner.try_write() {
          Ok(g) => return Ok(RwLockWriteGuard { guard: Some(g), lock: self }),
          Err(s::TryLockError::Poisoned(p)) => {
            return Err(PoisonError::new(RwLockWriteGuard {
              guard: Some(p.into_inner()),
              lock: self,
            }))
          },
          Err(s::TryLockError::WouldBlock) => {
            if !mcsched::block_on(addr(&self.inner)) {
              return match self.inner.write() {
                Ok(g) => Ok(RwLockWriteGuard { guard: Some(g), lock: self }),
                Err(p) => Err(PoisonError::new(RwLockWriteGuard {
                  guard: Some(p.into_inner()),
                  lock: self,
                })),
              };
            }
          },
        }
      }
    }
  }
  impl<T: ?Sized> RwLock<T> {
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
      mcsched::point("rwlock.try_read");
      match self.inner.try_read() {
        Ok(g) => Ok(RwLockReadGuard { guard: Some(g), lock: self }),
        Err(s::TryLockError::WouldBlock) => Err(s::TryLockError::WouldBlock),
        Err(s::TryLockError::Poisoned(p)) => {
          Err(s::TryLockError::Poisoned(PoisonError::new(RwLockReadGuard { guard: Some(p.into_inner()), lock: self })))
        },
      }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
      mcsched::point("rwlock.try_write");
      match self.inner.try_write() {
        Ok(g) => Ok(RwLockWriteGuard { guard: Some(g), lock: self }),
        Err(s::TryLockError::WouldBlock) => Err(s::TryLockError::WouldBlock),
        Err(s::TryLockError::Poisoned(p)) => {
          Err(s::TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard { guard: Some(p.into_inner()), lock: self })))
        },
      }
    }
    pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
    pub fn clear_poison(&self) { self.inner.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
  }
  impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self { RwLock::new(t) }
  }
  impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { (**self).fmt(f) }
  }
  impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { (**self).fmt(f) }
  }

  /// std::sync::Condvar under the scheduler; wakes up nobody unasked
  #[derive(Debug, Default)]
  pub struct Condvar {
    inner: s::Condvar,
    rounds: a::AtomicUsize,
  }
  use ::std::sync::atomic as a;
  impl Condvar {
    pub const fn new() -> Self { Condvar { inner: s::Condvar::new(), rounds: a::AtomicUsize::new(0) } }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
      let lock = g.lock;
      if !mcsched::active() {
        let inner = g.guard.take().unwrap();
        ::std::mem::forget(g);
        return match self.inner.wait(inner) {
          Ok(x) => Ok(lock.wrap(x)),
          Err(p) => Err(PoisonError::new(lock.wrap(p.into_inner()))),
        };
      }
      let seen = self.rounds.load(a::Ordering::SeqCst);
      // let go without a scheduling point, so that no notification comes in between
      drop(g.guard.take());
      ::std::mem::forget(g);
      mcsched::wake(addr(&lock.inner));
      while self.rounds.load(a::Ordering::SeqCst) == seen {
        mcsched::block_on(addr(&self.inner));
      }
      lock.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
      while f(&mut *g) {
        g = self.wait(g)?;
      }
      Ok(g)
    }
    pub fn notify_one(&self) { self.notify_all() }
    pub fn notify_all(&self) {
      self.rounds.fetch_add(1, a::Ordering::SeqCst);
      self.inner.notify_all();
      mcsched::wake(addr(&self.inner));
      mcsched::point("condvar.notify");
    }
  }

  impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T { self.guard.as_ref().unwrap() }
  }
  impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T { self.guard.as_ref().unwrap() }
  }
  impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T { self.guard.as_mut().unwrap() }
  }
  impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
      drop(self.guard.take());
      mcsched::wake(addr(&self.lock.inner));
      mcsched::point("rwlock.unlock");
    }
  }
  impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
      drop(self.guard.take());
      mcsched::wake(addr(&self.lock.inner));
      mcsched::point("rwlock.unlock");
    }
  }

  pub mod atomic {
    //! std::sync::atomic, sequentially consistent, with a scheduling point before every access
    pub use ::std::sync::atomic::*;
    use ::std::sync::atomic as a;
    macro_rules! atomic_common {
      ($name:ident, $t:ty) => {
        #[derive(Debug, Default)]
        pub struct $name(a::$name);
        impl $name {
          pub const fn new(v: $t) -> Self { $name(a::$name::new(v)) }
          pub fn load(&self, o: Ordering) -> $t {
            mcsched::point("atomic.load");
            self.0.load(o)
          }
          pub fn store(&self, v: $t, o: Ordering) {
            mcsched::point("atomic.store");
            self.0.store(v, o)
          }
          pub fn swap(&self, v: $t, o: Ordering) -> $t {
            mcsched::point("atomic.swap");
            self.0.swap(v, o)
          }
          pub fn compare_exchange(
            &self,
            c: $t,
            n: $t,
            s: Ordering,
            f: Ordering,
          ) -> Result<$t, $t> {
            mcsched::point("atomic.cas");
            self.0.compare_exchange(c, n, s, f)
          }
          pub fn compare_exchange_weak(
            &self,
            c: $t,
            n: $t,
            s: Ordering,
            f: Ordering,
          ) -> Result<$t, $t> {
            mcsched::point("atomic.cas");
            self.0.compare_exchange(c, n, s, f)
          }
          pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
            &self,
            s: Ordering,
            l: Ordering,
            f: F,
          ) -> Result<$t, $t> {
            mcsched::point("atomic.update");
            self.0.fetch_update(s, l, f)
          }
          pub fn into_inner(self) -> $t { self.0.into_inner() }
          pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
        }
      };
    }
    macro_rules! atomic_int {
      ($name:ident, $t:ty) => {
        atomic_common!($name, $t);
        impl $name {
          pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
            mcsched::point("atomic.add");
            self.0.fetch_add(v, o)
          }
          pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
            mcsched::point("atomic.sub");
            self.0.fetch_sub(v, o)
          }
          pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
            mcsched::point("atomic.and");
            self.0.fetch_and(v, o)
          }
          pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
            mcsched::point("atomic.or");
            self.0.fetch_or(v, o)
          }
          pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
            mcsched::point("atomic.xor");
            self.0.fetch_xor(v, o)
          }
          pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
            mcsched::point("atomic.max");
            self.0.fetch_max(v, o)
          }
          pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
            mcsched::point("atomic.min");
            self.0.fetch_min(v, o)
          }
        }
      };
    }
    atomic_int!(AtomicUsize, usize);
    atomic_int!(AtomicIsize, isize);
    atomic_int!(AtomicU64, u64);
    atomic_int!(AtomicI64, i64);
    atomic_int!(AtomicU32, u32);
    atomic_int!(AtomicI32, i32);
    atomic_int!(AtomicU16, u16);
    atomic_int!(AtomicU8, u8);
    atomic_common!(AtomicBool, bool);
    impl AtomicBool {
      pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        mcsched::point("atomic.or");
        self.0.fetch_or(v, o)
      }
      pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        mcsched::point("atomic.xor");
        self.0.fetch_xor(v, o)
      }
      pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        mcsched::point("atomic.and");
        self.0.fetch_and(v, o)
      }
    }
  }
}

pub mod fs {
  //! std::fs with a fault-injecting, write-logging `File`
  pub use ::std::fs::*;
  use ::std::io::{self, Read, Seek, SeekFrom, Write};
  use ::std::path::Path;

  /// std::fs::File; inside an execution every write asks the explorer for the environment's answer
  #[derive(Debug)]
  pub struct File(pub ::std::fs::File);

  impl File {
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
      mcsched::point("file.create");
      if crate::mcfault::ask("create", crate::mcfault::CREATE) == 1 {
        return Err(io::Error::from(io::ErrorKind::PermissionDenied));
      }
      ::std::fs::File::create(p).map(File)
    }
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> { ::std::fs::File::open(p).map(File) }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> {
      OpenOptions::new().read(true).write(true).create_new(true).open(p)
    }
    pub fn options() -> OpenOptions { OpenOptions::new() }
    pub fn try_clone(&self) -> io::Result<File> { self.0.try_clone().map(File) }
    pub fn set_permissions(&self, p: Permissions) -> io::Result<()> { self.0.set_permissions(p) }
    pub fn sync_all(&self) -> io::Result<()> { self.0.sync_all() }
    pub fn sync_data(&self) -> io::Result<()> { self.0.sync_data() }
    pub fn set_len(&self, n: u64) -> io::Result<()> { self.0.set_len(n) }
    pub fn metadata(&self) -> io::Result<Metadata> { self.0.metadata() }
  }
  impl Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
      mcsched::point("file.write");
      match crate::mcfault::ask("write", crate::mcfault::WRITE) {
        0 => self.0.write(buf),
        1 => self.0.write(&buf[..(buf.len() / 2).max(1).min(buf.len())]),
        2 => Err(io::Error::from(io::ErrorKind::Interrupted)),
        3 => {
          crate::mcfault::note_hard_failure();
          Err(io::Error::from(io::ErrorKind::StorageFull))
        },
        _ => Ok(0),
      }
    }
    fn flush(&mut self) -> io::Result<()> { self.0.flush() }
  }
  impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { self.0.read(buf) }
  }
  impl Seek for File {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) }
  }
  impl Write for &File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { File(self.0.try_clone()?).write(buf) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
  }
  impl Read for &File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { (&self.0).read(buf) }
  }

  /// std::fs::OpenOptions, giving this module's [`File`]
  #[derive(Debug, Clone)]
  pub struct OpenOptions {
    o: ::std::fs::OpenOptions,
    makes: bool,
  }
  macro_rules! options {
    ($($n:ident)*) => { $(pub fn $n(&mut self, b: bool) -> &mut Self { self.o.$n(b); self })* };
  }
  impl OpenOptions {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self { OpenOptions { o: ::std::fs::OpenOptions::new(), makes: false } }
    options! { read append truncate }
    pub fn write(&mut self, b: bool) -> &mut Self {
      self.o.write(b);
      self
    }
    pub fn create(&mut self, b: bool) -> &mut Self {
      self.o.create(b);
      self.makes |= b;
      self
    }
    pub fn create_new(&mut self, b: bool) -> &mut Self {
      self.o.create_new(b);
      self.makes |= b;
      self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
      if self.makes {
        mcsched::point("file.create");
        if crate::mcfault::ask("create", crate::mcfault::CREATE) == 1 {
          return Err(io::Error::from(io::ErrorKind::PermissionDenied));
        }
      }
      self.o.open(p).map(File)
    }
  }
  /// std::fs::write, with the faults of [`File`]
  pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> { File::create(p)?.write_all(c.as_ref()) }
}

pub mod io {
  //! std::io with a `BufWriter` whose capacity the harness may clamp
  pub use ::std::io::*;
  use ::std::io as i;

  /// std::io::BufWriter
  #[derive(Debug)]
  pub struct BufWriter<W: i::Write>(pub i::BufWriter<W>);
  impl<W: i::Write> BufWriter<W> {
    pub fn new(w: W) -> Self { BufWriter::with_capacity(8192, w) }
    pub fn with_capacity(c: usize, w: W) -> Self {
      BufWriter(i::BufWriter::with_capacity(crate::mcfault::clamp(c), w))
    }
    pub fn get_ref(&self) -> &W { self.0.get_ref() }
    pub fn get_mut(&mut self) -> &mut W { self.0.get_mut() }
    pub fn buffer(&self) -> &[u8] { self.0.buffer() }
    pub fn capacity(&self) -> usize { self.0.capacity() }
    pub fn into_inner(self) -> ::std::result::Result<W, i::IntoInnerError<i::BufWriter<W>>> {
      self.0.into_inner()
    }
  }
  impl<W: i::Write> i::Write for BufWriter<W> {
    fn write(&mut self, b: &[u8]) -> i::Result<usize> { self.0.write(b) }
    fn write_all(&mut self, b: &[u8]) -> i::Result<()> { self.0.write_all(b) }
    fn flush(&mut self) -> i::Result<()> { self.0.flush() }
  }
}

pub mod env {
  //! std::env, with the arguments the harness gives to a program
  pub use ::std::env::*;
  use ::std::sync::Mutex;
  static ARGS: Mutex<Option<Vec<String>>> = Mutex::new(None);
  /// what [`args`] gives from now on, program name included
  pub fn mc_set_args(a: Vec<String>) { *ARGS.lock().unwrap() = Some(a); }
  pub fn args() -> ::std::vec::IntoIter<String> {
    ARGS.lock().unwrap().clone().unwrap_or_else(|| ::std::env::args().collect()).into_iter()
  }
}

pub mod mcfault {
  //! Which environment faults the explorer may choose, set per scenario by the harness
  use ::std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};
  pub const CREATE: u32 = 1;
  pub const WRITE: u32 = 2;
  static ENABLED: AtomicU32 = AtomicU32::new(0);
  static CAPACITY: AtomicUsize = AtomicUsize::new(usize::MAX);
  static HARD: AtomicU32 = AtomicU32::new(0);
  /// number of writes the environment refused for good in this execution
  pub fn hard_failures() -> u32 { HARD.load(SeqCst) }
  pub fn reset() { HARD.store(0, SeqCst) }
  pub(crate) fn note_hard_failure() { HARD.fetch_add(1, SeqCst); }
  pub fn set(mask: u32, capacity: usize) {
    ENABLED.store(mask, SeqCst);
    CAPACITY.store(capacity, SeqCst);
  }
  pub(crate) fn clamp(c: usize) -> usize { c.min(CAPACITY.load(SeqCst)) }
  pub(crate) fn ask(kind: &'static str, what: u32) -> usize {
    if ENABLED.load(SeqCst) & what == 0 {
      return 0;
    }
    match what {
      CREATE => mcsched::choose(kind, 2, 1),
      _ => mcsched::choose(kind, 4, 1),
    }
  }
}
