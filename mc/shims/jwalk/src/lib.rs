//! Controlled stand-in for jwalk 0.4: walks the real directory tree, depth first; the order in
//! which the entries of a directory are delivered is an environment choice.
use std::ffi::OsString;
use std::fs;
use std::io;
use std::path::{Path, PathBuf};

pub type Error = io::Error;

#[derive(Debug)]
pub struct DirEntry {
  pub depth: usize,
  pub file_name: OsString,
  pub file_type: Result<fs::FileType, Error>,
  pub parent_path: PathBuf,
  full: PathBuf,
}
impl DirEntry {
  pub fn path(&self) -> PathBuf { self.full.clone() }
  pub fn file_name(&self) -> &std::ffi::OsStr { &self.file_name }
  pub fn depth(&self) -> usize { self.depth }
  pub fn file_type(&self) -> fs::FileType { self.file_type.as_ref().ok().copied().unwrap() }
}

#[derive(Debug)]
pub struct WalkDir {
  root: PathBuf,
  skip_hidden: bool,
  sort: bool,
  max_depth: usize,
  follow_links: bool,
}
impl WalkDir {
  pub fn new<P: AsRef<Path>>(root: P) -> Self {
    WalkDir { root: root.as_ref().to_path_buf(), skip_hidden: true, sort: false, max_depth: usize::MAX, follow_links: false }
  }
  pub fn num_threads(self, _n: usize) -> Self { self }
  pub fn skip_hidden(mut self, s: bool) -> Self {
    self.skip_hidden = s;
    self
  }
  pub fn sort(mut self, s: bool) -> Self {
    self.sort = s;
    self
  }
  pub fn preload_metadata(self, _b: bool) -> Self { self }
  pub fn max_depth(mut self, d: usize) -> Self {
    self.max_depth = d;
    self
  }
  pub fn follow_links(mut self, b: bool) -> Self {
    self.follow_links = b;
    self
  }
}

pub struct DirEntryIter {
  stack: Vec<Vec<(usize, PathBuf)>>,
  root_done: bool,
  opts: WalkDir,
}
impl IntoIterator for WalkDir {
  type Item = Result<DirEntry, Error>;
  type IntoIter = DirEntryIter;
  fn into_iter(self) -> DirEntryIter { DirEntryIter { stack: vec![], root_done: false, opts: self } }
}

impl DirEntryIter {
  fn children(&self, dir: &Path, depth: usize) -> Vec<(usize, PathBuf)> {
    let mut v: Vec<PathBuf> = match fs::read_dir(dir) {
      Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
      Err(_) => Vec::new(),
    };
    v.sort();
    if self.opts.skip_hidden {
      v.retain(|p| {
        !p.file_name().map(|n| n.to_string_lossy().starts_with('.')).unwrap_or(false)
      });
    }
    if self.opts.sort {
      return v.into_iter().rev().map(|p| (depth, p)).collect();
    }
    // the environment picks the delivery order
    let mut out = Vec::new();
    while !v.is_empty() {
      let k = mcsched::choose("readdir", v.len(), 1);
      out.push((depth, v.remove(k)));
    }
    out.reverse(); // popped from the back
    out
  }
  fn meta(&self, p: &Path) -> io::Result<fs::Metadata> {
    if self.opts.follow_links {
      fs::metadata(p)
    } else {
      fs::symlink_metadata(p)
    }
  }
  fn entry(&self, depth: usize, p: PathBuf) -> DirEntry {
    DirEntry {
      depth,
      file_name: p.file_name().map(|s| s.to_os_string()).unwrap_or_else(|| p.clone().into_os_string()),
      file_type: self.meta(&p).map(|m| m.file_type()),
      parent_path: p.parent().map(|x| x.to_path_buf()).unwrap_or_default(),
      full: p,
    }
  }
}
impl Iterator for DirEntryIter {
  type Item = Result<DirEntry, Error>;
  fn next(&mut self) -> Option<Self::Item> {
    if !self.root_done {
      self.root_done = true;
      let p = self.opts.root.clone();
      return match fs::symlink_metadata(&p) {
        Err(e) => Some(Err(e)),
        Ok(m) => {
          if self.opts.max_depth > 0 && fs::metadata(&p).map(|m| m.is_dir()).unwrap_or(m.is_dir()) {
            let c = self.children(&p, 1);
            self.stack.push(c);
          }
          Some(Ok(self.entry(0, p)))
        },
      };
    }
    loop {
      let top = self.stack.last_mut()?;
      match top.pop() {
        None => {
          self.stack.pop();
        },
        Some((depth, p)) => {
          if depth < self.opts.max_depth && self.meta(&p).map(|m| m.is_dir()).unwrap_or(false) {
            let c = self.children(&p, depth + 1);
            self.stack.push(c);
          }
          return Some(Ok(self.entry(depth, p)));
        },
      }
    }
  }
}
