//! C10 and C12: walking a corpus, in parallel and sequentially.
use libxml::parser::Parser;
use llamapun::{data, parallel_data};
use mccore::gen::{scalars, seqs};
use mccore::{ensure, same, Ctx, Prop, Verdict};
use std::collections::{BTreeMap, HashMap};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

pub const C12: Prop = Prop {
  id: "C12",
  run: run12,
  chunk: 4,
  assumptions: &["walkdir lists the directory tree, and libxml2's own verdict says what is parseable"],
  bounds: "all corpora of up to 3 (4 thorough) entries of a 27-entry menu (good, empty, malformed and binary documents under every suffix, dangling and good links, links to directories, directories with document names, hidden files and directories, nesting, unreadable files and directories, names that are not UTF-8) under 5 suffix settings, each iterated twice; missing roots, roots that are files, 19 ways of writing a root; corpora of up to 1025 (4097) documents, names that are nearly documents, up to 400 directories deep, names of up to 250 bytes, every character (quick: the first two planes and samples) in names of files and directories",
};
pub const C10: Prop = Prop {
  id: "C10",
  run: run10,
  chunk: 1,
  assumptions: &[
    "jwalk and rayon are stand-ins whose listing order, item assignment, interleaving and reduction tree are chosen by the explorer",
    "libxml2's own verdict says what is parseable",
  ],
  bounds: "all corpora of up to 2 (3 thorough) entries of the 27-entry menu of C12 (without unreadable ones) under 5 suffix settings with 1 worker in every listing order and with 2 workers up to 1 deviation; 9 larger corpora with 2 and 3 workers under all schedules up to 2 (3) deviations, one less for 3 workers on more than 4 entries; both report variants; 19 ways of writing a root; the larger, deeper and unusually named corpora of C12 with 1 to 3 workers as they come",
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
  File(&'static [u8]),
  Dir,
  /// a link to nowhere
  Dangling,
  /// a link to an existing document outside of the corpus
  Link,
  /// a link to an existing directory outside of the corpus
  LinkDir,
  /// readable only by its owner, who is not running the walk
  Locked,
  LockedDir,
}
use K::*;
const HTML: &[u8] = b"<html><body><p>one<br>two</p></body></html>";
const XHTML: &[u8] = b"<?xml version=\"1.0\"?><html xmlns=\"http://www.w3.org/1999/xhtml\"><Body><p>\xc3\xa9<br/></p></Body></html>";
const BROKEN: &[u8] = b"<html><p><b></p>";
const MENU: [(&[u8], K); 27] = [
  (b"a.html", File(HTML)),
  (b"b.xhtml", File(XHTML)),
  (b"c.html5", File(HTML)),
  (b"d.html.gz", File(HTML)),
  (b"empty.html", File(b"")),
  (b"empty.xhtml", File(b"")),
  (b"broken.html", File(BROKEN)),
  (b"broken.xhtml", File(BROKEN)),
  (b"binary.xhtml", File(b"\x00\x01\xff\xfe")),
  (b"x.xhtml", Dangling),
  (b"0.html", Dangling),
  (b"link.html", Link),
  (b"dir.html", Dir),
  (b"dir.xhtml/e.xhtml", File(XHTML)),
  (b"sub/f.html", File(HTML)),
  (b"sub/deep/f.html", File(XHTML)),
  (b"sub/zero.xhtml", File(b"")),
  (b".hidden.html", File(HTML)),
  (b".hide/g.html", File(HTML)),
  (b"\xff.html", File(HTML)),
  (b"s\xff/h.html", File(HTML)),
  (b"html", File(HTML)),
  (b"\xc3\xbc.xhtml", File(XHTML)),
  (b"dirlink", LinkDir),
  (b"sub/dirlink.html", LinkDir),
  (b"locked.html", Locked),
  (b"lockdir", LockedDir),
];
const SUFFIXES: [Option<&str>; 5] = [None, Some(".html"), Some(".html5"), Some("xhtml"), Some("")];

fn build(root: &Path, set: &[usize]) {
  let _ = std::fs::remove_dir_all(root);
  std::fs::create_dir_all(root).unwrap();
  for &i in set {
    let (name, kind) = MENU[i];
    let p = root.join(std::ffi::OsStr::from_bytes(name));
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    match kind {
      File(c) => std::fs::write(&p, c).unwrap(),
      Dir => std::fs::create_dir_all(&p).unwrap(),
      Dangling => {
        let _ = std::os::unix::fs::symlink("/nonexistent/x.html", &p);
      },
      Link => {
        let target = root.parent().unwrap().join("target");
        std::fs::write(&target, HTML).unwrap();
        let _ = std::os::unix::fs::symlink(&target, &p);
      },
      LinkDir => {
        let target = root.parent().unwrap().join("targets");
        std::fs::create_dir_all(target.join("more")).unwrap();
        std::fs::write(target.join("in.html"), HTML).unwrap();
        std::fs::write(target.join("more/in.xhtml"), XHTML).unwrap();
        let _ = std::os::unix::fs::symlink(&target, &p);
      },
      Locked => {
        std::fs::write(&p, HTML).unwrap();
        mode(&p, 0);
      },
      LockedDir => {
        std::fs::create_dir_all(&p).unwrap();
        std::fs::write(p.join("in.html"), HTML).unwrap();
        mode(&p, 0);
      },
    }
  }
}
/// larger corpora, deeper ones, and ones with unusual names: (what, files); no two files of a name
fn wide(quick: bool) -> Vec<(String, Vec<(PathBuf, &'static [u8])>)> {
  let mut out: Vec<(String, Vec<(PathBuf, &'static [u8])>)> = Vec::new();
  let doc = |i: usize| match i % 5 {
    0 | 3 => ("html", HTML),
    1 => ("xhtml", XHTML),
    2 => ("html", BROKEN),
    _ => ("xhtml", &b""[..]),
  };
  let mut sizes = vec![16, 64, 255, 257, 1025];
  if !quick {
    sizes.extend([1023, 2049, 4097]);
  }
  for n in sizes {
    let flat = |i: usize| (PathBuf::from(format!("d{i}.{}", doc(i).0)), doc(i).1);
    out.push((format!("{n} documents"), (0..n).map(flat).collect()));
    let each = |i: usize| (PathBuf::from(format!("s{i}/d.{}", doc(i).0)), doc(i).1);
    out.push((format!("{n} directories of a document"), (0..n).map(each).collect()));
    let few = |i: usize| (PathBuf::from(format!("s{}/t{}/d{i}.{}", i % 3, i % 7, doc(i).0)), doc(i).1);
    out.push((format!("{n} documents in 21 directories"), (0..n).map(few).collect()));
  }
  for n in [9, 33, 65, 129, 257, 400] {
    let mut p = PathBuf::new();
    let mut fs = Vec::new();
    for i in 0..n {
      if i % 8 == 0 || i + 2 > n {
        fs.push((p.join(format!("d.{}", doc(i).0)), doc(i).1));
      }
      p.push("sub");
    }
    out.push((format!("directories {n} deep"), fs));
  }
  for n in [16, 63, 64, 100, 127, 128, 200, 250] {
    let fs = ["html", "xhtml", "htm"].map(|e| (PathBuf::from(format!("{}.{e}", "n".repeat(n - 1 - e.len()))), if e == "xhtml" { XHTML } else { HTML }));
    let mut fs = fs.to_vec();
    fs.push((Path::new(&"m".repeat(n)).join("e.html"), HTML));
    out.push((format!("names of {n} bytes"), fs));
  }
  // names that are nearly documents, and unusual ones that are
  let near = "a.HTML a.Html a.hTML b.XHTML b.Xhtml b.xHTML a.html~ a.html.bak a.shtml a.xhtml.html b.html.xhtml xhtml .html .xhtml ..html a..html a.htm a.xhtm a.xhtmlx a.html5 a.html4 a_html axhtml a.phtml HTML a.html#x a.html?x";
  let mut names: Vec<String> = near.split(' ').map(str::to_string).collect();
  names.extend([" a.html", "a.html ", "a .html", "a. html", "a.html\n", "a\n.html", ".a/a.html", "a.b/.c.xhtml", "a.b/ .xhtml"].map(str::to_string));
  let fs = names.iter().map(|n| (PathBuf::from(n), if n.ends_with(".xhtml") { XHTML } else { HTML })).collect();
  out.push(("nearly documents".into(), fs));
  for cs in scalars(!quick, 128) {
    let mut fs = Vec::new();
    for &c in cs.iter().filter(|c| !['\0', '/'].contains(c)) {
      fs.push((PathBuf::from(format!("{c}.html")), HTML));
      if c as u32 % 8 == 0 || (c as u32) < 0x500 {
        fs.push((PathBuf::from(format!("a{c}b.xhtml")), XHTML));
        fs.push((PathBuf::from(format!("x.html{c}")), HTML));
        fs.push((PathBuf::from(format!("d{c}/f.html")), HTML));
      }
    }
    out.push((format!("names with {:?} to {:?}", cs[0], cs[cs.len() - 1]), fs));
  }
  out
}
fn build_files(root: &Path, files: &[(PathBuf, &'static [u8])]) {
  let _ = std::fs::remove_dir_all(root);
  std::fs::create_dir_all(root).unwrap();
  for (p, c) in files {
    let p = root.join(p);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, c).unwrap();
  }
}
fn mode(p: &Path, m: u32) {
  use std::os::unix::fs::PermissionsExt;
  std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
}

/// what a corpus should give: (path, serialized document), sorted
fn expected(root: &Path, suffix: Option<&str>, hidden: bool) -> Vec<(String, String)> {
  let (xml, html) = (Parser::default(), Parser::default_html());
  let mut out = Vec::new();
  let mut todo = vec![root.to_path_buf()];
  while let Some(p) = todo.pop() {
    if p.is_dir() {
      if p.is_symlink() && p != root {
        continue;
      }
      for e in std::fs::read_dir(&p).map(|r| r.flatten().map(|e| e.path()).collect::<Vec<_>>()).unwrap_or_default() {
        if hidden || !e.file_name().unwrap().as_bytes().starts_with(b".") {
          todo.push(e);
        }
      }
    } else if let (Some(path), Some(name)) = (p.to_str(), p.file_name().and_then(|n| n.to_str())) {
      let selected = match suffix {
        None => name.ends_with(".html") || name.ends_with(".xhtml"),
        Some(s) => name.ends_with(s),
      };
      if selected && std::fs::File::open(&p).is_ok() {
        let d = if path.ends_with(".xhtml") { xml.parse_file(path) } else { html.parse_file(path) };
        if let Ok(d) = d {
          out.push((path.to_string(), d.to_string()));
        }
      }
    }
  }
  out.sort();
  out
}

/// run as an unprivileged user, where possible
fn unprivileged<R>(f: impl FnOnce() -> R) -> R {
  struct Back;
  impl Drop for Back {
    fn drop(&mut self) {
      unsafe { libc::seteuid(0) };
    }
  }
  let root = unsafe { libc::geteuid() } == 0;
  if root {
    unsafe { libc::seteuid(65534) };
    let _b = Back;
    f()
  } else {
    f()
  }
}

fn sets(max: usize, limit: usize) -> Vec<Vec<usize>> { seqs(limit, 0, max).filter(|s| s.windows(2).all(|w| w[0] < w[1])).collect() }
fn names(s: &[usize]) -> Vec<String> { s.iter().map(|&i| String::from_utf8_lossy(MENU[i].0).to_string()).collect() }

/// a place under the scratch directory any user may enter
fn place(ctx: &Ctx) -> PathBuf {
  let mut p = ctx.scratch.clone();
  while p.starts_with("/tmp") && p != Path::new("/tmp") {
    mode(&p, 0o755);
    p = p.parent().unwrap().to_path_buf();
  }
  ctx.scratch.join("corpus")
}

/// ways of writing the root of a corpus: relative to the working directory, with dots, within a hidden
/// directory, with unusual names; none for the root of a default corpus. The corpus is in place for the call.
fn rooted(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, Option<&str>) -> Verdict) -> Verdict {
  let base = place(ctx);
  let back = std::env::current_dir().unwrap();
  let abs = base.to_str().unwrap().to_string();
  let mut r = Ok(());
  for (at, cwd, root) in [
    ("", "", Some(".")),
    ("", "", Some("./")),
    ("", "", None),
    ("", "..", Some("corpus")),
    ("", "..", Some("corpus/")),
    ("", "..", Some("./corpus")),
    ("", "..", Some("corpus//")),
    ("", "sub", Some("..")),
    ("", "sub/deep", Some("../..")),
    ("", "sub", Some("../sub/../")),
    (".hidden", "..", Some("corpus/.hidden")),
    (".hidden/x", "..", Some("corpus/.hidden/x")),
    ("x.html", "..", Some("corpus/x.html")),
    ("a b%20c", "..", Some("corpus/a b%20c")),
    ("\u{fc}\u{1f600}", "..", Some("corpus/\u{fc}\u{1f600}")),
    ("a b/.c/d.xhtml", "", Some("@/a b/.c/d.xhtml")),
    ("", "", Some("@/")),
    ("", "", Some("@/sub/..")),
    ("", "", Some("@/./")),
  ] {
    let _ = std::fs::remove_dir_all(&base);
    build(&base.join(at), &[0, 1, 3, 4, 7, 12, 13, 14, 15, 17, 18, 22]);
    let to = base.join(cwd);
    std::fs::create_dir_all(&to).unwrap();
    std::env::set_current_dir(&to).unwrap();
    let root = root.map(|x| x.replace('@', &abs));
    r = f(ctx, root.as_deref()).map_err(|mut e| {
      e.msg = format!("with the root {root:?} from {cwd:?}: {}", e.msg);
      e
    });
    std::env::set_current_dir(&back).unwrap();
    if r.is_err() {
      break;
    }
  }
  let _ = std::fs::remove_dir_all(&base);
  r
}

fn walk(ctx: &mut Ctx, root: &Path, suffix: Option<&str>) -> Verdict {
  let corpus = data::Corpus::new(root.to_str().unwrap().to_string());
  walk_with(ctx, corpus, root, suffix)
}
fn walk_with(ctx: &mut Ctx, mut corpus: data::Corpus, root: &Path, suffix: Option<&str>) -> Verdict {
  let want = expected(root, suffix, true);
  corpus.extension = suffix.map(str::to_string);
  for round in 0..2 {
    let mut got = Vec::new();
    for d in corpus.iter() {
      got.push((d.path.clone(), d.dom.to_string()));
      ensure(d.dnm.is_none(), || "a fresh document has a text view".into())?;
      ensure(got.len() <= 2 * want.len() + 50, || "the iteration does not end".into())?;
    }
    got.sort();
    ctx.steps(1 + got.len() as u64);
    let p = |v: &[(String, String)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
    ensure(p(&got) == p(&want), || format!("suffix {suffix:?}, round {round}: documents {:?}, expected {:?}", p(&got), p(&want)))?;
    same("documents", &got, &want)?;
  }
  ctx.state(&want);
  Ok(())
}

fn run12(ctx: &mut Ctx) {
  let root = place(ctx);
  for s in sets(ctx.pick(3, 4), MENU.len()) {
    ctx.case(
      || format!("a corpus of {:?}", names(&s)),
      |ctx| {
        build(&root, &s);
        let r = unprivileged(|| SUFFIXES.iter().try_for_each(|suffix| walk(ctx, &root, *suffix)));
        for p in ["locked.html", "lockdir"] {
          if root.join(p).exists() {
            mode(&root.join(p), 0o700);
          }
        }
        let _ = std::fs::remove_dir_all(&root);
        r
      },
    );
    if ctx.done() {
      return;
    }
  }
  for (what, files) in wide(ctx.quick()) {
    ctx.case(
      || format!("a corpus with {what}"),
      |ctx| {
        build_files(&root, &files);
        walk(ctx, &root, None)?;
        walk(ctx, &root, Some(".xhtml"))
      },
    );
    if ctx.done() {
      return;
    }
  }
  ctx.case(
    || "roots".into(),
    |ctx| {
      rooted(ctx, &mut |ctx, root| {
        let at = Path::new(root.unwrap_or("."));
        let make = || root.map_or_else(data::Corpus::default, |r| data::Corpus::new(r.to_string()));
        walk_with(ctx, make(), at, None)?;
        walk_with(ctx, make(), at, Some("html"))
      })
    },
  );
  for (what, dir) in [("a missing root", "none"), ("a document as root", "a.html"), ("another file as root", "html"), ("an empty document as root", "empty.xhtml")] {
    ctx.case(
      || what.into(),
      |ctx| {
        build(&root, &[0, 5, 21]);
        SUFFIXES.iter().try_for_each(|suffix| walk(ctx, &root.join(dir), *suffix))
      },
    );
  }
  let _ = std::fs::remove_dir_all(&root);
}

type Catalog = BTreeMap<String, u64>;
/// what the documents report, by what is in them
fn report(path: &str, dom: &str, second: bool) -> HashMap<String, u64> {
  let mut m = HashMap::new();
  if second {
    if !path.contains("sub") {
      m.insert("size".to_string(), dom.len() as u64);
      m.insert(format!("2{path}"), 7);
    }
  } else if !path.ends_with("broken.html") {
    m.insert("documents".into(), 1);
    m.insert("size".into(), dom.len() as u64 * 3);
    m.insert("big".into(), 1 << 40);
    m.insert("zero".into(), 0);
    m.insert(path.to_string(), 1);
  }
  m
}
fn total(docs: &[(String, String)], second: bool) -> Catalog {
  let mut t = Catalog::new();
  for (p, d) in docs {
    for (k, v) in report(p, d, second) {
      *t.entry(k).or_insert(0) += v;
    }
  }
  t
}

fn parallel(ctx: &mut Ctx, root: &Path, suffix: Option<&str>, workers: usize, bound: u32, both: bool) -> Verdict {
  let path = root.to_str().unwrap().to_string();
  parallel_with(ctx, || parallel_data::Corpus::new(path.clone()), root, suffix, workers, bound, both)
}
fn parallel_with(ctx: &mut Ctx, make: impl Fn() -> parallel_data::Corpus + Sync, root: &Path, suffix: Option<&str>, workers: usize, bound: u32, both: bool) -> Verdict {
  let want = expected(root, suffix, false);
  let sums = (total(&want, false), total(&want, true));
  rayon::set_workers(workers);
  let one = |v: HashMap<String, u64>| v.into_iter().collect::<Catalog>();
  ctx.explore(
    bound,
    2_000_000,
    || {
      let mut corpus = make();
      corpus.extension = suffix.map(str::to_string);
      let seen: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
      let note = |d: &parallel_data::Document| {
        let x = (d.path.clone(), d.dom.to_string());
        mcsched::point("closure");
        seen.lock().unwrap().push(x.clone());
        x
      };
      let (a, b) = if both {
        let (a, b) = corpus.catalogs_with_parallel_walk(|d| {
          let (p, x) = note(&d);
          (report(&p, &x, false), report(&p, &x, true))
        });
        (one(a), Some(one(b)))
      } else {
        let a = corpus.catalog_with_parallel_walk(|d| {
          let (p, x) = note(&d);
          report(&p, &x, false)
        });
        (one(a), None)
      };
      let mut seen = seen.into_inner().unwrap();
      seen.sort();
      (seen, a, b)
    },
    |x, ctx| {
      let (seen, a, b) = x.result.as_ref().map_err(|e| format!("the walk failed: {e}"))?;
      ctx.state(&(x.schedule(), &x.log));
      let p = |v: &[(String, String)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
      ensure(p(seen) == p(&want), || format!("{workers} workers, suffix {suffix:?}: called for {:?}, expected {:?}", p(seen), p(&want)))?;
      same("documents", seen, &want)?;
      same("catalog", a, &sums.0)?;
      if let Some(b) = b {
        same("second catalog", b, &sums.1)?;
      }
      Ok(())
    },
  )
}

fn run10(ctx: &mut Ctx) {
  let root = place(ctx);
  for s in sets(ctx.pick(2, 3), MENU.len() - 2) {
    ctx.case(
      || format!("a corpus of {:?}", names(&s)),
      |ctx| {
        build(&root, &s);
        for suffix in SUFFIXES {
          for both in [false, true] {
            parallel(ctx, &root, suffix, 1, 9, both)?;
            parallel(ctx, &root, suffix, 2, 1, both)?;
          }
        }
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  let large: [&[usize]; 9] = [
    &[0, 1, 14],
    &[0, 4, 6],
    &[5, 7, 9, 0],
    &[12, 13, 0],
    &[14, 15, 16],
    &[17, 18, 0, 22],
    &[10, 11, 6],
    &[0, 1, 6, 14, 22],
    &[0, 4, 8, 10, 12, 22],
  ];
  let bound = ctx.pick(2, 3);
  for s in large {
    for workers in [2, 3] {
      for both in [false, true] {
        ctx.case(
          || format!("a corpus of {:?}, {workers} workers, {}", names(s), if both { "two reports" } else { "one report" }),
          |ctx| {
            build(&root, s);
            parallel(ctx, &root, None, workers, if workers > 2 && s.len() > 4 { bound - 1 } else { bound }, both)
          },
        );
      }
    }
  }
  for (i, (what, files)) in wide(ctx.quick()).into_iter().enumerate() {
    ctx.case(
      || format!("a corpus with {what}"),
      |ctx| {
        build_files(&root, &files);
        parallel(ctx, &root, None, 1 + i % 3, 0, i % 2 == 0)
      },
    );
    if ctx.done() {
      return;
    }
  }
  ctx.case(
    || "roots".into(),
    |ctx| {
      rooted(ctx, &mut |ctx, root| {
        let at = Path::new(root.unwrap_or("."));
        let make = || root.map_or_else(parallel_data::Corpus::default, |r| parallel_data::Corpus::new(r.to_string()));
        for both in [false, true] {
          parallel_with(ctx, make, at, None, 2, 1, both)?;
        }
        Ok(())
      })
    },
  );
  for (what, dir) in [("a missing root", "none"), ("a document as root", "a.html"), ("an empty document as root", "empty.xhtml")] {
    ctx.case(
      || what.into(),
      |ctx| {
        build(&root, &[0, 5, 21]);
        for both in [false, true] {
          parallel(ctx, &root.join(dir), None, 2, 2, both)?;
        }
        Ok(())
      },
    );
  }
  let _ = std::fs::remove_dir_all(&root);
}
