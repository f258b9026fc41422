//! C27: the list of test-corpus documents, one fresh process per directory tree.
use mccore::gen::{scalars, seqs, subsets};
use mccore::{same, Ctx, Prop, Verdict};
use std::path::Path;
use std::process::Command;

pub const PROP: Prop = Prop {
  id: "C27",
  run,
  chunk: 4,
  assumptions: &["file names are valid UTF-8", "links named like documents point to documents"],
  bounds: "all sets of up to 3 (4 thorough) entries of a 20-entry menu of names, extensions, nesting depths and links to files and directories, plus a missing and an empty directory; every character of the first two planes and samples of the others (thorough: every character) in file names and suffixes; up to 4097 files, 1500 nested directories, names of up to 254 bytes; every tree listed by a fresh process",
};

/// in the child: print the list and say so
pub fn child() -> bool {
  if std::env::var("MC_RESDOCS").is_err() {
    return false;
  }
  let v: &Vec<String> = &llamapun::util::test::RESOURCE_DOCUMENTS;
  for s in v {
    println!("{s:?}");
  }
  true
}

/// (path below tests/resources, listed stem); a trailing slash makes a directory,
/// an at sign a link to an entry of the working directory
const MENU: [(&str, Option<&str>); 20] = [
  ("a.html", Some("a")),
  ("b.xhtml", Some("b")),
  ("c.xml", None),
  ("d", None),
  ("e.HTML", None),
  ("f.html.gz", None),
  (".html", None),
  ("1311.0066.xhtml", Some("1311.0066")),
  ("sub/g.html", Some("g")),
  ("sub/deep/a.xhtml", Some("a")),
  ("dir.html/", None),
  ("dir.html/h.html", Some("h")),
  ("sub/i.txt", None),
  ("ü x.html", Some("ü x")),
  (".hidden/j.html", Some("j")),
  ("k.htm", None),
  ("linked@other", None),
  ("sub/linked@other", None),
  ("l.html@outside2.html", Some("l")),
  ("m.txt@outside2.html", None),
];

/// what a fresh process lists in this working directory
fn listed(me: &Path, root: &Path, want: Vec<String>) -> Verdict {
  let out = Command::new(me)
    .env_remove("MC_WORKER")
    .env("MC_RESDOCS", "1")
    .current_dir(root)
    .output()
    .map_err(|e| format!("harness error: {e}"))?;
  if !out.status.success() {
    return Err(format!("listing the corpus ended with {}", out.status).into());
  }
  let mut got: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect();
  let mut want: Vec<String> = want.iter().map(|w| format!("{w:?}")).collect();
  got.sort();
  want.sort();
  same("documents listed", &got, &want)
}

fn run(ctx: &mut Ctx) {
  let me = std::env::current_exe().unwrap();
  let root = ctx.scratch.join("cwd");
  let mut sets: Vec<Vec<usize>> = Vec::new();
  let max = ctx.pick(3, 4);
  for s in seqs(MENU.len(), 0, max) {
    if s.windows(2).all(|w| w[0] < w[1]) {
      sets.push(s);
    }
  }
  let _ = subsets;
  for missing in [true, false] {
    for s in &sets {
      if missing && !s.is_empty() {
        break;
      }
      let names: Vec<&str> = s.iter().map(|&i| MENU[i].0).collect();
      ctx.case(
        || format!("tests/resources {} {names:?}", if missing { "missing" } else { "with" }),
        |ctx| {
          let _ = std::fs::remove_dir_all(&root);
          std::fs::create_dir_all(&root).unwrap();
          // decoys outside of the corpus
          std::fs::create_dir_all(root.join("tests")).unwrap();
          std::fs::write(root.join("tests/outside.html"), "x").unwrap();
          std::fs::write(root.join("outside2.html"), "x").unwrap();
          std::fs::create_dir_all(root.join("other/deep")).unwrap();
          std::fs::write(root.join("other/deep/z.html"), "x").unwrap();
          if !missing {
            std::fs::create_dir_all(root.join("tests/resources")).unwrap();
          }
          for n in &names {
            let (n, target) = n.split_once('@').map_or((*n, None), |(a, b)| (a, Some(b)));
            let p = root.join("tests/resources").join(n);
            if let Some(t) = target {
              std::fs::create_dir_all(p.parent().unwrap()).unwrap();
              std::os::unix::fs::symlink(root.join(t), &p).unwrap();
            } else if n.ends_with('/') {
              std::fs::create_dir_all(&p).unwrap();
            } else {
              std::fs::create_dir_all(p.parent().unwrap_or(Path::new("."))).unwrap();
              std::fs::write(&p, "x").unwrap();
            }
          }
          let want = s.iter().filter_map(|&i| MENU[i].1.map(String::from)).collect();
          listed(&me, &root, want)?;
          ctx.steps(1 + names.len() as u64);
          ctx.state(&names);
          Ok(())
        },
      );
      if ctx.done() {
        return;
      }
    }
  }
  // every character in names, many files, deep directories
  let top = root.join("tests/resources");
  for cs in scalars(ctx.pick(false, true), 512) {
    ctx.case(
      || format!("files named after {:?}..={:?}", cs[0], cs[cs.len() - 1]),
      |ctx| {
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&top).unwrap();
        let mut want = Vec::new();
        for (i, c) in cs.iter().enumerate().filter(|x| !['\0', '/'].contains(x.1)) {
          let (name, stem) = match i % 3 {
            0 => (format!("{c}.html"), Some(format!("{c}"))),
            1 => (format!("a{c}.xhtml"), Some(format!("a{c}"))),
            _ => (format!("b.{c}html"), (*c == '.' || *c == 'x').then(|| if *c == '.' { "b.".to_string() } else { "b".to_string() })),
          };
          std::fs::write(top.join(name), "x").unwrap();
          want.extend(stem);
        }
        ctx.state(&cs);
        ctx.steps(cs.len() as u64);
        listed(&me, &root, want)
      },
    );
    if ctx.done() {
      return;
    }
  }
  for n in [2usize, 17, 100, 255, 256, 257, 1025, 4097] {
    ctx.case(
      || format!("{n} files, {n} directories below each other"),
      |ctx| {
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&top).unwrap();
        let mut want = Vec::new();
        let mut dir = top.clone();
        for i in 0..n {
          std::fs::write(top.join(format!("f{i}.html")), "x").unwrap();
          want.push(format!("f{i}"));
          if i < 1500 {
            dir = dir.join("d");
            std::fs::create_dir(&dir).unwrap();
            std::fs::write(dir.join(format!("g{i}.{}", ["xhtml", "html", "txt"][i % 3])), "x").unwrap();
            if i % 3 < 2 {
              want.push(format!("g{i}"));
            }
          }
        }
        // names of every length
        for k in 1..250usize {
          std::fs::write(top.join(format!("{}.html", "l".repeat(k))), "x").unwrap();
          want.push("l".repeat(k));
        }
        ctx.steps(2 * n as u64);
        ctx.state(&n);
        let r = listed(&me, &root, want);
        let _ = std::fs::remove_dir_all(&root);
        r
      },
    );
  }
}
