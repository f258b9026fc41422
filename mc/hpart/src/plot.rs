//! C28: what the plotting helper sends to gnuplot.
use llamapun::util::plot::plot_simple;
use mccore::gen::{scalars, seqs, LENGTHS};
use mccore::{ensure, same, Ctx, Prop, Verdict};
use std::os::unix::fs::PermissionsExt;

pub const PROP: Prop = Prop {
  id: "C28",
  run,
  chunk: 4,
  assumptions: &[
    "gnuplot is replaced by a program that records its standard input; gnuplot itself is trusted to draw what it is told",
  ],
  bounds: "all tables of up to 3 (4 thorough) rows over 12 key/count pairs (counts up to the largest), with labels, titles and paths from a small set; every character of the first two planes and samples of the others (thorough: every character) in labels, titles and paths; tables of up to 65537 rows",
};

fn le_f64s(b: &[u8]) -> Vec<f64> {
  b.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect()
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }

fn run(ctx: &mut Ctx) {
  // a stand-in gnuplot that records what it is sent
  let bin = ctx.scratch.join("bin");
  std::fs::create_dir_all(&bin).unwrap();
  let rec = ctx.scratch.join("sent");
  let script = bin.join("gnuplot");
  std::fs::write(
    &script,
    format!(
      "#!/bin/sh\nif [ \"$1\" = --version ]; then echo 'gnuplot 5.4 patchlevel 2'; exit 0; fi\nexec cat > '{}'\n",
      rec.display()
    ),
  )
  .unwrap();
  std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
  let path = std::env::var("PATH").unwrap_or_default();
  std::env::set_var("PATH", format!("{}:{path}", bin.display()));

  let rows: [(i32, usize); 12] = [
    (0, 1),
    (1, 2),
    (2, 3),
    (-4, 1024),
    (7, 0),
    (1, 7),
    (1_000_000, 1_000_003),
    (i32::MIN, 1 << 32),
    (i32::MAX, (1 << 40) + 1),
    (3, u32::MAX as usize),
    (4, usize::MAX),
    (5, 1 << 31),
  ];
  let labels = [
    ("x axis", "y axis", "title", "out.png"),
    ("", "log2 count", "Words & \"quotes\"", "dir with blank/a.png"),
    ("y", "x", "", "p.png"),
  ];
  for s in seqs(rows.len(), 0, ctx.pick(3, 4)).filter(|s| s.len() < 4 || s[3] < 6) {
    let l = labels[(s.len() + s.first().copied().unwrap_or(0)) % 3];
    if !ctx.mine() {
      continue;
    }
    let table: Vec<(i32, usize)> = s.iter().map(|&i| rows[i]).collect();
    ctx.run(
      || format!("{table:?} {l:?}"),
      |ctx| {
        let _ = std::fs::remove_file(&rec);
        plot_simple(&table, l.0, l.1, l.2, l.3);
        let sent = std::fs::read(&rec).map_err(|e| format!("gnuplot was not run to its end: {e}"))?;
        ctx.steps(1 + table.len() as u64);
        let f: Vec<(f64, usize)> = table.iter().map(|(a, b)| (*a as f64, *b)).collect();
        judge(&sent, &f, l)?;
        ctx.state(&sent);
        Ok(())
      },
    );
    if ctx.done() {
      return;
    }
  }
  // every character in the texts
  for cs in scalars(ctx.pick(false, true), 256) {
    if ctx.mine() {
      let text: String = cs.iter().filter(|c| **c != '\n').collect();
      ctx.run(
        || format!("texts of the characters {:?}..={:?}", cs[0], cs[cs.len() - 1]),
        |ctx| {
          let short: String = text.chars().take(3).collect();
          for l in [(text.as_str(), "y", "t", "p.png"), ("x", text.as_str(), short.as_str(), "p.png"), ("x", "y", text.as_str(), text.as_str())] {
            let _ = std::fs::remove_file(&rec);
            plot_simple(&[(1, 2usize)], l.0, l.1, l.2, l.3);
            let sent = std::fs::read(&rec).map_err(|e| format!("gnuplot was not run to its end: {e}"))?;
            ctx.steps(1);
            judge(&sent, &[(1.0, 2)], l)?;
          }
          ctx.state(&text);
          Ok(())
        },
      );
    }
    if ctx.done() {
      return;
    }
  }
  for n in LENGTHS {
    if ctx.mine() {
      let table: Vec<(i32, usize)> = (0..n).map(|i| ((i as i32).wrapping_mul(7919) - 40_000, (i * i * 31 + 1) % (1 << 34))).collect();
      ctx.run(
        || format!("a table of {n} rows"),
        |ctx| {
          let _ = std::fs::remove_file(&rec);
          plot_simple(&table, "x", "y", "t", "p.png");
          let sent = std::fs::read(&rec).map_err(|e| format!("gnuplot was not run to its end: {e}"))?;
          let f: Vec<(f64, usize)> = table.iter().map(|(a, b)| (f64::from(*a), *b)).collect();
          ctx.steps(n as u64);
          judge(&sent, &f, ("x", "y", "t", "p.png"))
        },
      );
    }
  }
  // keys of another numeric type
  for n in 0..4u32 {
    if ctx.mine() {
      let table: Vec<(u32, usize)> = (0..n).map(|i| (i.wrapping_mul(0x5555_5555), (i as usize + 1) << (i * 20))).collect();
      ctx.run(
        || format!("{table:?}"),
        |_| {
          let _ = std::fs::remove_file(&rec);
          plot_simple(&table, "k", "v", "t", "u32.png");
          let sent = std::fs::read(&rec).map_err(|e| format!("gnuplot was not run to its end: {e}"))?;
          let f: Vec<(f64, usize)> = table.iter().map(|(a, b)| (*a as f64, *b)).collect();
          judge(&sent, &f, ("k", "v", "t", "u32.png"))
        },
      );
    }
  }
}

pub fn judge(sent: &[u8], table: &[(f64, usize)], l: (&str, &str, &str, &str)) -> Verdict {
  let text = String::from_utf8_lossy(sent).to_string();
  // the escapes of a double-quoted gnuplot string, as the gnuplot crate writes them
  let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', "\\t");
  ensure(text.contains("set terminal pngcairo"), || format!("terminal not set to pngcairo: {text:?}"))?;
  ensure(text.contains(&format!("set output \"{}\"", esc(l.3))), || format!("output is not {:?}: {text:?}", l.3))?;
  for (what, v) in [("xlabel", l.0), ("ylabel", l.1), ("title", l.2)] {
    ensure(text.contains(&format!("set {what} \"{}\"", esc(v))), || format!("{what} is not {v:?}: {text:?}"))?;
  }
  // the points follow the plot command as pairs of doubles
  let rec = format!("record={}", table.len());
  if table.is_empty() {
    return Ok(());
  }
  let p = find(sent, b"plot \"-\" binary").ok_or_else(|| format!("no binary plot command: {text:?}"))?;
  let cmd_end = p + find(&sent[p..], b"\n").ok_or("no end of the plot command")? + 1;
  let cmd = String::from_utf8_lossy(&sent[p..cmd_end]).to_string();
  ensure(cmd.contains(&rec), || format!("plot command {cmd:?} does not announce {rec}"))?;
  ensure(cmd.contains("with points"), || format!("plot command {cmd:?} does not draw points"))?;
  let data = le_f64s(&sent[cmd_end..(cmd_end + 16 * table.len()).min(sent.len())]);
  let want: Vec<u64> =
    table.iter().flat_map(|(k, c)| [k.to_bits(), (*c as f64).log2().to_bits()]).collect();
  same("points", &data.iter().map(|d| d.to_bits()).collect::<Vec<_>>(), &want)
}
