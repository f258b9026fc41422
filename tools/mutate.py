#!/usr/bin/env python3
"""mutate.py <out.jsonl> <slots> [file ...]: mechanical mutants of /repo/src, each built and checked in scratch copies
under /tmp/mut; one line per mutant. Survivors are read by hand."""
import sys, os, re, json, subprocess, random, shutil, threading, queue, time
OUT, SLOTS, FILES = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
CHECKS = {
 "src/ams.rs": "C19 C18", "src/data.rs": "C12 C22 C21", "src/dnm/c14n.rs": "C08 C25 C09", "src/dnm/mod.rs": "C01 C02 C25 C04",
 "src/dnm/node.rs": "C15", "src/dnm/parameters.rs": "C29 C02 C01", "src/dnm/range.rs": "C03 C01 C05 C07 C04",
 "src/extern_use.rs": "C20", "src/ngrams.rs": "C14 C13", "src/parallel_data.rs": "C22", "src/parallel_data/corpus.rs": "C22 C10",
 "src/parallel_data/document.rs": "C22 C21 C10", "src/patterns/matching.rs": "C17", "src/patterns/rules.rs": "C16 C17",
 "src/patterns/utils.rs": "C30 C16", "src/stopwords.rs": "C24", "src/tokenizer.rs": "C05 C06 C07", "src/util/data_helpers.rs": "C31 C26 C25 C23 C18",
 "src/util/path_helpers.rs": "C20", "src/util/plot.rs": "C28", "src/util/test.rs": "C27", "src/util/token_model.rs": "C11",
}
LIMIT = {"src/ams.rs": 60, "src/stopwords.rs": 12, "src/util/data_helpers.rs": 90}
def sub_all(line, pat, rep):
    for m in re.finditer(pat, line):
        r = m.expand(rep) if isinstance(rep, str) else rep(m)
        if r != m.group(0):
            yield line[:m.start()] + r + line[m.end():]
OPS = [
 (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
 (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+= ", " -= "), (r" \+= 1\b", " += 2"), (r" \+ ", " - "),
 (r"\b(\d+)\b(?!\.\.)", lambda m: str(int(m.group(1)) + 1)), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\bif !", "if "), (r"\bif (?!let|!)([^{]*) \{", r"if !(\1) {"),
 (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"is_alphabetic", "is_alphanumeric"), (r"is_alphanumeric", "is_alphabetic"),
 (r"\.is_whitespace\(\)", ".is_ascii_whitespace()"), (r"\.is_uppercase\(\)", ".is_ascii_uppercase()"), (r"\.is_lowercase\(\)", ".is_ascii_lowercase()"),
 (r"\.to_lowercase\(\)", ".to_ascii_lowercase()"), (r"\.trim\(\)", ""), (r"\.to_uppercase\(\)", ".to_ascii_uppercase()"),
 (r'"([^"\\{}]+)"', r'"\1x"'), (r'"([^"\\{}]{2,})"', lambda m: '"' + m.group(1)[:-1] + '"'), (r"'([a-zA-Z.,;:!?()])'", "'~'"),
 (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.rev\(\)", ""), (r"starts_with", "ends_with"), (r"\.first\(\)", ".last()"), (r"\.\.=", ".."),
 (r"\bpush_back\b", "push_front"), (r"\bpop_front\b", "pop_back"), (r"\bdescendant::", "child::"), (r"\bcontains\(@class", "(@class="),
]
def mutants(f):
    src = open("/repo/" + f).read().split("\n")
    out = []
    skip = False
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith("#[cfg(test)]"):
            break
        if not s or s.startswith(("//", "#[", "use ", "pub use", "pub mod", "mod ", "extern ")):
            continue
        code = l.split(" // ")[0]
        for pat, rep in OPS:
            for n in sub_all(code, pat, rep):
                out.append((i, n))
        if s.endswith(";") and not s.startswith(("let ", "pub ", "type ", "const ", "static ", "}", ")")) and s.count("(") == s.count(")"):
            out.append((i, ""))
        if re.match(r"\s*(return|continue|break)\b.*,$", l):
            pass
    uniq = sorted(set(out))
    random.Random(1).shuffle(uniq)
    return [(f, i, src[i], n) for i, n in uniq[:LIMIT.get(f, 10**6)]]
def sh(cmd, cwd, t, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, env=env)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, ""
def setup(k):
    b = f"/tmp/mut/{k}"
    if os.path.exists(b): shutil.rmtree(b)
    os.makedirs(b)
    subprocess.run(f"git -C /repo archive --prefix=repo/ HEAD | tar -x -C {b}; git -C /verif archive --prefix=verif/ HEAD mc check.sh known_findings.txt setup.sh | tar -x -C {b}; "
      f"grep -rlZ '/repo' {b}/verif --include=*.rs --include=Cargo.toml --include=build.sh | xargs -0 sed -i 's#/repo/#{b}/repo/#g; s#cd /repo #cd {b}/repo #'", shell=True, check=True)
    return b
env = dict(os.environ, MC_WORKERS="2", RUST_BACKTRACE="0", CARGO_BUILD_JOBS="2")
Q = queue.Queue(); lock = threading.Lock()
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
allm = []
for f in FILES or CHECKS:
    allm += [m for m in mutants(f) if (m[0], m[1], m[3]) not in done]
random.Random(2).shuffle(allm)
print(len(allm), "mutants", flush=True)
for m in allm: Q.put(m)
def worker(k):
    b = setup(k)
    for h in ("hfull", "hpart"):
        sh(f"bash -c '. mc/build.sh; build_harness {h} x'", b + "/verif", 1500, env)
    while True:
        try: f, i, old, new = Q.get_nowait()
        except queue.Empty: return
        p = f"{b}/repo/{f}"
        orig = open("/repo/" + f).read()
        L = orig.split("\n"); L[i] = new
        open(p, "w").write("\n".join(L))
        res, t0 = "survived", time.time()
        checks = CHECKS[f].split()
        if f.endswith("data_helpers.rs"):
            checks = ["C18"] if 128 <= i < 270 else ["C31", "C26", "C25", "C23"]
        for c in checks:
            rc, o = sh(f"./check.sh {c} quick", b + "/verif", 700, env)
            if rc == 2 and "does not build" in o: res = "nobuild"; break
            if rc == 1 and "VIOLATION property=" in o: res = "caught " + c; break
            if rc == 124: res = "timeout " + c; break
            if rc != 0: res = f"error {rc} {c} " + o[-300:]; break
            if "CAPPED" in o: res = "survived (capped " + c + ")"
        open(p, "w").write(orig)
        with lock:
            open(OUT, "a").write(json.dumps({"file": f, "line": i, "old": old.strip(), "new": new, "res": res, "t": round(time.time() - t0)}) + "\n")
ts = [threading.Thread(target=worker, args=(k,)) for k in range(SLOTS)]
[t.start() for t in ts]; [t.join() for t in ts]
