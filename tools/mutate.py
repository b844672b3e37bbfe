#!/usr/bin/env python3
"""mutate.py list | run [--jobs N] [--files a,b] [--sample K] [--out FILE]
Systematic small edits of /repo/src in scratch copies under /tmp/mut, each judged by short campaigns
of every property. Used to find what the simulator is blind to; not part of any registered check."""
import re, os, sys, subprocess, shutil, json, random, threading, queue, time
R = os.environ.get("MUT_REPO", "/repo"); V = os.environ.get("MUT_VERIF", "/verif"); W = "/tmp/mut"
FILES = ["vec.rs", "hashmap.rs", "boxed.rs", "rc.rs", "arc.rs", "format.rs", "try_clone.rs", "btree/map.rs", "btree/set.rs", "btree/node.rs", "btree/search.rs"]
PAIRS = [("left", "right"), ("first", "last"), ("front", "back"), ("Less", "Greater"), ("min", "max"), ("self_iter", "other_iter"), ("small", "other"), ("Included", "Excluded"), ("true", "false"), ("keys", "vals"), ("is_some", "is_none"), ("next", "next_back"), ("self", "other"), ("key", "value"), ("k", "v"), ("a", "b"), ("Internal", "Leaf"), ("InternalNode", "LeafNode"), ("CAPACITY", "B"), ("MIN_LEN", "CAPACITY")]
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r"&&", "||"), (r"\|\|(?= \w)", "&&"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"(?<=if )(!?[a-z][^{;]*?)(?= \{)", r"!(\1)"), (r"(?<=while )([a-z][^{;]*?)(?= \{)", r"false && (\1)"), (r"if let Err\(e\) = ", "if let (false, Err(e)) = (true, ")]
def mutants():
    out = []
    for f in FILES:
        lines = open(f"{R}/src/{f}").read().split("\n")
        intest = False; depth = 0
        for n, l in enumerate(lines):
            if "#[cfg(test)]" in l and n + 1 < len(lines) and "mod" in lines[n + 1]:
                intest = True; ind = len(l) - len(l.lstrip())
            if intest:
                if l.rstrip() == " " * ind + "}":
                    intest = False
                continue
            s = l.strip()
            if not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "#![", "*", "///", "impl", "pub fn", "fn ", "unsafe impl", "where", "pub trait", "trait", "debug_assert", "assert")) or "fmt::" in s:
                continue
            seen = set()
            def add(new, kind):
                if new != l and new not in seen:
                    seen.add(new); out.append((f, n, l, new, kind))
            code = l.split("//")[0]
            for a, b in SUBS:
                for m in re.finditer(a, code):
                    if "->" in code[max(0, m.start() - 1):m.end() + 1] or "=>" in code[max(0, m.start() - 1):m.end() + 1]: continue
                    add(l[:m.start()] + m.expand(b) + l[m.end():], a)
            for a, b in PAIRS:
                for x, y in ((a, b), (b, a)):
                    for m in re.finditer(r"(?<![A-Za-z0-9])" + x + r"(?![A-Za-z0-9])|(?<=_)" + x + r"(?![a-zA-Z0-9])|(?<![A-Za-z0-9])" + x + r"(?=_)", code):
                        add(l[:m.start()] + y + l[m.end():], f"{x}->{y}")
            if s.endswith(";") and not s.startswith(("let ", "return", "break", "continue", "const", "type", "static", ")", "}", ".")) and s.count("(") == s.count(")"):
                add(l[:len(l) - len(l.lstrip())] + "();", "delete")
            if s.endswith(")?;") and not s.startswith("let"):
                add(l.replace(")?;", ").ok();"), "ignore-error")
    return out
def setup(w):
    d = f"{W}/{w}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(R, d + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
    shutil.copytree(V + "/sim", d + "/sim", ignore=shutil.ignore_patterns("target"))
    for f in ("/sim/Cargo.toml", "/sim/core/Cargo.toml"):
        s = open(d + f).read().replace('path = "/repo"', f'path = "{d}/repo"')
        open(d + f, "w").write(s)
    return d
# the broadest profiles first: judging stops at the first that notices
WORLD = {"std": ["C05", "C04", "C09", "C12", "C24", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21"],
         "brown": ["C24", "C01", "C02", "C03", "C04", "C05", "C06", "C12", "C14"],
         "unstable": ["C05", "C04", "C10", "C11", "C20", "C24", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C13", "C14", "C20", "C21", "C09", "C17", "C19"]}
def cfg_of(f, n, lines):
    if f.startswith("btree"): return "unstable"
    ctx = "\n".join(lines[max(0, n - 14):n + 1])
    if 'feature = "unstable")]' in ctx and "not(feature" not in ctx.split('feature = "unstable")]')[-1] and f in ("vec.rs", "rc.rs", "arc.rs"): return "unstable"
    return "std"
def build(d, cfg):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2024-11-07" if cfg == "unstable" else "stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    return subprocess.run(["cargo", "build", "--offline", "-q", "-j", "2", "--features", "cfg_" + cfg, "--target-dir", f"{d}/t-{cfg}"], cwd=d + "/sim", env=env, capture_output=True, text=True)
def judge(d, cfg, secs):
    res = {}
    for p in dict.fromkeys(WORLD[cfg]):
        if res:
            break
        out = f"{d}/o"
        cmd = [f"{d}/t-{cfg}/debug/fcsim", "run", "--prop", p, "--seed", "1", "--from", "0", "--to", "1000000", "--mod", "1", "--rem", "0", "--cap", str(secs), "--out", out]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=40, env=dict(os.environ, RUST_BACKTRACE="0"))
        except subprocess.TimeoutExpired:
            res[p] = "timeout"; continue
        m = re.search(r"^V (\d+) (\S+) (\d+) (\S+) (.*)$", r.stdout, re.M)
        if m: res[p] = f"{m.group(2)}@{m.group(4)} r{m.group(1)}"
        elif r.returncode < 0: res[p] = f"signal{-r.returncode}"
    return res
def main():
    ms = mutants()
    args = sys.argv[1:]
    def opt(n, d):
        return args[args.index(n) + 1] if n in args else d
    fs = opt("--files", None)
    if fs: ms = [m for m in ms if m[0] in fs.split(",")]
    if args[0] == "list":
        from collections import Counter
        print(Counter(m[0] for m in ms)); return
    random.seed(int(opt("--seed", "1"))); random.shuffle(ms)
    k = int(opt("--sample", "0"))
    ms = ms[int(opt("--skip", "0")):]
    if k: ms = ms[:k]
    secs = float(opt("--secs", "1.5")); jobs = int(opt("--jobs", "6"))
    outf = open(opt("--out", "/tmp/mut.jsonl"), "a")
    q = queue.Queue(); [q.put(m) for m in ms]
    lock = threading.Lock()
    def worker(w):
        d = setup(f"w{w}")
        while True:
            try: f, n, old, new, kind = q.get_nowait()
            except queue.Empty: return
            p = f"{d}/repo/src/{f}"
            src = open(f"{R}/src/{f}").read(); lines = src.split("\n")
            assert lines[n] == old
            cfg = cfg_of(f, n, lines)
            lines[n] = new
            open(p, "w").write("\n".join(lines))
            t0 = time.time()
            try:
                b = build(d, cfg)
                if b.returncode: r = dict(status="nobuild")
                else:
                    res = judge(d, cfg, secs)
                    r = dict(status="caught" if res else "MISSED", res=res)
            finally:
                open(p, "w").write(src)
            r.update(file=f, line=n + 1, old=old.strip(), new=new.strip(), kind=kind, cfg=cfg, secs=round(time.time() - t0, 1))
            with lock:
                outf.write(json.dumps(r) + "\n"); outf.flush()
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(W, ignore_errors=True)
main()
