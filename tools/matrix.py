#!/usr/bin/env python3
"""matrix.py run [--jobs N] [--secs S] OUT.jsonl | table OUT.jsonl
Judges every planted change (seeded/*/patch.diff) by a short campaign of every property in a scratch copy and
prints which checks notice which changes. Not part of any registered check."""
import os, sys, re, json, glob, shutil, subprocess, threading, queue
R = os.environ.get("MUT_REPO", "/repo"); V = os.environ.get("MUT_VERIF", "/verif"); W = "/tmp/matrix"
ALL = [f"C{n:02d}" for n in range(1, 26) if n not in (22, 23)]
PROPS = {"std": [p for p in ALL if p not in ("C10", "C11", "C20")], "brown": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C12", "C13", "C14", "C21", "C24", "C25"],
         "unstable": [p for p in ALL if p != "C12"]}
def opt(n, d):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
def setup(w):
    d = f"{W}/{w}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(R, d + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
    shutil.copytree(V + "/sim", d + "/sim", ignore=shutil.ignore_patterns("target"))
    for f in ("/sim/Cargo.toml", "/sim/core/Cargo.toml"):
        s = open(d + f).read().replace('path = "/repo"', f'path = "{d}/repo"')
        open(d + f, "w").write(s)
    return d
def judge(d, cfg, secs, own):
    hit = []
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2024-11-07" if cfg == "unstable" else "stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    b = subprocess.run(["cargo", "build", "--offline", "-q", "-j", "2", "--features", "cfg_" + cfg, "--target-dir", f"{d}/t-{cfg}"], cwd=d + "/sim", env=env, capture_output=True, text=True)
    if b.returncode: return ["nobuild-" + cfg]
    for p in PROPS[cfg]:
        cmd = [f"{d}/t-{cfg}/debug/fcsim", "run", "--prop", p, "--seed", "1", "--from", "0", "--to", "1000000", "--mod", "1", "--rem", "0", "--cap", str(secs * (4 if p == own else 1)), "--out", d + "/o"]
        try: r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=60, env=dict(os.environ, RUST_BACKTRACE="0"))
        except subprocess.TimeoutExpired: hit.append(p); continue
        if r.returncode < 0 or re.search(r"^V \d+ \S+ \d+ ", r.stdout, re.M): hit.append(p)
    return hit
def run():
    out = sys.argv[-1]; secs = int(opt("--secs", "2")); lock = threading.Lock(); q = queue.Queue()
    done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        if os.path.basename(os.path.dirname(m)) not in done: q.put(os.path.dirname(m))
    def worker(i):
        d = setup(f"w{i}")
        while True:
            try: s = q.get_nowait()
            except queue.Empty: return
            own = json.load(open(s + "/meta.json"))["property"]; diff = open(s + "/patch.diff").read()
            subprocess.run(["patch", "-p1", "-s", "-i", s + "/patch.diff"], cwd=d + "/repo", check=True)
            try:
                fs = set(re.findall(r"^\+\+\+ b/src/(\S+)", diff, re.M))
                cfgs = ["unstable"] if all(f.startswith("btree") for f in fs) else ["std", "brown"] if fs == {"hashmap.rs"} else ["std", "unstable"]
                hit = sorted({p for c in cfgs for p in judge(d, c, secs, own)})
            finally: subprocess.run(["patch", "-R", "-p1", "-s", "-i", s + "/patch.diff"], cwd=d + "/repo", check=True)
            with lock: open(out, "a").write(json.dumps(dict(id=os.path.basename(s), property=own, by=hit)) + "\n")
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(int(opt("--jobs", "5")))]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(W, ignore_errors=True)
def table():
    for r in sorted(map(json.loads, open(sys.argv[-1])), key=lambda r: r["id"]):
        print(f"| {r['id']} | {r['property']} | {' '.join(p for p in r['by'] if p != r['property'])} |" + ("" if r["property"] in r["by"] else " (own: full quick run)"))
{"run": run, "table": table}[sys.argv[1]]()
