#!/usr/bin/env python3
"""check.py ID [quick|thorough]   search for a violation of property ID (seed: VERIF_SEED)
   check.py replay FILE          run a replay file again
   check.py build                build every configuration of the simulator
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery failed."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
CONFIGS = {"std": "stable", "brown": "stable", "unstable": "nightly-2024-11-07"}
PARTS = {
    "std": "stable toolchain, hash map from std, I/O from std",
    "brown": "stable toolchain, hash map from hashbrown, no std features",
    "unstable": "nightly toolchain, the crate's own B-tree, allocator-API Arc/Rc, I/O from std",
}
ALL3 = {"std": 2, "brown": 2, "unstable": 4}
SU = {"std": 4, "unstable": 4}
SB = {"std": 4, "brown": 4}
UN = {"unstable": 8}
PLAN = {  # configurations with something to drive, and how the eight workers are shared
    "C01": ALL3, "C02": ALL3, "C03": {"std": 3, "brown": 2, "unstable": 3}, "C04": ALL3, "C05": ALL3, "C06": ALL3,
    "C07": {"std": 1, "brown": 1, "unstable": 6}, "C08": ALL3, "C09": SU, "C10": UN, "C11": UN, "C12": SB, "C13": {"std": 1, "brown": 1, "unstable": 6},
    "C14": ALL3, "C15": SU, "C16": SU, "C17": SU, "C18": SU, "C19": SU, "C20": UN, "C21": ALL3, "C24": ALL3, "C25": ALL3,
}
QUICK = dict(cap=24, runs=10**9, min=2)
THOROUGH = dict(cap=300, runs=10**9)
ENV = dict(os.environ, RUST_BACKTRACE="0")


class Harness(Exception):
    pass


# how the code is compiled: debug as the tests are; plain without debug assertions and overflow checks,
# as users ship it, but quickly compiled; release as users ship it (thorough only)
FLAGS = {"debug": [], "plain": ["--profile", "plain"], "release": ["--release"]}


def binary(cfg, rel="debug"):
    return os.path.join(HERE, "target", cfg, rel, "fcsim")


def build(cfgs, rels=("debug",)):
    ps = []
    for c in cfgs:
        for rel in rels:
            td = os.path.join(HERE, "target", c)
            fp = os.path.join(td, rel, ".fingerprint")
            if os.path.isdir(fp):  # never trust time stamps: always compile /repo's working tree again
                for d in os.listdir(fp):
                    if d.startswith(("fallible_collections-", "fcsim-", "fcsim_core-")):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    env.pop("RUSTFLAGS", None)
    for c in cfgs:
        # profiles of one configuration share a target directory, which cargo locks per profile
        for rel in rels:
            cmd = ["cargo", "build", "--offline", "-q", "--features", "cfg_" + c, "--target-dir", os.path.join(HERE, "target", c)] + FLAGS[rel]
            ps.append((c, rel, subprocess.Popen(cmd, cwd=os.path.join(HERE, "sim"), env=dict(env, RUSTUP_TOOLCHAIN=CONFIGS[c]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = []
    for c, rel, p in ps:
        o = p.communicate()[0]
        if p.returncode != 0 or not os.path.exists(binary(c, rel)):
            bad.append(c)
            sys.stderr.write("\n".join(l for l in o.splitlines() if l.startswith("error") or "-->" in l)[-4000:] + "\n" + o[-2000:] + "\n")
    if bad:
        raise Harness("the simulator does not build against /repo in configuration " + ", ".join(bad))


def known(pid):
    """known: property=ID class=.. op=.. msg=.. ; fixed entries suppress nothing"""
    ks = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) class=(\S+) op=(\S+) contains=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == pid:
                ks.append((f"{m.group(2)}|{m.group(3)}|{m.group(4)}", m.group(5)))
    return ks


def parse_v(o):
    m = re.search(r"^V (\d+) (\S+) (\d+) (\S+) (.*)$", o, re.M)
    return m and dict(run=int(m.group(1)), cls=m.group(2), step=int(m.group(3)), op=m.group(4), msg=m.group(5))


class Worker:
    def __init__(self, pid, cfg, rel, seed, mod, rem, cap, runs, tmp, ks):
        self.cfg, self.rel, self.seed, self.mod, self.rem = cfg, rel, seed, mod, rem
        self.out = os.path.join(tmp, f"{cfg}-{rel}-{rem}")
        self.txt = self.out + ".txt"
        cmd = [binary(cfg, rel), "run", "--prop", pid, "--seed", str(seed), "--from", "0", "--to", str(runs), "--mod", str(mod), "--rem", str(rem),
               "--cap", str(cap), "--out", self.out, "--known", ";;".join(k[0] for k in ks)]
        self.f = open(self.txt, "w")
        self.p = subprocess.Popen(cmd, stdout=self.f, stderr=subprocess.STDOUT, env=ENV)
        self.killed = False

    def text(self):
        return open(self.txt, errors="replace").read()

    def words(self, ext):
        try:
            b = open(self.out + ext, "rb").read()
        except OSError:
            return ()
        return struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8])


def call(cfg, rel, *args, timeout=120):
    try:
        r = subprocess.run([binary(cfg, rel)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return -99, ""
    return r.returncode, r.stdout


def same(a, b):
    return a and b and a["cls"] == b["cls"]


def replay_trace(pid, cfg, rel, f):
    rc, o = call(cfg, rel, "replay", f, "--prop", pid)
    v = parse_v(o)
    if not v and rc < 0:
        v = dict(run=1, cls="crash", step=0, op="-", msg=f"the process died with signal {-rc}")
    d = re.search(r"^D (\S+)$", o, re.M)
    return v, d.group(1) if d else "-", rc, o


def replay_seq(pid, cfg, rel, seed, mod, rem, frm, to, timeout=600):
    rc, o = call(cfg, rel, "run", "--prop", pid, "--seed", str(seed), "--from", str(frm), "--to", str(to), "--mod", str(mod), "--rem", str(rem), timeout=timeout)
    v = parse_v(o)
    if not v and rc < 0:
        v = dict(run=to - 1, cls="crash", step=0, op="-", msg=f"the process died with signal {-rc}")
    return v


def report(pid, w, v, tmp, secs):
    """Write and confirm a replay file for violation v of worker w."""
    os.makedirs(OUT, exist_ok=True)
    name = os.path.join(OUT, f"{pid}-{w.cfg}{'' if w.rel == 'debug' else '-' + w.rel}-s{w.seed}-r{v['run']}.replay")
    raw, small = os.path.join(tmp, "raw"), os.path.join(tmp, "small")
    rc, o = call(w.cfg, w.rel, "gen", "--prop", pid, "--seed", str(w.seed), "--run", str(v["run"]))
    open(raw, "w").write(o)
    head = f"# property {pid}\n# config {w.cfg}\n# profile {w.rel}\n# seed {w.seed}\n# run {v['run']}\n"
    rc, o = call(w.cfg, w.rel, "minimise", raw, small, "--prop", pid, "--secs", str(secs), timeout=secs + 60)
    for cand in ([small] if rc == 0 and os.path.exists(small) else []) + [raw]:
        a, da, _, _ = replay_trace(pid, w.cfg, w.rel, cand)
        b, db, _, _ = replay_trace(pid, w.cfg, w.rel, cand)
        if a and b and same(a, b) and da == db:
            head += f"# class {a['cls']}\n# step {a['step']} {a['op']}\n# digest {da}\n# what {a['msg']}\n# confirmed in two fresh processes; {o.strip().splitlines()[-1] if o.strip() else ''}\n"
            open(name, "w").write(head + open(cand).read())
            return name, a
    # it needs the runs before it
    for k in (1, 8, 64, 10**9):
        frm = max(0, v["run"] - k * w.mod)
        frm += (w.rem - frm) % w.mod
        a = replay_seq(pid, w.cfg, w.rel, w.seed, w.mod, w.rem, frm, v["run"] + 1)
        if same(a, v):
            head += f"# class {v['cls']}\n# what {v['msg']}\n# sequence from={frm} to={v['run'] + 1} mod={w.mod} rem={w.rem}\n"
            open(name, "w").write(head)
            return name, v
    raise Harness(f"violation {v} in configuration {w.cfg} seed {w.seed} cannot be reproduced")


def determinism(pid, workers, want):
    """Repeat sampled runs, alone in fresh processes: their event digests must be the same."""
    checked, bad = 0, []
    for w in workers:
        digs = w.words(".dig")
        n = len(digs)
        if n == 0:
            continue
        k = max(1, want // len(workers))
        first = max(0, n - k)
        frm, to = first * w.mod + w.rem, (n - 1) * w.mod + w.rem + 1
        pre = w.out + ".again"
        rc, o = call(w.cfg, w.rel, "run", "--prop", pid, "--seed", str(w.seed), "--from", str(frm), "--to", str(to), "--mod", str(w.mod), "--rem", str(w.rem), "--out", pre)
        b = open(pre + ".dig", "rb").read() if os.path.exists(pre + ".dig") else b""
        again = struct.unpack("<%dQ" % (len(b) // 8), b)
        for i, (x, y) in enumerate(zip(digs[first:], again)):
            checked += 1
            if x != y:
                bad.append((w, (first + i) * w.mod + w.rem))
    return checked, bad


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    ks = known(pid)
    par = QUICK if tier == "quick" else THOROUGH
    if os.environ.get("FCSIM_CAP"):
        par = dict(par, cap=int(os.environ["FCSIM_CAP"]))
    print(f"{pid} {tier}: seed {seed}, configurations {', '.join(plan)}", flush=True)
    tmp = tempfile.mkdtemp(prefix="fcsim-")
    workers, found = [], None
    try:
        phases = [("debug", "plain")] if tier == "quick" else [("debug", "plain"), ("release",)]
        for rels in phases:
            build(plan, rels)
            built = time.time() - t0
            ws = []
            for cfg, n in plan.items():
                share = {rels[0]: n} if n == 1 or len(rels) == 1 else {"debug": n - (n + 1) // 4, "plain": (n + 1) // 4}
                for rel, n in share.items():
                    sd = {"debug": seed, "plain": seed ^ 0x91A1, "release": seed ^ 0x5EED}[rel]
                    for i in range(n):
                        ws.append(Worker(pid, cfg, rel, sd, n, i, par["cap"], par["runs"], tmp, ks))
            workers += ws
            while found is None and any(w.p.poll() is None for w in ws):
                time.sleep(0.05)
                found = scan(pid, ws)
            if found is None:
                found = scan(pid, ws)
            if found is not None:
                for w in ws:
                    if w.p.poll() is None:
                        w.p.kill()
                        w.killed = True
                for w in ws:
                    w.p.wait()
                break
        stats = [(w, s) for w in workers for s in re.findall(r"^S (\{.*\})$", w.text(), re.M)]
        checked, bad = (0, [])
        if found is None:
            if len(stats) != len(workers):
                raise Harness("a worker ended without its summary")
            checked, bad = determinism(pid, workers, 400 if tier == "quick" else 4000)
        viols = 0
        if found is not None:
            w, v = found
            f, v = report(pid, w, v, tmp, 25 if tier == "quick" else 90)
            viols = 1
            print(f"violation: configuration {w.cfg}, class {v['cls']}, operation {v['op']}: {v['msg']}")
            print(f"VIOLATION property={pid} replay={f}")
        elif bad and pid == "C21":
            # what a run computes depends on the unrelated runs before it
            w, run = bad[0]
            f = os.path.join(OUT, f"{pid}-{w.cfg}-s{w.seed}-r{run}.replay")
            os.makedirs(OUT, exist_ok=True)
            open(f, "w").write(f"# property {pid}\n# config {w.cfg}\n# profile {w.rel}\n# seed {w.seed}\n# run {run}\n# class isolation\n# what the same history gives another result after unrelated histories ran in the same process\n# carryover to={run + 1} mod={w.mod} rem={w.rem}\n")
            viols = 1
            print(f"VIOLATION property={pid} replay={f}")
        elif bad:
            print(f"note: {len(bad)} sampled run(s) gave another digest in a fresh process")
        evidence(pid, tier, seed, plan, workers, stats, checked, len(bad), viols, time.time() - t0, built, par)
        hits = set(k for w in workers for k in re.findall(r"^K (.*)$", w.text(), re.M))
        for k, what in ks:
            print(f"KNOWN-FINDING: property={pid} {what}" + ("" if k in hits else " (not met in this run)"))
        if not viols:
            n = sum(json.loads(s)["runs"] for _, s in stats)
            cut = {}
            for _, s in stats:
                for k, v in json.loads(s)["foreign"].items():
                    cut[k] = cut.get(k, 0) + v
            if sum(cut.values()) > n / 2:
                raise Harness(f"{sum(cut.values())} of {n} runs ended early for reasons {pid} does not judge: {cut}")
            print(f"{pid}: held on {n} simulated runs in {time.time() - t0:.0f} s ({checked} repeated in fresh processes)")
        return 1 if viols else 0
    finally:
        for w in workers:
            if w.p.poll() is None:
                w.p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def scan(pid, ws):
    for w in ws:
        if w.killed:
            continue
        rc = w.p.poll()
        if rc is None:
            continue
        if rc == 0 and getattr(w, "clean", False):
            continue
        t = w.text()
        v = parse_v(t)
        if v:
            return w, v
        if rc == 0:
            w.clean = True
            continue
        if rc == 2:
            raise Harness("worker failed: " + t[-800:])
        pr = w.words(".prog")
        if rc < 0 and pr and pr[0] != 2**64 - 1:
            if rc == -9:
                raise Harness("a worker was killed (memory?)")
            return w, dict(run=pr[0], cls="crash", step=0, op="-", msg=f"the process died with signal {-rc}")
        raise Harness(f"worker ended with {rc}: {t[-800:]}")
    return None


REAL = {
    "real": ["every source file of fallible_collections compiled from /repo's working tree for the configurations listed", "alloc::vec::Vec, std and hashbrown hash tables, core/alloc/std of the toolchain"],
    "simulated": ["the global allocator (a checking arena that can refuse any request)", "keys, values, elements and every callback on them (clone, compare, hash, drop, closures, iterators, formatters)",
                  "readers and writers (fragmenting, interrupting, failing, panicking)", "hash seeds (getrandom and ahash's random source)", "the thread scheduler of the isolation worlds (real threads, one runs at a time, chosen by the trace)"],
}


def evidence(pid, tier, seed, plan, workers, stats, checked, bad, viols, wall, built, par):
    faults, ops, worlds, foreign, per = {}, {}, {}, {}, {}
    runs = steps = req = 0
    for w, s in stats:
        d = json.loads(s)
        runs += d["runs"]
        steps += d["steps"]
        req += d["requests"]
        merge(faults, d["faults"])
        merge(ops, d["ops"])
        merge(worlds, {f"{d['config']} {k}": v for k, v in d["worlds"].items()})
        merge(foreign, d["foreign"])
        merge(per, {d["config"] + ("" if w.rel == "debug" else " " + w.rel): d["runs"]})
    digs, feats = set(), set()
    for w in workers:
        digs.update((w.cfg, x) for x in w.words(".dig"))
        feats.update((w.cfg, x) for x in w.words(".feat"))
    samples = []
    for cfg in plan:
        for r in (3, 11):
            rc, o = call(cfg, "debug", "gen", "--prop", pid, "--seed", str(seed), "--run", str(r))
            if rc == 0:
                samples.append({"config": cfg, "run": r, "trace": o.strip().splitlines()[:14]})
    simsecs = max(0.001, wall - built)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(digs),
        "rule": "One case is one simulated run: a world, an element layout, an operation history and a fault plan, all derived from (seed, property, run number). "
                "It counts as distinct by the digest of everything observed while it ran (operations, results, contents, allocation requests and refusals, callbacks); every run executes at least one operation on real containers, and equal digests count once.",
        "samples": samples,
        "runs_per_config": per,
        "runs_and_seeds_per_hour": int(runs / simsecs * 3600),
        "simulated_steps": steps,
        "simulated_time": f"the code reads no clock; logical time is {steps} container operations, {req} allocation requests",
        "faults_fired": faults,
        "operation_outcomes": ops,
        "distinct_operation_states": len(feats),
        "distinct_operation_states_rule": "operation x outcome x (requests, refusals, clone failures, outage, previous operation's class)",
        "runs_per_world": worlds,
        "observations_owned_by_other_properties": foreign,
        "repeated_in_fresh_process": checked,
        "repeats_with_other_digest": bad,
        "components": REAL,
        "configurations": {c: PARTS[c] for c in plan},
    }
    e = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": ["faults and callbacks are injected only at seams (allocator, element, closure, iterator, reader, formatter, scheduler)",
                         "sampling, not enumeration: a clean batch is evidence, not proof"],
         "wall_s": round(wall, 2), "violations": viols}
    os.makedirs(EVID, exist_ok=True)
    json.dump(e, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, sort_keys=True)


def replay(f):
    h = dict(m.groups() for m in re.finditer(r"^# (\S+) (.*)$", open(f).read(), re.M))
    pid, cfg, rel = h["property"], h["config"], h.get("profile", "debug")
    build([cfg], [rel])
    if "sequence" in h or "carryover" in h:
        q = {k: int(v) for k, v in re.findall(r"(\w+)=(\d+)", h.get("sequence", h.get("carryover")))}
        if "sequence" in h:
            v = replay_seq(pid, cfg, rel, int(h["seed"]), q["mod"], q["rem"], q["from"], q["to"])
            ok = v and v["cls"] == h["class"]
        else:
            tmp = tempfile.mkdtemp(prefix="fcsim-")
            ds = []
            for frm in (0, q["to"] - 1):
                call(cfg, rel, "run", "--prop", pid, "--seed", h["seed"], "--from", str(frm), "--to", str(q["to"]), "--mod", str(q["mod"]), "--rem", str(q["rem"]), "--out", tmp + "/x", timeout=800)
                ds.append(open(tmp + "/x.dig", "rb").read()[-8:])
            shutil.rmtree(tmp)
            ok, v = ds[0] != ds[1], dict(msg=h["what"], cls="isolation", op="-")
    else:
        v, d, rc, o = replay_trace(pid, cfg, rel, f)
        ok = v and v["cls"] == h["class"]
        if ok and d != h["digest"]:
            print(f"note: digest {d}, recorded {h['digest']}")
    if ok:
        print(f"reproduced: class {v['cls']}, operation {v['op']}: {v['msg']}")
        print(f"VIOLATION property={pid} replay={f}")
        return 1
    if v:
        print(f"another violation: {v}")
        print(f"VIOLATION property={pid} replay={f}")
        return 1
    print("not reproduced: the property holds on this history")
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["build"]:
            build(CONFIGS, ("debug", "plain"))
            return 0
        if a[:1] == ["replay"]:
            return replay(a[1])
        if not a or a[0] not in PLAN:
            print(__doc__)
            return 2
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], "thorough" if tier == "thorough" else "quick")
    except Harness as e:
        print(f"HARNESS: {e}", file=sys.stderr)
        return 2


sys.exit(main())
