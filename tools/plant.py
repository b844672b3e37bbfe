#!/usr/bin/env python3
"""plant.py [ID...] [--check] [--keep]: (re)creates /verif/seeded/<id> from tools/plants/*.py and
confirms each: applies, builds, passes the stable tests, demo passes before and fails after.
--check also runs the property's check against the patched tree and reports whether it is caught.
A spec is a call  plant(id, property, config, edits, demo, needs, breaks)  where edits is a list of
(file, old, new) and config is hb | unstable | std."""
import json, os, subprocess, sys, glob, shutil, time
V = "/verif"; R = "/repo"
CFG = {"hb": ("stable", 'features = []'), "std": ("stable", 'features = ["std_io", "std"]'),
       "stdio": ("stable", 'features = ["std_io"]'),
       "unstable": ("nightly-2024-11-07", 'features = ["unstable", "std_io"]'),
       "unstable-rel": ("nightly-2024-11-07", 'features = ["unstable", "std_io"]')}
plants = {}
def plant(id, property, config, edits, demo, needs, breaks):
    assert id not in plants, id
    plants[id] = dict(id=id, property=property, config=config, edits=edits, demo=demo, needs=needs, breaks=breaks)
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
def make(p):
    d = f"{V}/seeded/{p['id']}"
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    try:
        for f, old, new in p["edits"]:
            path = f"{R}/src/{f}"
            s = open(path).read()
            n = s.count(old)
            if n != 1:
                raise SystemExit(f"{p['id']}: {f}: old text occurs {n} times:\n{old}")
            open(path, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
    finally:
        clean()
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(open(f"{V}/tools/plants/prelude.rs").read() + p["demo"].strip("\n") + "\n")
    t, f = CFG[p["config"]]
    open(f"{d}/demo.sh", "w").write(open(f"{V}/tools/plants/demo.sh").read().replace("@FEATURES@", f).replace("@TOOLCHAIN@", t).replace("@DEBUG@", "false" if p["config"].endswith("-rel") else "true"))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    return d
def demo(d):
    r = sh(f"bash {d}/demo.sh", cwd=R)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
def verify(p, check, cap):
    d = make(p)
    rc0, out0 = demo(d)
    res = {"id": p["id"], "property": p["property"]}
    if rc0 != 0:
        return dict(res, ok=False, why=f"demo fails unpatched rc={rc0}\n{out0}")
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode:
        return dict(res, ok=False, why="does not apply " + a.stderr)
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            return dict(res, ok=False, why="build: " + (b.stdout + b.stderr)[-2500:])
        sh("bash /opt/vp/test.sh /tmp/plant_t.json")
        t = json.load(open("/tmp/plant_t.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        bad = missing(t, base)
        if bad:
            return dict(res, ok=False, why="tests fail: " + ", ".join(bad[:6]))
        rc1, out1 = demo(d)
        if rc1 in (0, 3):
            return dict(res, ok=False, why=f"demo rc={rc1} with the patch\n{out1}")
        res.update(ok=True, demo_rc=rc1, demo_tail=out1.strip().splitlines()[-3:])
        if check:
            t0 = time.time()
            env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
            c = subprocess.run(["python3", f"{V}/check.py", p["property"], "quick"], capture_output=True, text=True, env=env, cwd=V)
            lines = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            res.update(caught=c.returncode == 1 and any(f"property={p['property']} " in l for l in lines), rc=c.returncode,
                       secs=round(time.time() - t0), lines=lines[:2], tail=c.stdout.strip().splitlines()[-4:])
    finally:
        clean()
    return res
def names(o):
    # BASELINE / OUT formats: find passing test names
    if isinstance(o, dict):
        for k in ("passed", "pass", "tests", "stable"):
            if k in o:
                v = o[k]
                if isinstance(v, list): return set(v)
                if isinstance(v, dict): return {n for n, s in v.items() if s in (True, "pass", "passed", "ok")}
    raise SystemExit("test format? " + str(o)[:300])
def missing(t, base):
    return sorted(names(base) - names(t))
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for f in sorted(glob.glob(f"{V}/tools/plants/*.py")):
        exec(compile(open(f).read(), f, "exec"), {"plant": plant})
    ids = args or list(plants)
    out = []
    resf = f"{V}/out/plants.json"
    old = json.load(open(resf)) if os.path.exists(resf) else {}
    for i in ids:
        r = verify(plants[i], "--check" in sys.argv, None)
        old[i] = dict(old.get(i, {}), **r); json.dump(old, open(resf, "w"), indent=1)
        print(json.dumps(r), flush=True)
    sh("bash /opt/vp/build.sh")
if __name__ == "__main__":
    main()
