#!/usr/bin/env python3
"""lanes.py MODE [names...] [jobs=4] [from=DIR] [props=C01,C02|all|own]
Applies patches in scratch copies of /repo (lanes) and runs the checks there, so
that /repo and /verif stay free.  MODE:
  quiet  every tools/refactors/*.diff (behaviour-preserving): all checks must exit 0
  bugs   every seeded/*/: tests pass, demo 0 before and non-zero after, and the
         checks (default: own property) report it"""
import json, os, queue, shutil, subprocess, sys, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mode = sys.argv[1]
opts = dict(a.split("=", 1) for a in sys.argv[2:] if "=" in a)
names = [a for a in sys.argv[2:] if "=" not in a]
jobs = int(opts.get("jobs", 4))
SIM = opts.get("from", ROOT)
base0 = f"/tmp/lanes.{os.getpid()}"
ALL = [c["property"] if "property" in c else c["property_id"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
STABLE = None
q = queue.Queue()
if mode == "quiet":
    for f in names or sorted(x[:-5] for x in os.listdir(ROOT + "/tools/refactors")):
        for p in ALL: pass
        q.put((f, f"{ROOT}/tools/refactors/{f}.diff"))
else:
    for f in names or sorted(os.listdir(ROOT + "/seeded")): q.put((f, f"{ROOT}/seeded/{f}/patch.diff"))
lock = threading.Lock()
bad = []
def sh(cmd, cwd, env, t):
    try: return subprocess.run(["timeout", "-k", "5", str(t)] + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except Exception as e:
        class X: returncode = 99; stdout = str(e)
        return X
def lane(w):
    base = f"{base0}/{w}"
    os.makedirs(base + "/v")
    subprocess.check_call(["git", "clone", "-q", "/repo", base + "/repo"])
    subprocess.call(["cp", "/repo/Cargo.lock", base + "/repo/"], stderr=subprocess.DEVNULL)
    subprocess.check_call(["mkdir", "-p", base + "/v/sim"])
    for x in ("src", "Cargo.toml", "Cargo.lock"): subprocess.check_call(["cp", "-a", f"{SIM}/sim/{x}", base + "/v/sim/"])
    subprocess.check_call(["cp", "-a", SIM + "/known-findings.txt", base + "/v/"])
    ct = base + "/v/sim/Cargo.toml"; s = open(ct).read().replace('"/repo/', f'"{base}/repo/'); open(ct, "w").write(s)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_ROOT=base + "/v", CARGO_INCREMENTAL="0")
    env.pop("CARGO_TARGET_DIR", None)
    repo = base + "/repo"
    while True:
        try: name, diff = q.get_nowait()
        except queue.Empty: return
        note = []
        ok = True
        props = ALL
        if mode == "bugs":
            own = json.load(open(f"{ROOT}/seeded/{name}/meta.json"))["property"]
            want = opts.get("props", "own")
            props = [own] if want == "own" else ALL if want == "all" else want.split(",")
            r = sh(["bash", f"{ROOT}/seeded/{name}/demo.sh"], repo, env, 400)
            if r.returncode: ok = False; note.append(f"DEMO-FAILS-CLEAN rc{r.returncode} {r.stdout[-200:]!r}")
        r = sh(["git", "apply", diff], repo, env, 60)
        if r.returncode: ok = False; note.append("DOES-NOT-APPLY")
        r = sh(["cargo", "test", "--workspace", "--lib", "--tests", "--offline", "--", "--test-threads", "4"], repo, env, 400)
        if r.returncode: ok = False; note.append("TESTS-FAIL " + " ".join(l for l in r.stdout.split("\n") if "FAILED" in l or l.startswith("error"))[:300])
        if mode == "bugs":
            r = sh(["bash", f"{ROOT}/seeded/{name}/demo.sh"], repo, env, 400)
            if r.returncode in (0, 2, 124): ok = False; note.append(f"DEMO-ON-BUG rc{r.returncode} {r.stdout[-200:]!r}")
        r = sh(["cargo", "build", "--release", "--offline"], base + "/v/sim", env, 400)
        if r.returncode: ok = False; note.append("SIM-NOBUILD " + r.stdout[-300:])
        hits = []
        for p in props if "SIM-NOBUILD" not in " ".join(note) else []:
            r = sh([base + "/v/sim/target/release/sim", "check", "prop=" + p, "tier=quick", "seed=1", "workers=" + str(max(2, 8 // jobs))], base, env, 900)
            if r.returncode == 1:
                why = [l for l in r.stdout.split("\n") if "class" in l][:1]
                hits.append(p + (" " + why[0].strip()[:160] if why and (mode == "quiet" or p == own) else ""))
            elif r.returncode: hits.append(f"{p}(rc{r.returncode} {r.stdout[-200:]!r})")
        if mode == "quiet":
            if hits: ok = False
        elif not any(h.split(" ")[0] == own for h in hits) and own in props: ok = False; note.append("MISSED")
        sh(["git", "checkout", "-q", "--", "."], repo, env, 60)
        with lock:
            print("ok  " if ok else "BAD ", name, f"[{own}]" if mode == "bugs" else "", "reported by:" if hits else "quiet", *hits, *note, flush=True)
            if not ok: bad.append(name)
try:
    ts = [threading.Thread(target=lane, args=(w,)) for w in range(jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
finally:
    shutil.rmtree(base0, ignore_errors=True)
print(len(bad), "bad:", *bad)
