#!/usr/bin/env python3
"""Verify planted bugs in scratch copies, several at a time.
usage: vb.py [-j N] [-c own|C01,C02,...] [-d DIR] id...     (DIR holds <id>/patch.diff, demo.sh, meta.json)
Each slot sees its own copies under /repo, /verif and /opt/vp (user namespace with bind mounts)."""
import sys, os, subprocess, json, queue, threading, argparse
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=4); ap.add_argument("-c", default="own"); ap.add_argument("-d", default="/verif/seeded")
ap.add_argument("--scale", default=""); ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(a.d))
q = queue.Queue(); [q.put(i) for i in ids]
B = "/tmp/vb"; lock = threading.Lock()
def sh(c, t=1200):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, "", "timeout")
def worker(w):
    d = f"{B}/s{w}"; os.makedirs(d, exist_ok=True)
    sh(f"mkdir -p {d}/repo {d}/verif {d}/vp; rsync -a --delete --exclude target /repo/ {d}/repo/ && git -C {d}/repo checkout -q -- . ; rsync -a --delete --exclude /target --exclude seeded --exclude .git --exclude out --exclude evidence /verif/ {d}/verif/; mkdir -p {d}/verif/out {d}/verif/evidence; rsync -a /opt/vp/ {d}/vp/")
    def ns(c, t=1200):
        e = f"VERIF_SEED=1 VERIF_TIER=quick VERIF_WORKERS=3 CARGO_BUILD_JOBS=3 " + (f"VERIF_SCALE={a.scale} " if a.scale else "")
        return sh(f"unshare -Urm bash -c 'mount --bind {d}/repo /repo; mount --bind {d}/verif /verif; mount --bind {d}/vp /opt/vp; cd /repo; export {e}; {c}'", t)
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        sh(f"git -C {d}/repo checkout -q -- .")
        sh(f"rm -rf {d}/demo && cp -a {a.d}/{i} {d}/demo")
        prop = json.load(open(f"{d}/demo/meta.json"))["property"]
        ap_ = sh(f"git -C {d}/repo apply {d}/demo/patch.diff")
        if ap_.returncode: print(i, "DOES NOT APPLY", ap_.stderr[:300]); continue
        sh(f"git -C {d}/repo checkout -q -- .")
        clean = ns(f"bash {d}/demo/demo.sh")
        sh(f"git -C {d}/repo apply {d}/demo/patch.diff")
        t = ns("bash /opt/vp/build.sh >/dev/null 2>&1; echo build=$?; bash /opt/vp/test.sh /tmp/vb/t%d.json" % w)
        ok = "test result: FAILED" not in t.stdout and "build=0" in t.stdout and t.stdout.count("test result: ok") >= 2
        bad = ns(f"bash {d}/demo/demo.sh")
        res = []
        for c in a.c.split(","):
            if not c: continue
            c = prop if c == "own" else c
            r = ns(f"cd /verif && timeout 900 bash run.sh check {c}")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOL")]
            res.append((c, r.returncode, (v or (r.stdout+r.stderr).splitlines()[-3:])[:1]))
        sh(f"git -C {d}/repo checkout -q -- .")
        with lock:
            flag = "OK " if ok and clean.returncode == 0 and bad.returncode not in (0, 98, 99) else "BAD"
            print(flag, i, prop, "tests", ok, "clean", clean.returncode, "patched", bad.returncode, "| checks", [(c, rc) for c, rc, _ in res], flush=True)
            if clean.returncode: print("   CLEAN:", (clean.stdout + clean.stderr)[-1200:])
            if bad.returncode in (0, 98, 99): print("   PATCHED:", (bad.stdout + bad.stderr)[-1200:])
            else: print("   ", bad.stderr.strip().replace("\n", " ")[:160])
            if not ok: print("   TESTS", t.stdout[-600:])
            for c, rc, v in res:
                if rc != 1 and (c == prop): print("   MISSED", c, rc, v)
                elif rc == 1: print("   ", c, v)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
