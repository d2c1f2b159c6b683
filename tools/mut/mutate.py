#!/usr/bin/env python3
"""Mutation sweep: how many small changes of the code under test do the checks notice?

usage: mutate.py <out.jsonl> <workers> <scale> <sample-every> <file>... (paths relative to /repo)
Works on copies under /tmp only. Not part of any registered check.
"""
import sys, re, os, subprocess, json, shutil, threading, queue, random
OUT, WORKERS, SCALE, EVERY = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
FILES = sys.argv[5:]
BASE = "/tmp/mut"
SUBS = [
    (r"==", "!="), (r"!=", "=="), (r"(?<![-=<])>=", "<"), (r"<=(?!>)", ">"), (r" < ", " <= "), (r" > ", " >= "),
    (r"&&", "||"), (r"\|\|(?! *\{)", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
    (r"if !(?=[a-z_(])", "if "), (r"if (?=[a-z_]+[.(])", "if !"), (r"\.is_empty\(\)", ".is_empty() == false"),
    (r"\.rev\(\)", ""), (r"\bmax\b", "min"), (r"\bmin\b", "max"), (r"\.first\(", ".last("), (r"\.last\(", ".first("),
    (r"insert_before", "insert_after"), (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"),
    (r"\bSome\((\w+)\)$", "None"), (r"\.contains\(", ".is_empty() == false && !X.contains("),
    (r"\bcontinue;", "{}"), (r"\bbreak;", "{}"), (r"return;", "{}"), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
    (r"\ba_id\b", "b_id"), (r"\bb_id\b", "a_id"), (r"\ba_opaque\b", "false"), (r"saturating_sub\((\w+)\)", r"saturating_sub(0)"),
    (r"\.is_opaque\(", ".is_root_like("), (r"Ok\(\(\)\)\?", "Ok(())"),
]
def sites(path):
    src = open(f"/repo/{path}").read().split("\n")
    end = len(src)
    for i, l in enumerate(src):
        if l.strip() == "#[cfg(test)]" and i + 1 < len(src) and src[i + 1].strip().startswith("mod "):
            end = i
            break
    depth_skip = False
    out = []
    for i in range(end):
        l = src[i]
        t = l.strip()
        if not t or t.startswith(("//", "#", "use ", "debug!", "trace!", "pub use", "///", "mod ", "pub mod")):
            continue
        code = l.split("//")[0]
        if '"' in code and ("debug" in code or "trace" in code):
            continue
        for pat, rep in SUBS:
            for m in re.finditer(pat, code):
                new = code[: m.start()] + m.expand(rep) + code[m.end():]
                if new != code:
                    out.append((i, new))
        if t.endswith(";") and not t.startswith(("let ", "return", "break", "continue", "pub ", "}", "type ", "const ", ")")) and re.match(r"[\w.*:&]+.*;$", t) and t.count("(") == t.count(")"):
            out.append((i, re.match(r"\s*", l).group(0) + "{}"))
    return src, out
def sh(c, **k):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=k.pop("timeout", 900), **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 124, "", "timeout")
jobs = queue.Queue()
rng = random.Random(7)
allm = []
for f in FILES:
    src, ss = sites(f)
    for k, (i, new) in enumerate(ss):
        allm.append((f, i, src[i], new))
rng.shuffle(allm)
allm = allm[::EVERY]
if os.environ.get("MUT_FROM"):  # only the survivors of an earlier sweep
    keep = {(r["file"], r["line"], r["new"]) for r in map(json.loads, open(os.environ["MUT_FROM"])) if r["res"] == "survived"}
    allm = [m for m in allm if (m[0], m[1] + 1, m[3].strip()) in keep]
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
for m in allm:
    if (m[0], m[1] + 1, m[3].strip()) not in done:
        jobs.put(m)
print(len(allm), "mutants,", jobs.qsize(), "to do", flush=True)
lock = threading.Lock()
A = ["C01", "C07", "C02", "C04", "C03", "C06", "C17", "C05", "C08", "C09"]
B = ["C12", "C18", "C11", "C10", "C13", "C14", "C15", "C16", "C19", "C20"]
def worker(w):
    d = f"{BASE}/w{w}"
    sh(f"mkdir -p {d}")
    sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {d}/repo/ || (rm -rf {d}/repo && cp -a /repo {d}/repo)")
    sh(f"rm -rf {d}/verif && mkdir -p {d}/verif")
    sh(f"cp -a /verif/treesim /verif/worldb /verif/simcore /verif/run.sh /verif/known-findings.json {d}/verif/")
    sh(f"grep -rl --include=Cargo.toml --include=build.rs '/repo/' {d}/verif | xargs sed -i 's#/repo/#{d}/repo/#g'")
    env = dict(os.environ, VERIF_SCALE=SCALE, VERIF_WORKERS="2", VERIF_SEED="1", VERIF_CAP_S="120", CARGO_BUILD_JOBS="2", CARGO_INCREMENTAL="1", CARGO_PROFILE_RELEASE_DEBUG="0", VERIF_MINIMISE_S="1")
    while True:
        try: f, i, old, new = jobs.get_nowait()
        except queue.Empty: return
        src = open(f"/repo/{f}").read().split("\n")
        src[i] = new
        open(f"{d}/repo/{f}", "w").write("\n".join(src))
        res, by = "survived", None
        cin = f.startswith("cinereus")
        if res == "survived":
            for c in (os.environ["MUT_CHECKS"].split(",") if os.environ.get("MUT_CHECKS") else A + B if cin else B):
                r = sh(f"cd {d}/verif && timeout 400 bash run.sh check {c}", env=env, timeout=500)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    cls = [l for l in r.stdout.splitlines() if "class" in l or "VIOL" in l]
                    res, by = "killed", c; break
                if r.returncode == 3 and "does not build" in r.stderr: res = "nocompile"; break
                if r.returncode not in (0, 1): res, by = f"noanswer{r.returncode}", c; break
        with lock:
            open(OUT, "a").write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), res=res, by=by)) + "\n")
        shutil.copy(f"/repo/{f}", f"{d}/repo/{f}")
ts = [threading.Thread(target=worker, args=(w,)) for w in range(WORKERS)]
[t.start() for t in ts]; [t.join() for t in ts]
