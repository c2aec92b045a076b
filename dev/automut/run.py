#!/usr/bin/env python3
"""Development aid: which mechanical mutants survive the existing tests, and then the checks.

  run.py tests  MUTANTS.jsonl SURVIVORS.jsonl [workers]
  run.py checks SURVIVORS.jsonl RESULT.jsonl [start [step]]   (RESULT is appended to, done mutants are skipped)
"""
import sys, os, json, subprocess, shutil, tempfile, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOCACHE=os.environ.get("AMCACHE", "/tmp/amcache"))
CHECKS = [
 ("antcache/disk.go", "C25 C27 C26 C24 C32 C30"), ("antcache/memstore.go", "C19 C30"),
 ("antcache/aggressive.go", "C23 C19"), ("antcache/cachereader.go", "C19 C20 C22"),
 ("antcache/rfc7234.go", "C20 C21 C22 C19"), ("antcache/directives.go", "C20 C21 C22 C23"),
 ("antcache/", "C19 C22 C20 C21 C23 C32 C30"),
 ("antcdp/", "C28 C29 C32 C30"), ("dedupe.go", "C11 C01 C30"), ("queue.go", "C10 C02 C03 C01 C34 C30"),
 ("engine.go", "C01 C34 C02 C03 C04 C05 C06 C08 C14 C13 C07 C30"), ("fetcher.go", "C12 C31 C13 C14 C01"),
 ("internal/normalize/", "C09 C11 C01 C05"), ("internal/robots/", "C05 C06 C02 C13 C30"),
 ("internal/scan/", "C17 C16 C18 C15 C30"), ("internal/selectors/", "C16 C30"), ("json.go", "C18 C30"),
 ("anttest/", "C33"), ("limiters.go", "C07"), ("matchers.go", "C08"), ("list.go", "C16"), ("page.go", "C15 C31 C16 C13 C30"), ("ant.go", "C12 C13 C31 C01"),
]
def pkgs(f):
    if f.startswith("antcache"): return ["./antcache"]
    if f.startswith("antcdp"): return ["./antcdp"]
    if f.startswith("internal"): return ["./" + os.path.dirname(f), "."]
    return ["."]
def apply(root, m):
    s = open("/repo/" + m["file"], "rb").read()
    open(f"{root}/{m['file']}", "wb").write(s[:m["off"]] + m["new"].encode() + s[m["end"]:])
def undo(root, m): shutil.copy("/repo/" + m["file"], f"{root}/{m['file']}")
def tests(src, dst, n):
    q = queue.Queue(); [q.put(json.loads(l)) for l in open(src)]
    out = open(dst, "w"); lock = threading.Lock(); cnt = {"build": 0, "killed": 0, "alive": 0}
    def work():
        d = tempfile.mkdtemp(prefix="am-"); r = d + "/repo"; subprocess.run(["cp", "-a", "/repo", r], check=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            apply(r, m)
            b = subprocess.run(["go", "build", "./..."], cwd=r, env=ENV, capture_output=True)
            if b.returncode: k = "build"
            else:
                try:
                    t = subprocess.run(["go", "test", "-vet=off", "-timeout", "25s"] + pkgs(m["file"]), cwd=r, env=ENV, capture_output=True, timeout=90)
                    k = "killed" if t.returncode else "alive"
                except subprocess.TimeoutExpired: k = "killed"
            undo(r, m)
            with lock:
                cnt[k] += 1
                if k == "alive": out.write(json.dumps(m) + "\n"); out.flush()
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work) for _ in range(n)]; [t.start() for t in ts]; [t.join() for t in ts]
    print(cnt)
def checks(src, dst, start=0, step=1):
    done = set()
    if os.path.exists(dst):
        for l in open(dst):
            m = json.loads(l); done.add((m["file"], m["off"], m["end"], m["new"]))
    ms = [json.loads(l) for l in open(src)][start::step]
    d = tempfile.mkdtemp(prefix="am-"); r = d + "/repo"; subprocess.run(["cp", "-a", "/repo", r], check=True)
    try:
        for m in ms:
            if (m["file"], m["off"], m["end"], m["new"]) in done: continue
            apply(r, m); res = []
            env = dict(ENV, VERIF_REPO=r, VERIF_OUTDIR=d)
            for p in next(c for f, c in CHECKS if m["file"].startswith(f)).split()[:int(os.environ.get("AMDEPTH", "9"))]:
                c = subprocess.run([VERIF + "/check", p], env=env, capture_output=True, text=True)
                res.append((p, c.returncode, next((l[:200] for l in c.stdout.splitlines() if l.startswith("--- ")), "") or (c.stdout[-300:] if c.returncode not in (0, 1) else "")))
                if c.returncode: break
            undo(r, m)
            with open(dst, "a") as f: f.write(json.dumps(dict(m, res=res)) + "\n")
    finally: shutil.rmtree(d, ignore_errors=True)
if sys.argv[1] == "tests": tests(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 6)
else: checks(sys.argv[2], sys.argv[3], *map(int, sys.argv[4:]))
