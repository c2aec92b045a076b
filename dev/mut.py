#!/usr/bin/env python3
"""Development aid: apply text mutations to scratch copies of /repo and see which checks notice.

  dev/mut.py FILE.py [name...]   FILE.py defines M = [(name, [props], file, old, new), ...]
                                 (file/old/new may be lists of equal length)
Not used by any check.
"""
import sys, os, subprocess, shutil, tempfile, concurrent.futures as cf, importlib.util
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def load(p):
    s = importlib.util.spec_from_file_location("m", p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m.M
def one(m):
    name, props, files, olds, news = m
    if isinstance(files, str): files = [files]
    if isinstance(olds, str): olds, news = [olds], [news]
    if len(files) == 1: files = files * len(olds)
    d = tempfile.mkdtemp(prefix="mut-"); r = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        for f, o, n in zip(files, olds, news):
            s = open(f"{r}/{f}").read()
            if s.count(o) < 1: return name, "NOT APPLICABLE: " + o
            open(f"{r}/{f}", "w").write(s.replace(o, n, 1))
        env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", VERIF_REPO=r, VERIF_OUTDIR=d)
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode: return name, "DOES NOT BUILD " + b.stderr[-300:]
        t = subprocess.run(["go", "test", "-vet=off", "-timeout", "60s", "./..."], cwd=r, env=env, capture_output=True, text=True)
        out = "tests " + ("pass" if t.returncode == 0 else "FAIL")
        for p in props:
            c = subprocess.run([VERIF + "/check", p], env=env, capture_output=True, text=True)
            keys = [l for l in c.stdout.splitlines() if l.startswith("--- ")]
            out += f"\n    {p}: rc={c.returncode} " + " | ".join(k[:160] for k in keys[:3]) + ("" if c.returncode in (0,1) else c.stdout[-800:])
        return name, out
    finally:
        shutil.rmtree(d, ignore_errors=True)
ms = load(sys.argv[1])
if sys.argv[2:]: ms = [m for m in ms if any(a in m[0] for a in sys.argv[2:])]
with cf.ThreadPoolExecutor(2) as ex:
    for name, out in ex.map(one, ms): print(f"{name}: {out}", flush=True)
