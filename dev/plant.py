#!/usr/bin/env python3
"""Development aid: make and confirm planted bugs. Not used by any check.

  dev/plant.py make SPEC.py [id...]   writes seeded/<id>/ from P = [dict(id, property, needs, breaks, edits, demo, pkg, race)]
  dev/plant.py confirm [id...]        patch applies, builds, stable tests pass, demo 0 without / nonzero with, base lines changed
  dev/plant.py table                  writes the table in DESIGN.md from dev/caught.json
  dev/plant.py check [id...]          runs the property's check against the patched copy
"""
import sys, os, json, subprocess, shutil, tempfile, re, difflib, importlib.util, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
BASE = "902c88a"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO = '''#!/bin/sh
# Run with cwd = the repository. Exit 0: the property holds in this scenario.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
for f in "$d"/*_test.go; do
  l="$l${l:+,}\\"$PWD/%(pkg)szz_$(basename "$f")\\":\\"$f\\""
done
printf '{"Replace":{%%s}}' "$l" >"$t/overlay.json"
TMPDIR="$t" go test %(race)s-vet=off -count=1 -timeout %(timeout)ds -overlay "$t/overlay.json" -run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=k.pop("env", ENV), capture_output=True, text=True, **k)
def make(p):
    d = f"{V}/seeded/{p['id']}"; os.makedirs(d, exist_ok=True)
    out, files = "", {}
    for f, o, n in p["edits"]:
        s = files.get(f) or (open(f"/repo/{f}").read(),) * 2
        assert s[1].count(o) >= 1, (p["id"], f, o)
        assert s[1].count(o) == 1 or p.get("first"), ("ambiguous", p["id"], o)
        files[f] = (s[0], s[1].replace(o, n, 1))
    for f, (a, b) in files.items():
        t = tempfile.mkdtemp()
        for x, s in (("a", a), ("b", b)):
            os.makedirs(os.path.dirname(f"{t}/{x}/{f}"), exist_ok=True); open(f"{t}/{x}/{f}", "w").write(s)
        r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True).stdout
        out += re.sub(r"^(---|\+\+\+) (\S+)\t.*$", r"\1 \2", r, flags=re.M); shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(out)
    pkg = p.get("pkg", "")
    if pkg: pkg += "/"
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, race="-race " if p.get("race") else "", timeout=p.get("timeout", 120)))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(p["demo"].lstrip())
    json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
def copy(): 
    t = tempfile.mkdtemp(prefix="plant-"); subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True); return t
def demo(i, r, t):
    # The folder lies elsewhere and has no patch when it counts.
    e = f"{t}/demo"; shutil.copytree(f"{V}/seeded/{i}", e, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try: return sh(["sh", e + "/demo.sh"], r, timeout=300, env=dict(os.environ))
    finally: shutil.rmtree(e)
def confirm(i):
    t = copy(); r = t + "/repo"; bad = []
    try:
        x = demo(i, r, t)
        if x.returncode: bad.append("demo fails on the unchanged tree: " + (x.stdout + x.stderr)[-1500:])
        # lines of the original repository
        orig = False
        f = None
        for l in open(f"{V}/seeded/{i}/patch.diff"):
            if l.startswith("--- a/"): f = l[6:].strip()
            m = re.match(r"@@ -(\d+)", l)
            if m: n = int(m.group(1)); continue
            if l.startswith(("---", "+++")): continue
            if l.startswith("-"):
                b = sh(["git", "blame", "-s", f"-L{n},{n}", f], "/repo").stdout
                if BASE[:6] in b.split()[0] and len(l.strip()) > 1: orig = True
                n += 1
            elif l.startswith(" "): n += 1
        if not orig: bad.append("changes no line of the original repository")
        x = sh(["git", "apply", f"{V}/seeded/{i}/patch.diff"], r)
        if x.returncode: return i, "does not apply " + x.stderr
        x = sh(["go", "build", "./..."], r)
        if x.returncode: return i, "does not build " + x.stderr[-600:]
        for k in range(2):
            x = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "60s", "./..."], r)
            ok = set()
            for l in x.stdout.splitlines():
                try: e = json.loads(l)
                except Exception: continue
                if e.get("Action") in ("pass", "skip") and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
            miss = [s for s in STABLE if s not in ok]
            if miss: bad.append("stable tests fail: " + " ".join(miss[:5]))
        for k in range(3):
            x = demo(i, r, t)
            if x.returncode == 0: bad.append(f"demo passes with the patch (run {k})"); break
        else: tail = "\n".join(l for l in x.stdout.splitlines() if l.strip())[:500]
        x = sh(["git", "checkout", "--", "."], r)
        for k in range(3):
            x = demo(i, r, t)
            if x.returncode: bad.append("demo flaky on the unchanged tree: " + x.stdout[-600:]); break
        return i, "; ".join(bad) or "confirmed\n      " + tail.replace("\n", "\n      ")
    finally: shutil.rmtree(t, ignore_errors=True)
def check(i):
    t = copy(); r = t + "/repo"
    try:
        sh(["git", "apply", f"{V}/seeded/{i}/patch.diff"], r)
        p = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        out = ""
        x = subprocess.run([V + "/check", p], env=dict(ENV, VERIF_REPO=r, VERIF_OUTDIR=t, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
        keys = [l for l in x.stdout.splitlines() if l.startswith("--- ")]
        with LOCK:
            f = V + "/dev/caught.json"
            c = json.load(open(f)) if os.path.exists(f) else {}
            c[i] = p + (": " + ", ".join(dict.fromkeys(k.split()[1] for k in keys)) if x.returncode == 1 else f" MISSED (exit {x.returncode})")
            json.dump(dict(sorted(c.items())), open(f, "w"), indent=1)
        return i, f"{p} rc={x.returncode} " + " | ".join(k[:200] for k in keys[:3]) + ("" if x.returncode in (0, 1) else x.stdout[-800:])
    finally: shutil.rmtree(t, ignore_errors=True)
def table():
    c = json.load(open(V + "/dev/caught.json"))
    rows = "".join(f"| {i} | {c.get(i, 'not run')} |\n" for i in sorted(os.listdir(V + "/seeded")))
    d = open(V + "/DESIGN.md").read()
    a = d.index("| bug | check reports |\n|---|---|\n") + len("| bug | check reports |\n|---|---|\n")
    b = d.index("\n\n", a)
    open(V + "/DESIGN.md", "w").write(d[:a] + rows.rstrip("\n") + d[b:])
LOCK = __import__("threading").Lock()
cmd, args = sys.argv[1], sys.argv[2:]
if cmd == "table": table()
elif cmd == "make":
    s = importlib.util.spec_from_file_location("p", args[0]); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    ids = [p["id"] for p in m.P if not args[1:] or any(a in p["id"] for a in args[1:])]
    for p in m.P:
        if p["id"] in ids: make(p)
    print("made", *ids)
else:
    ids = [i for i in sorted(os.listdir(V + "/seeded")) if not args or any(a in i for a in args)]
    with cf.ThreadPoolExecutor(4 if cmd == "confirm" else 2) as ex:
        for i, o in ex.map({"confirm": confirm, "check": check}[cmd], ids): print(f"{i}: {o}", flush=True)
