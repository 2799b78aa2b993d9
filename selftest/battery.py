#!/usr/bin/env python3
"""battery.py FILE [name...]: applies each edit of FILE (a list E of (name, [(path, old, new), ...])), or each DIR/*/patch.diff, to a copy of
/repo/src and shows which Verus obligations fail or are lost (SERDE=1: of the deserializers).  For development; no check runs it."""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan, verusrun
plan.OWN["ALL"] = [r"."]
if os.environ.get("SERDE"):
    plan.PLAN["ALL"] = {"verus": "serde"}
subprocess.run(["cargo", "build", "-q", "--offline", "--manifest-path", ROOT + "/extract/Cargo.toml", "--target-dir", ROOT + "/build/extract"], check=True)
EXE = ROOT + "/build/extract/debug/nrbf-extract"

def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return None, ""

def one(e):
    name, edits = e
    d = tempfile.mkdtemp(prefix="bat-")
    try:
        shutil.copytree("/repo/src", d + "/src")
        if isinstance(edits, str):
            subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d, edits], check=True, cwd="/")
            edits = []
        for f, old, new in edits:
            p = f"{d}/src/{f}"
            t = open(p).read()
            if t.count(old) < 1:
                return f"{name}: EDIT DOES NOT APPLY: {f}: {t.count(old)} x {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        if os.environ.get("BUILD"):
            shutil.copy("/repo/Cargo.toml", d); shutil.copy("/repo/Cargo.lock", d) if os.path.exists("/repo/Cargo.lock") else None
            r = subprocess.run(["cargo", "check", "-q", "--offline", "--features", "serde", "--target-dir", ROOT + "/build/battery"], cwd=d, capture_output=True, text=True)
            if r.returncode:
                return f"{name}: DOES NOT COMPILE: " + r.stderr[:1500]
        units, extra = verusrun.go(ROOT, d, "ALL", run, "quick", ROOT + "/verus", EXE, d, 0, "")
        bad = [f"  {u['status']} {u['name']}: {u['detail'][:int(os.environ.get('W', '300'))]}" for u in units if u["status"] != "ok"]
        return f"{name}: " + ("ok" if not bad else "\n" + "\n".join(bad))
    finally:
        shutil.rmtree(d, ignore_errors=True)

if os.path.isdir(sys.argv[1]):   # patches: DIR/*/patch.diff
    E = [(n, os.path.abspath(f"{sys.argv[1]}/{n}/patch.diff")) for n in sorted(os.listdir(sys.argv[1])) if n.startswith(("C11", "C13", "C15")) == bool(os.environ.get("SERDE"))]
else:
    E = runpy.run_path(sys.argv[1])["E"]
if sys.argv[2:]:
    E = [e for e in E if e[0] in sys.argv[2:]]
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for r in ex.map(one, E):
        print(r, flush=True)
