#!/usr/bin/env python3
"""leafs.py FILE [name...]: the Kani harnesses that each edit of FILE names, run on a copy of /repo.  For development; no check runs it."""
import os, re, runpy, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("WORK", "/tmp/w/leafs")
for name, edits, hs in runpy.run_path(sys.argv[1])["E"]:
    if len(sys.argv) > 2 and name not in sys.argv[2:]:
        continue
    os.makedirs(W, exist_ok=True)
    shutil.rmtree(W + "/src", ignore_errors=True)
    shutil.copytree("/repo/src", W + "/src")
    for x in ("Cargo.toml", "Cargo.lock", "rust-toolchain.toml", "rustfmt.toml"):
        if os.path.exists("/repo/" + x):
            shutil.copy("/repo/" + x, W)
    shutil.copytree("/repo/tests", W + "/tests", dirs_exist_ok=True)
    bad = False
    for f, old, new in edits:
        p = f"{W}/src/{f}"
        t = open(p).read()
        if old not in t:
            print(name, "DOES NOT APPLY", f)
            bad = True
        open(p, "w").write(t.replace(old, new, 1))
    if bad:
        continue
    c = subprocess.run(["cargo", "test", "-q", "--offline", "--all-features", "--target-dir", W + "/t"], cwd=W, capture_output=True, text=True)
    if c.returncode:
        print(name, "TESTS FAIL", c.stderr[-1500:])
        continue
    t0 = time.time()
    cmd = ["cargo", "kani", "--features", "serde", "-Z", "stubbing", "--target-dir", W + "/k", "--output-format", "terse", "-j", "4", "--exact"]
    for h in hs:
        cmd += ["--harness", h]
    try:
        k = subprocess.run(cmd, cwd=W, capture_output=True, text=True, timeout=800, env=dict(os.environ, NRBF_VERIF_HOOK=ROOT + "/kani", CARGO_NET_OFFLINE="true"))
        o = k.stdout
    except subprocess.TimeoutExpired:
        o = "TIMEOUT"
    print(name, f"{time.time() - t0:.0f}s", re.findall(r"Failed Checks: .*|VERIFICATION:- \w+|error.*|TIMEOUT", o)[:8], flush=True)
