#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /repo's current tree.

1. deductive part: Kani contracts on the real leaf functions (harnesses in kani/, compiled
   into the crate through the cfg(kani) hook) and Verus contracts on the functions extracted
   from /repo's source on this run (extract/, verus/).
2. counterexample search: the real crate, built from /repo, against the reference decoder in
   harness/.  It supplies the failing input for a violation, and it is the labelled bounded
   stand-in where the deductive part cannot be applied to the current text.

Exit 0 (held) or 1 (VIOLATION line).
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NRBF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, SAFETY_ONLY, KANI_NOTE, VERUS_NOTE, TRUSTED  # noqa: E402

PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
P = PLAN[PROP]
T0 = time.time()

ENV = dict(os.environ)
ENV.update(
    HOME="/root",
    PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", ""),
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
    CARGO_INCREMENTAL="0",
    NRBF_VERIF_HOOK=os.path.join(ROOT, "kani"),
)
for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, mem_gb=None, env=None, cwd=None):
    """Runs a command in its own process group; returns (rc or None on timeout, output)."""

    def pre():
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))

    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env=env or ENV, cwd=cwd, start_new_session=True, preexec_fn=pre)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        f.seek(0)
        return rc, f.read().decode("utf-8", "replace")


class Lock:
    """One build of a kind at a time, if several checks are started at once."""

    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


# ---------------------------------------------------------------- counterexample search

def forget_freshness(target):
    """cargo compares modification times only, so forget that nrbf is up to date."""
    for d in (target,):
        for dp, dn, fn in os.walk(d):
            if os.path.basename(dp) == ".fingerprint":
                for n in list(dn):
                    if n.startswith("nrbf-"):
                        shutil.rmtree(os.path.join(dp, n), ignore_errors=True)
                dn[:] = []


def build_search():
    target = os.path.join(BUILD, "harness")
    with Lock("harness"):
        forget_freshness(target)
        rc, out = run(["cargo", "build", "--offline", "--manifest-path", os.path.join(ROOT, "harness/Cargo.toml"),
                       "--target-dir", target], 500)
    exe = os.path.join(target, "debug/nrbf-replay")
    if rc != 0 or not os.path.exists(exe):
        return None, out
    return exe, out


class Search:
    def __init__(self):
        self.result = {"evaluations": 0, "accepted": 0, "distinct": 0, "samples": [], "seeds": []}
        self.violation = None
        self.error = None

    def go(self, exe, workers, ms):
        tmp = tempfile.mkdtemp(prefix="nrbf-")
        try:
            procs = []
            for w in range(workers):
                case = os.path.join(tmp, f"case{w}")
                seed = SEED + 1000 * w
                th = threading.Thread(target=self.one, args=(exe, seed, ms, case))
                th.start()
                procs.append(th)
            for th in procs:
                th.join()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def one(self, exe, seed, ms, case):
        rc, out = run([exe, "search", PROP, str(seed), str(ms), case], ms / 1000 + 120, mem_gb=6)
        line = (out.strip().splitlines() or [""])[-1]
        try:
            r = json.loads(line)
        except ValueError:
            r = None
        if rc == 0 and r and "evaluations" in r:
            for k in ("evaluations", "accepted", "distinct"):
                self.result[k] += r[k]
            self.result["samples"] += r["samples"][:2]
            self.result["seeds"].append(seed)
        elif r and "mismatch" in r:
            h = r["case"] or open(case, "rb").read().hex()
            self.report(h, r["mismatch"])
        elif rc is None:
            # the machine is too busy: the program itself reports a call that does not end, by its CPU time
            self.result["unfinished"] = self.result.get("unfinished", 0) + 1
        else:
            # crashed or ran out of memory: the current case is in the file
            try:
                h = open(case, "rb").read().hex()
            except OSError:
                h = None
            what = f"the parser crashed (exit status {rc})"
            if h is not None and self.crashes(exe, h):
                self.report(h, what)
            else:
                self.error = f"search seed {seed}: {what}, not reproduced: {out[-300:]}"

    def crashes(self, exe, h):
        with tempfile.NamedTemporaryFile() as f:
            f.write(bytes.fromhex(h))
            f.flush()
            rc, out = run([exe, "replay", PROP, "@" + f.name], 200, mem_gb=6)
        return rc not in (0, None)

    def report(self, case_hex, what):
        if self.violation is None or len(case_hex) < len(self.violation[0]):
            self.violation = (case_hex, what)


# ---------------------------------------------------------------- deductive part: Kani

# a failed check of one of these kinds means that the tool cannot decide, not that the contract is broken
TOOL_LIMIT = re.compile(r"unwinding assertion|not currently supported|unsupported|unimplemented|recursion unwinding", re.I)


def kani(names):
    """Returns units: {name, status ok|failed|lost, obligations, discharged, time, detail}."""
    if not names:
        return []
    target = os.path.join(BUILD, "kani")
    cmd = ["cargo", "kani", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--features", "serde",
           "-Z", "stubbing", "--target-dir", target, "--output-format", "terse", "-j", "8", "--exact"]
    for n in names:
        cmd += ["--harness", n]
    with Lock("kani"):
        rc, out = run(cmd, 700 if TIER == "quick" else 3000)
    units = {n: dict(name=n, backend="kani/cbmc", status="lost", obligations=0, discharged=0, time=0.0,
                     detail="no result (build error, time limit or missing harness)") for n in names}
    cur = {}
    who = None
    for line in out.splitlines():
        m = re.match(r"Thread (\d+): ?(.*)", line)
        if m:
            who = m.group(1)
            line = m.group(2)
        m = re.match(r"Checking harness (\S+?)\.\.\.", line)
        if m:
            cur[who] = m.group(1)
            continue
        u = units.get(cur.get(who))
        if u is None:
            continue
        m = re.search(r"\*\* (\d+) of (\d+) failed", line)
        if m:
            u["obligations"] = int(m.group(2))
            u["discharged"] = int(m.group(2)) - int(m.group(1))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            u["covers"] = [int(m.group(1)), int(m.group(2))]
        m = re.match(r"\s*Failed Checks: (.*)", line)
        if m:
            u.setdefault("failed", []).append(m.group(1))
        m = re.match(r"\s*File: (.*)", line)
        if m and u.get("failed"):
            u["failed"][-1] += " (" + m.group(1).strip() + ")"
        if "VERIFICATION:- SUCCESSFUL" in line:
            u["status"], u["detail"] = "ok", ""
        if "VERIFICATION:- FAILED" in line:
            u["status"] = "failed"
        m = re.search(r"Verification Time: ([\d.]+)s", line)
        if m:
            u["time"] = float(m.group(1))
    for u in units.values():
        if u["status"] == "failed":
            f = u.get("failed", [])
            u["detail"] = "; ".join(f)
            if PROP in SAFETY_ONLY and f and all(os.path.join(ROOT, "kani") in x for x in f):
                # a wrong value, which is not what this property speaks of, and no panic
                u["status"] = "lost"
                u["detail"] = "contract not met, without a panic: " + u["detail"]
            if not f or all(TOOL_LIMIT.search(x) for x in f) or any("unwinding" in x for x in f):
                u["status"] = "lost"
                u["detail"] = "tool limit: " + u["detail"]
        if u["status"] == "ok":
            if u["obligations"] == 0:
                u["status"], u["detail"] = "lost", "no obligations"
            elif u.get("covers") and u["covers"][0] == 0:
                u["status"], u["detail"] = "lost", "vacuous: no cover satisfied"
    if rc is None or any(u["status"] == "lost" for u in units.values()):
        errs = re.findall(r"^error.*(?:\n.+){0,6}", out, re.M)
        for u in units.values():
            if u["status"] == "lost" and errs:
                u["detail"] += " | " + errs[0][:600]
    global KANI_LOG
    KANI_LOG = out
    return list(units.values())


KANI_LOG = ""


# ---------------------------------------------------------------- deductive part: Verus

def verus(on):
    if not on:
        return [], {}
    from verusrun import run_verus
    return run_verus(ROOT, REPO, BUILD, PROP, run, Lock, TIER)


# ---------------------------------------------------------------- known findings (C01)

def known_findings(exe):
    path = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(path):
        return
    for line in open(path):
        m = re.match(r"finding: property=(\S+) probe=\[(.*?)\] (.*)", line.strip())
        if not m or m.group(1) != PROP:
            continue
        rc, out = run([exe] + m.group(2).split(), 60, mem_gb=8)
        if rc != 0:
            log(f"KNOWN-FINDING: property={PROP} {m.group(3)}")
        else:
            log(f"note: the known finding `{m.group(2)}` no longer fails")


# ---------------------------------------------------------------- main

def main():
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    quick = TIER != "thorough"
    exe, build_out = build_search()
    s = Search()
    units, extra = [], {}

    def deductive():
        nonlocal units, extra
        vu, extra = verus(P.get("verus"))
        units += vu
        units += kani(P.get("kani", []))

    def searching():
        if exe is None:
            return
        heavy = bool(P.get("kani"))
        s.go(exe, (3 if heavy else 5) if quick else 6, (P.get("ms", 20000)) if quick else 240000)

    ts = [threading.Thread(target=deductive), threading.Thread(target=searching)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    failed = [u for u in units if u["status"] == "failed"]
    lost = [u for u in units if u["status"] == "lost"]
    oblig = sum(u["obligations"] for u in units)
    disch = sum(u["discharged"] for u in units if u["status"] in ("ok", "failed"))
    for u in units:
        log(f"{u['backend']} {u['name']}: {u['status']} {u['discharged']}/{u['obligations']} obligations "
            f"{u['time']:.1f}s {u['detail'][:400]}")
    if exe is None:
        log("the counterexample search could not be built: " + build_out[-1500:])
    log("search: " + json.dumps({k: v for k, v in s.result.items() if k != 'samples'}))
    if s.error:
        log("search: " + s.error)

    replay = os.path.join(ROOT, "evidence", "replay", f"{PROP}.txt")
    violations = 0
    status = 0
    if s.violation:
        violations = 1
        case, what = s.violation
        with open(replay, "w") as f:
            f.write(f"property {PROP}\nfailing input (hex): {case}\nwhat fails: {what}\n"
                    f"replay with: {exe} replay {PROP} {case if len(case) < 4000 else '(hex above)'}\n")
            for u in failed:
                f.write(f"failed obligation: {u['backend']} {u['name']}: {u['detail']}\n")
        log("failing input: " + case[:400])
        log("what fails: " + what[:1000])
        log(f"VIOLATION property={PROP} replay={replay}")
        status = 1
    elif failed:
        violations = len(failed)
        with open(replay, "w") as f:
            f.write(f"property {PROP}\nno failing input found by the search: {json.dumps(s.result)}\n")
            for u in failed:
                f.write(f"\nfailed obligation: {u['backend']} {u['name']}: {u['detail']}\n{u.get('output', '')}\n")
            f.write("\n" + KANI_LOG[-20000:])
        log(f"VIOLATION property={PROP} replay={replay} no-failing-input-found")
        status = 1
    elif lost or exe is None:
        log("BOUNDED: " + ", ".join(u["name"] for u in lost) +
            " could not be decided deductively on this tree; the bounded search stands in and is quiet")

    if exe is not None and status == 0:
        known_findings(exe)

    proved = not lost and not failed and units
    cov = {
        "obligations": oblig,
        "discharged": disch,
        "checker_cmd": extra.get("cmd") or
        "NRBF_VERIF_HOOK=/verif/kani cargo kani --manifest-path /repo/Cargo.toml --features serde -Z stubbing --exact --harness ...",
        "trusted_base": TRUSTED + extra.get("trusted", []),
        "evaluations": s.result["evaluations"],
        "distinct_nontrivial": s.result["distinct"],
        "rule": "seeded generator of messages for this property, run through the real crate and the reference decoder; "
                "a case is non-trivial when it is distinct",
        "samples": s.result["samples"][:6],
        "functions_under_contract": extra.get("functions", []) + [u["name"] for u in units if u["backend"].startswith("kani")],
        "units": [{k: v for k, v in u.items() if k not in ("output",)} for u in units],
        "solver_time_s": round(sum(u["time"] for u in units), 2),
        "fully_proved_on_this_run": bool(proved),
        "bounded_stand_ins": [u["name"] for u in lost],
    }
    cov.update(extra.get("coverage", {}))
    ev = {
        "property": PROP, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
        "level": P["level"],
        "coverage": cov,
        "assumptions": P.get("assumptions", []) + (KANI_NOTE if P.get("kani") else []) + (VERUS_NOTE if P.get("verus") else []),
        "wall_s": round(time.time() - T0, 2),
        "violations": violations,
    }
    if P["level"] == "other":
        cov["explanation"] = P["level_note"]
    with open(os.path.join(ROOT, "evidence", f"{PROP}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{PROP}: {'held' if status == 0 else 'VIOLATED'} in {time.time() - T0:.0f}s")
    if lost and status == 0 and os.environ.get("NRBF_STRICT"):
        status = 3  # for development: nothing may be lost on the unchanged tree
    sys.exit(status)


main()
