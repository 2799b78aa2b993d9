#!/usr/bin/env python3
"""mutate.py OUT [filter-regex]: textual mutants of /repo/src, each judged by the existing tests, the obligations (Verus,
both files) and the search.  For development; no check runs it.  OUT gets one line per mutant."""
import json, os, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan, verusrun
plan.OWN["PALL"] = plan.OWN["SALL"] = [r"."]
plan.PLAN["SALL"] = {"verus": "serde"}
plan.PLAN["PALL"] = {"verus": True}
EXE = ROOT + "/build/extract/debug/nrbf-extract"
WORK = os.environ.get("WORK", "/tmp/w/mutate")
PROPS = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C16".split()
SPROPS = "C11 C13 C15".split()

SUB = [
    (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "),
    (r"&&", "||"), (r"\|\|(?! *[a-z{(]*\))", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \+= 1", " += 2"),
    (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"), (r"!(\w)", r"\1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bif (?!let)(.*) \{", r"if !(\1) {"), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\bopt\(", "cut("), (r"nom::Err::Failure", "nom::Err::Error"),
    (r"nom::Err::Error", "nom::Err::Failure"), (r"\bfirst\b", "last"), (r"remove\(0\)", "pop().unwrap()"), (r"checked_mul", "checked_add"),
    (r"\bSome\((\w+)\)(?=[,;)\s])", "None"), (r"\binput\b(?=[,)])", "input_start"), (r"push\(", "insert(0, "), (r"\bi32\b", "i16"), (r"\bu64\b", "u32"),
    (r"\b([A-Z]\w+)::parse\b", "Int32::parse"), (r"\.or_insert\w*\(.*\)", ""), (r"\.map\(Some\)", ".map(|_| None)"), (r"contains_key", "is_empty"),
]
NUM = re.compile(r"(?<![\w.])(\d+)(?![\w.])")


def lines_of(t):
    """numbers of the code lines outside tests, comments and attributes"""
    out = []
    use = False
    for i, l in enumerate(t):
        use = use or bool(re.match(r"\s*(pub )?use ", l))
        if use:
            use = not l.rstrip().endswith(";")
            continue
        if re.match(r"\s*(#\[cfg\((test|kani))", l):
            break
        if not re.match(r"\s*(//|#|use |pub use|mod |pub mod|\}|$)", l):
            out.append(i)
    return out


def mutants():
    seen = set()
    for dp, _, fs in sorted(os.walk("/repo/src")):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(dp, f), "/repo/src")
            t = open(os.path.join(dp, f)).read().split("\n")
            ls = lines_of(t)

            def emit(i, new, what):
                k = (p, i, new)
                if new != t[i] and k not in seen:
                    seen.add(k)
                    return (f"{p}:{i + 1} {what}", p, {i: new})
            for i in ls:
                l = t[i]
                for a, b in SUB:
                    for m in re.finditer(a, l):
                        e = emit(i, l[:m.start()] + m.expand(b) + l[m.end():], f"{a} -> {b} @{m.start()}")
                        if e:
                            yield e
                for m in NUM.finditer(l):
                    for d in (1, -1):
                        n = int(m.group(1)) + d
                        if n >= 0:
                            e = emit(i, l[:m.start()] + str(n) + l[m.end():], f"{m.group(1)} -> {n} @{m.start()}")
                            if e:
                                yield e
                if re.match(r"\s*(?!let\b|return\b)[\w.*]+( [-+*]?= .*|\(.*\)\??);$", l) or re.match(r"\s*[\w.]+\(.*\)\?;$", l):
                    e = emit(i, "", "deleted")
                    if e:
                        yield e
                if re.match(r"\s*[|\w:(].* => .*,$", l) and i + 1 < len(t) and re.match(r"\s*[|\w:(].* => .*,$", t[i + 1]):
                    a, b = l.split(" => ", 1), t[i + 1].split(" => ", 1)
                    if a[1] != b[1]:
                        yield (f"{p}:{i + 1} swapped arms", p, {i: a[0] + " => " + b[1], i + 1: b[0] + " => " + a[1]})
                if re.match(r"\s*[\w:|(].*,$", l) and " => " not in l and i + 1 < len(t) and re.match(r"\s*[\w:|(].*,$", t[i + 1]):
                    yield (f"{p}:{i + 1} swapped lines", p, {i: t[i + 1], i + 1: l})
                    e = emit(i, "", "deleted item")
                    if e:
                        yield e
                if re.match(r"\s*let \(input, .*\?;$", l):
                    for j in range(i + 1, min(i + 6, len(t))):
                        if re.match(r"\s*let \(input, .*\?;$", t[j]):
                            yield (f"{p}:{i + 1} swapped with {j + 1}", p, {i: t[j], j: l})
                            break


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return None, ""


SLOT = threading.local()
FREE = list(range(16))
LOCK = threading.Lock()


def one(m):
    name, p, ch = m
    if not hasattr(SLOT, "n"):
        with LOCK:
            SLOT.n = FREE.pop(0)
        d = f"{WORK}/{SLOT.n}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for x in ("Cargo.toml", "Cargo.lock", "tests", "src"):
            s = "/repo/" + x
            if os.path.isdir(s):
                shutil.copytree(s, d + "/" + x)
            elif os.path.exists(s):
                shutil.copy(s, d)
        h = f"{WORK}/h{SLOT.n}"
        shutil.copytree(ROOT + "/harness", h, ignore=shutil.ignore_patterns("target"), dirs_exist_ok=True)
        c = open(h + "/Cargo.toml").read().replace("/repo", d)
        open(h + "/Cargo.toml", "w").write(c)
    d, h, td = f"{WORK}/{SLOT.n}", f"{WORK}/h{SLOT.n}", f"{WORK}/t{SLOT.n}"
    orig = open("/repo/src/" + p).read()
    t = orig.split("\n")
    for i, l in ch.items():
        t[i] = l
    open(f"{d}/src/{p}", "w").write("\n".join(t))
    env = dict(os.environ, CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true")
    r = {"name": name, "new": [l.strip()[:160] for l in ch.values()]}
    try:
        c = subprocess.run(["cargo", "check", "-q", "--offline", "--features", "serde", "--target-dir", td], cwd=d, capture_output=True, env=env)
        if c.returncode:
            r["v"] = "nocompile"
            return r
        try:
            c = subprocess.run("ulimit -v 8000000; exec cargo test -q --offline --all-features --target-dir " + td, shell=True, cwd=d, capture_output=True, env=env, timeout=120)
        except subprocess.TimeoutExpired:
            c = None
        if c is None or c.returncode:
            r["v"] = "tests"
            return r
        r["units"] = {}
        for prop in (("SALL",) if p.startswith("value") else ("PALL", "SALL") if p.startswith("remoting") else ("PALL",)):
            tmp = tempfile.mkdtemp(prefix="mut-")
            units, _ = verusrun.go(ROOT, d, prop, run, "quick", ROOT + "/verus", EXE, tmp, 0, "")
            shutil.rmtree(tmp, ignore_errors=True)
            for u in units:
                if u["status"] != "ok":
                    r["units"][u["name"]] = [u["status"], u["detail"][:200]]
        if any(v[0] == "failed" for v in r["units"].values()):
            r["v"] = "failed"
            return r
        c = subprocess.run(["cargo", "build", "-q", "--offline", "--target-dir", td], cwd=h, capture_output=True, env=env)
        r["search"] = {}
        for q in PROPS + SPROPS:
            try:
                o = subprocess.run(f"ulimit -v 8000000; exec {td}/debug/nrbf-replay search {q} 1 4000 {WORK}/case{SLOT.n}", shell=True, capture_output=True, text=True, timeout=60)
                if "evaluations\":" not in o.stdout or "mismatch" in o.stdout or o.returncode:
                    r["search"][q] = (o.stdout.strip().splitlines() or ["crash"])[-1][:200]
            except subprocess.TimeoutExpired:
                r["search"][q] = "hang"
            if r["search"]:
                break
        r["v"] = "search" if r["search"] else ("lost" if r["units"] else "survived")
        return r
    except Exception as e:
        r["v"] = "error " + repr(e)[:300]
        return r
    finally:
        open(f"{d}/src/{p}", "w").write(orig)


if __name__ == "__main__":
    out = open(sys.argv[1], "a")
    ms = [m for m in mutants() if len(sys.argv) < 3 or re.search(sys.argv[2], m[0])]
    print(len(ms), "mutants", flush=True)
    if os.environ.get("LIST"):
        sys.exit()
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for r in ex.map(one, ms):
            out.write(json.dumps(r) + "\n")
            out.flush()
