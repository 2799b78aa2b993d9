"""Extracts the functions under contract from the source of this run and lets Verus discharge their obligations."""
import json, os, re, shutil, tempfile, time

import oracle
from plan import CLAUSES, OWN, PLAN, SAFETY_CLAUSE, SAFETY_ONLY


def lemma_mods(spec_dir, prop):
    p = os.path.join(spec_dir, "lemmas.rs")
    if not os.path.exists(p):
        return set()
    return set(re.findall(r"proof fn (%s_\w+)" % prop.lower(), open(p).read()))


def obligations(logdir):
    """function -> number of assertions in its queries"""
    n = {}
    if not os.path.isdir(logdir):
        return n
    for f in os.listdir(logdir):
        cur = None
        on = False
        with open(os.path.join(logdir, f), errors="replace") as fh:
            for line in fh:
                if line.startswith(";; "):
                    m = re.match(r";; Function-(?:Def|Termination|Spec-Termination|Expand-Errors|Checks?-?\w*) (\S+)", line)
                    if m:
                        cur = m.group(1)
                        on = False
                    elif line.startswith(";; Function-"):
                        cur = None
                elif line.startswith("(check-valid"):
                    on = True
                elif on and cur and "(assert" in line:
                    n[cur] = n.get(cur, 0) + 1
    return n


def diagnostics(text):
    out = []
    for l in text.splitlines():
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error" and d.get("message") and not d["message"].startswith("aborting due"):
            out.append(d)
    return out


def line_of(d):
    """the line that an error is about: for a precondition the call, for a postcondition the clause"""
    sp = d["spans"]
    prim = [s for s in sp if s["is_primary"]] or sp
    return prim[0]["line_start"] if prim else None


RLIMIT = re.compile(r"rlimit|resource limit|timed out|time out", re.I)
VERIF = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|"
                   r"possible division|possible bit shift|decreases not satisfied|termination|could not prove|recommendation not met|unreachable|"
                   r"constructed value may fail|cannot show", re.I)


def run_verus(ROOT, REPO, BUILD, prop, run, Lock, TIER):
    spec_dir = os.path.join(ROOT, "verus")
    target = os.path.join(BUILD, "extract")
    t0 = time.time()
    with Lock("extract"):
        rc, out = run(["cargo", "build", "-q", "--offline", "--manifest-path", os.path.join(ROOT, "extract/Cargo.toml"),
                       "--target-dir", target], 400)
    exe = os.path.join(target, "debug/nrbf-extract")
    tmp = tempfile.mkdtemp(prefix="nrbf-verus-")
    try:
        return go(ROOT, REPO, prop, run, TIER, spec_dir, exe, tmp, t0, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def verify(REPO, run, exe, serde, contracts, prelude, spec, tmp, build_out, drop, limit):
    """extract and verify; functions that the verifier's front end does not accept are left out"""
    d = tempfile.mkdtemp(dir=tmp)
    x, mp, vlog = os.path.join(d, "x.rs"), os.path.join(d, "x.json"), os.path.join(d, "log")
    skip = {}          # key -> why it is not verified
    m = None
    diags = []
    js = {}
    dead = None        # why nothing could be decided
    for attempt in range(7):
        rc, out = run(["env", "NRBF_SERDE=1" if serde else "NRBF_PARSER=1", "NRBF_DROP=" + ",".join(drop), exe, os.path.join(REPO, "src"), contracts, prelude, spec, x, mp, ",".join(sorted(skip))], 60)
        if rc != 0 or not os.path.exists(mp):
            dead = "extraction failed: " + (out or build_out)[-800:]
            break
        m = json.load(open(mp))
        new = {p["key"]: p["what"] for p in m["problems"] if p["key"] not in skip}
        if new:
            skip.update(new)
            if any("anchor" in w or "loop" in w for w in new.values()):
                continue
        shutil.rmtree(vlog, ignore_errors=True)
        jo, je = os.path.join(d, "o"), os.path.join(d, "e")
        cmd = (f"verus {x} --output-json --time-expanded --multiple-errors 4 --log air --log-dir {vlog} "
               f"-- --error-format=json > {jo} 2> {je}")
        rc, _ = run(["bash", "-c", cmd], limit)
        text = open(je, errors="replace").read() if os.path.exists(je) else ""
        diags = diagnostics(text)
        try:
            js = json.load(open(jo))
        except ValueError:
            js = {}
        if rc is None:
            dead = "Verus ran into its time limit"
            break
        vr = js.get("verification-results", {})
        compile_errs = [d for d in diags if not VERIF.search(d["message"]) and not RLIMIT.search(d["message"])]
        if not compile_errs and "verified" in vr:
            break
        culprits = {}
        for ce in compile_errs:
            for s in ce["spans"]:
                for f in m["functions"]:
                    if f["from"] <= s["line_start"] <= f["to"] and not f["leaf"]:
                        culprits.setdefault(f["key"], "outside what the verifier accepts: " + ce["message"][:200])
        culprits = {k: v for k, v in culprits.items() if k not in skip}
        if not culprits:
            dead = "the extracted text does not pass the verifier's front end: " + "; ".join(d["message"][:200] for d in compile_errs[:3]) + text[-300:] * (not compile_errs)
            break
        skip.update(culprits)
    else:
        dead = "no extraction that the verifier accepts"
    return dict(x=x, vlog=vlog, m=m, skip=skip, diags=diags, js=js, dead=dead)


def owner(d, fns):
    # the postcondition of a trait's function stands outside the function that fails it
    ln = line_of(d)
    for ln2 in [ln] + [x["line_start"] for x in d["spans"] if not x["is_primary"]]:
        for f in fns:
            if ln2 and f["from"] <= ln2 <= f["to"]:
                return f["key"]
    return None


# what others call from outside the crate
ROOT_FN = re.compile(r"^crate::from_slice|^remoting_message::|BinaryParser::deserialize$|^value::(DateTime|TimeSpan)")


def go(ROOT, REPO, prop, run, TIER, spec_dir, exe, tmp, t0, build_out):
    spec, prelude = os.path.join(tmp, "spec.rs"), os.path.join(tmp, "prelude.rs")
    # "serde": the deserializers, on top of the same specification of messages
    serde = PLAN.get(prop, {}).get("verus") == "serde"
    contracts = os.path.join(spec_dir, "serde/contracts" if serde else "contracts")

    def text(*names):
        return "".join(open(os.path.join(spec_dir, n)).read() for n in names if os.path.exists(os.path.join(spec_dir, n)))
    with open(spec, "w") as f:
        f.write(text("spec.rs", "serde/spec.rs") if serde else text("spec.rs", "lemmas.rs") + oracle.text(os.path.join(ROOT, "kani/oracle.rs")))
    with open(prelude, "w") as f:
        p = text("prelude.rs").rstrip()
        f.write(p[:-1] + text("serde/prelude.rs") + "}\n" if serde else p + "\n")
    limit = 420 if TIER == "quick" else 1500

    def extract_and_verify(drop):
        return verify(REPO, run, exe, serde, contracts, prelude, spec, tmp, build_out, drop, limit)

    def fails(res):
        """functions with an obligation that is not discharged, and whether something else is not"""
        keys, rest = set(), bool(res["dead"])
        for d in res["diags"]:
            k = owner(d, res["m"]["functions"] if res["m"] else [])
            if k and VERIF.search(d["message"]):
                keys.add(k)
            else:
                rest = True
        return keys, rest
    res = extract_and_verify([])
    keys, rest = fails(res)
    if keys and not rest and len(keys) <= 6 and not any(ROOT_FN.search(k) for k in keys):
        # A private function that does not do what its contract says is no violation if all its callers still do what theirs say:
        # leave the contract out and let the body stand in for the calls.
        res2 = extract_and_verify(sorted(keys))
        k2, rest2 = fails(res2)
        if not k2 and not rest2 and keys <= set(res2["m"]["inlined"]) and set(res2["skip"]) <= keys | set(res["skip"]):
            res = res2
    x, vlog, m, skip, diags, js, dead = (res[k] for k in ("x", "vlog", "m", "skip", "diags", "js", "dead"))
    gone = {}
    for k, w in list(skip.items()):
        # no contract, but no call either that is not replaced by the body
        if not dead and re.search(r"^dropped|its signature is", w) and k in m["inlined"]:
            gone[k] = skip.pop(k)

    fns = m["functions"] if m else []
    own = [re.compile(r) for r in OWN[prop]]
    counts = obligations(vlog)
    times = {}
    for mod in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) if js else []:
        for fb in mod.get("function-breakdown", []):
            k = fb["function"]
            times[k] = times.get(k, 0) + fb["time-micros"] / 1e6

    def find(table, key):
        """the verifier's name of a function has file modules that the key does not have"""
        parts = key.split("::")
        tail = "::".join(parts[-2:]) if len(parts) > 2 or parts[-2][:1].isupper() else key
        return sum(v for k, v in table.items() if k.split("::", 1)[-1].split("::")[0] == parts[0] and (k.endswith("::" + tail)))

    src = open(x).read().splitlines() if os.path.exists(x) else []
    failures = {}   # key -> [(kind, message)]
    other = []
    for d in diags:
        if dead and not VERIF.search(d["message"]):
            continue
        ln = line_of(d)
        key = owner(d, fns)
        sp = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
        clause = (sp[0]["text"][0]["text"][sp[0]["column_start"] - 1:(sp[0]["column_end"] - 1 if sp[0]["line_start"] == sp[0]["line_end"] else None)]
                  if sp and sp[0].get("text") else "")
        at = "; ".join(f"{s['label']}: {s['text'][0]['text'].strip()[:160]}" for s in d["spans"] if s.get("text") and s.get("label") and not s["is_primary"])
        rec = dict(message=d["message"], clause=clause[:600], at=at, rendered=d.get("rendered", "")[:3000],
                   lost=bool(RLIMIT.search(d["message"])))
        if key:
            failures.setdefault(key, []).append(rec)
        else:
            lem = None
            for i in range((ln or 1) - 1, max(0, (ln or 1) - 80), -1):
                mm = re.search(r"proof fn (\w+)", src[i]) if i < len(src) else None
                if mm:
                    lem = mm.group(1)
                    break
            other.append((lem, rec))

    units, trusted = [], []
    support_ok, support_n, support_bad = 0, 0, []
    verified_fns = []
    keys = {f["key"]: f for f in fns}
    for k in list(skip) + list(gone):
        keys.setdefault(k, {"key": k, "leaf": True})
    for k, f in sorted(keys.items()):
        mine = any(r.search(k) for r in own)
        n = max(find(counts, k), 1)
        t = find(times, k)
        if f["leaf"] and k not in skip and k not in gone:
            continue
        if dead:
            st, det, bad = "lost", dead, []
        elif k in skip:
            st, det, bad = "lost", skip[k], []
        elif k in gone:
            st, det, bad, n = "ok", "without contract (" + gone[k] + "): verified as part of its callers", [], 0
        else:
            recs = failures.get(k, [])
            if prop in CLAUSES:
                # a contract may have clauses of several properties
                hard = [r for r in recs if "postcondition" not in r["message"] or CLAUSES[prop].search(r["clause"])]
                soft = [r for r in recs if r not in hard]
            elif prop in SAFETY_ONLY:
                hard = [r for r in recs if "postcondition" not in r["message"] or SAFETY_CLAUSE.search(r["clause"])]
                hard = [r for r in hard if not re.search(r"invariant|assertion", r["message"]) or SAFETY_CLAUSE.search(r["clause"])]
                soft = [r for r in recs if r not in hard]
            else:
                hard, soft = recs, []
            if any(not r["lost"] for r in hard) and k in m["reshaped"]:
                st = "lost"
            elif any(not r["lost"] for r in hard):
                st = "failed"
            elif recs:
                st = "lost"
            else:
                st = "ok"
            bad = hard or soft
            note = "its loops change other variables than those that the invariants speak about; " if bad and st == "lost" and k in m["reshaped"] else ""
            det = note + "; ".join(f"{r['message']}: {r['clause'][:160]} [{r['at'][:160]}]" for r in bad[:3])
        if st == "ok" and not dead and k not in gone:
            verified_fns.append(k)
        if mine:
            u = dict(name=k, backend="verus/z3", status=st, obligations=n, discharged=n - min(n, len(bad) or (n if st != "ok" else 0)), time=round(t, 2), detail=det)
            if bad:
                u["output"] = "\n".join(r["rendered"] for r in bad)
            units.append(u)
        else:
            support_n += n
            if st == "ok":
                support_ok += n
            else:
                support_bad.append(f"{k}: {st}: {det[:120]}")
    if support_n:
        units.append(dict(name="contracts of the callees and callers", backend="verus/z3", status="ok" if not support_bad else "lost",
                          obligations=support_n, discharged=support_ok, time=0.0,
                          detail="" if not support_bad else "premises not discharged on this tree: " + " | ".join(support_bad)[:1500]))
    # lemmas over the specification
    mine = lemma_mods(spec_dir, prop)
    all_lem = [l for l, _ in other]
    bad = [(l, r) for l, r in other if l in mine or not mine]
    lem_names = sorted(mine)
    ln = sum(v for k, v in counts.items() if re.search(r"x::(ax|unf|props|lemmas|spec|oracle)::", k))
    st = "ok" if not other and not dead else "lost"
    units.append(dict(name="lemmas " + (", ".join(lem_names) if lem_names else "(ax, unf)"), backend="verus/z3", status=st, obligations=max(ln, 1),
                      discharged=max(ln, 1) if st == "ok" else 0, time=0.0, detail="; ".join(f"{l}: {r['message']}" for l, r in other[:5]) or (dead or "")))
    total = sum(times.values())
    for u in units:
        if u["name"].startswith("lemmas "):
            u["time"] = round(sum(v for k, v in times.items() if re.search(r"x::(ax|unf|props|lemmas|spec|oracle)::", k)), 2)
    leaves = [f["key"] for f in fns if f["leaf"] and f["key"] not in skip]
    extra = dict(
        cmd=("NRBF_SERDE=1 nrbf-extract /repo/src verus/serde/contracts PRELUDE SPEC x.rs x.json && verus x.rs  # PRELUDE, SPEC: verus/*.rs with verus/serde/*.rs"
             if serde else "nrbf-extract /repo/src verus/contracts verus/prelude.rs verus/spec.rs x.rs x.json && verus x.rs"),
        trusted=["Verus 0.2026.09.13, Z3 4.12 (bundled) and rustc",
                 "extract/: the mechanical translation of nom combinators, closures, iterator chains and alt_mut! into the code they run",
                 "verus/prelude.rs: models of Vec, HashMap, BTreeMap, BTreeSet, iterators, NonZeroU32, integer conversions, nom::Err",
                 ] + (["verus/serde/prelude.rs: serde's MapDeserializer, visitors and seeds as functions of what they are handed",
                       "Deserialize of the boxed primitives from the one entry m_value: proved by Kani (boxed_*) in C15",
                       "RemotingMessage::parse: its contract is proved in C07 and C10"] if serde else
                      ["leaf contracts assumed here; Kani proves in C01, C02, C03 and C14 that each leaf agrees with its oracle (kani/oracle.rs), Verus here that the oracle agrees with the specification: " + ", ".join(leaves)]),
        functions=verified_fns,
        coverage={"verus_total": js.get("verification-results", {}), "verus_smt_time_s": round(total, 2), "verus_wall_s": round(time.time() - t0, 1),
                  "functions_verified": len(verified_fns), "functions_not_decided": skip},
    )
    if TIER == "thorough" and not dead:
        extra["coverage"]["vacuity"] = vacuity(x, m, skip, tmp, run)
        v = extra["coverage"]["vacuity"]
        if v["vacuous"]:
            units.append(dict(name="vacuity", backend="verus/z3", status="lost", obligations=1, discharged=0, time=0.0,
                              detail="assert(false) is provable at the start of " + ", ".join(v["vacuous"])))
    return units, extra


def vacuity(x, m, skip, tmp, run):
    """assert(false) at the start of every function must fail: preconditions and axioms are satisfiable."""
    src = open(x).read().splitlines()
    probes = {}
    for f in m["functions"]:
        if f["leaf"]:
            continue
        for i in range(f["from"] - 1, f["to"]):
            if src[i] == "{":
                # behind the reveals and entry proofs
                src[i] = "{ proof { assert(false); }"
                probes[i + 1] = f["key"]
                break
    y = os.path.join(tmp, "v.rs")
    open(y, "w").write("\n".join(src))
    je = os.path.join(tmp, "ve")
    run(["bash", "-c", f"verus {y} -- --error-format=json > /dev/null 2> {je}"], 900)
    seen = set()
    for d in diagnostics(open(je, errors="replace").read()):
        if "assertion failed" in d["message"]:
            seen.add(line_of(d))
    return {"probes": len(probes), "vacuous": sorted(k for l, k in probes.items() if l not in seen)}
