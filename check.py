#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property: rebuilds the LLVM IR and the native build from /repo's working tree, runs the
property's harnesses in the symbolic engine, replays every counterexample natively, and writes
evidence/PROPERTY.json. Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer."""
import json, os, re, subprocess, sys, time, hashlib, random, tempfile

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import bounds

T0 = time.time()


def die(msg):
    print("NO-ANSWER " + msg)
    sys.exit(2)


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def native(h, tier, hexin):
    """Outcome of the real code on concrete input: (kind, message, emitted)."""
    exe = os.path.join(V, "build/native/debug/replay")
    with tempfile.TemporaryDirectory(prefix="sx-") as cwd:  # where a harness puts its files
        try:
            p = sh([exe, h, str(tier), hexin], 60, preexec_fn=limit, cwd=cwd)
        except subprocess.TimeoutExpired:
            return "hang", "no end within 60 s", ""
    out = p.stdout.decode("utf-8", "replace")
    err = p.stderr.decode("utf-8", "replace")
    m = re.search(r"^SX-END (\w+) ?(.*)$", out, re.M)
    e = re.search(r"^SX-EMIT ([0-9a-f]*)$", out, re.M)
    if m:
        return m.group(1), m.group(2), e.group(1) if e else ""
    if "panicked at" in err:
        return "panic", " ".join(err[err.index("panicked at"):].split())[:300], ""
    return "crash", "exit %s: %s" % (p.returncode, err[-200:].strip()), ""


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))


def harnesses(pid):
    names = []
    d = os.path.join(V, "harness/src")
    for f in sorted(x for x in os.listdir(d) if x.endswith(".rs")):
        for l in open(os.path.join(d, f)):
            m = re.match(r"harness! \{ fn (%s_\w+)\(" % pid.lower(), l)
            if m:
                names.append(m.group(1))
    return names


def demangle(names):
    try:
        import ctypes
    except ImportError:
        pass
    out = []
    for n in names:
        # readable tail of a v0 mangled name
        parts = []
        i = 0
        while i < len(n):
            m = re.match(r"(\d+)_?", n[i:])
            if m and not (i > 0 and n[i - 1].isdigit()):
                k = int(m.group(1))
                s = n[i + len(m.group(0)): i + len(m.group(0)) + k]
                if 0 < k < 60 and len(s) == k and re.match(r"[A-Za-z_]\w*$", s):
                    parts.append(s)
                    i += len(m.group(0)) + k
                    continue
            i += 1
        out.append("::".join(parts) or n)
    return out


def known(pid):
    """known: property=C01 harness=c01_x input=HEX what"""
    r = []
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"known: property=(\w+) harness=(\w+) match=/(.*)/ input=([0-9a-f]*) (.*)", l)
        if m and m.group(1) == pid:
            r.append({"harness": m.group(2), "match": m.group(3), "input": m.group(4), "what": m.group(5)})
    return r


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    tn = 0 if tier == "quick" else 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rng = random.Random(seed)
    prop = bounds()[pid]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    evf = os.path.join(V, "evidence", pid + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    if not os.path.exists(os.path.join(V, "build/symex/release/symex")):
        p = sh(["bash", os.path.join(V, "build.sh"), "engine"], 600)
        if p.returncode:
            die("the engine does not build: " + p.stderr.decode()[-400:])
    p = sh(["bash", os.path.join(V, "build.sh"), "repo"], 800)
    if p.returncode:
        die("/repo or the harness does not build: " + p.stderr.decode("utf-8", "replace")[-1500:])
    build_s = time.time() - T0
    hs = harnesses(pid)
    if not hs:
        die("no harness")
    budget = 420.0 if tn == 0 else 3600.0 * 4
    workers = max(1, min(8, os.cpu_count() or 1))
    tot = {k: 0 for k in "paths pruned nerrors steps forks queries sat unsat query_cache_hits left".split()}
    solver_s = engine_s = 0.0
    fns, per, samples, checked, violations, unconfirmed, engine_errors = {}, {}, [], 0, [], [], []
    mismatch = []
    exhaustive = True
    kn = known(pid)
    shown = set()
    for k in kn:
        kind, msg, _ = native(k["harness"], tn, k["input"])
        if kind not in ("done", "pruned") and re.search(k["match"], msg):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            shown.add(k["harness"] + k["match"])
    import concurrent.futures as cf
    stop = []

    def engine(h):
        """One harness in the symbolic engine."""
        left = budget - (time.time() - T0 - build_s)
        if stop or left <= 0:
            return "not run: out of time"
        lim = max(5.0, left if h == hs[-1] else left * 0.7)
        out = os.path.join(V, "build", "out-%s.json" % h)
        if os.path.exists(out):
            os.remove(out)
        cmd = [os.path.join(V, "build/symex/release/symex"), "--mods", os.path.join(V, "build/mods.txt"), "--harness", h,
               "--workers", str(workers), "--out", out, "--time", str(int(lim)), "--samples", "6", "--tier", str(tn)]
        if h.endswith(("_huge", "_scale", "_depth")):  # large inputs: one path is long
            cmd += ["--path-steps", "600000000"]
        elif "path_steps" in prop:
            cmd += ["--path-steps", str(prop["path_steps"])]
        try:
            return sh(cmd, lim + 120).stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            return "killed"

    # A few harnesses side by side: each begins with a stretch that only one process can work on.
    pool = cf.ThreadPoolExecutor(min(3, workers))
    jobs = [(h, pool.submit(engine, h)) for h in hs]
    for h, job in jobs:
        log = job.result()
        out = os.path.join(V, "build", "out-%s.json" % h)
        if log.startswith("not run"):
            exhaustive = False
            if not violations:
                engine_errors.append({"harness": h, "what": log})
            continue
        if not os.path.exists(out):
            engine_errors.append({"harness": h, "what": "engine ended without a result: " + log[-600:]})
            exhaustive = False
            continue
        r = json.load(open(out))
        for k in tot:
            tot[k] += r.get(k, 0)
        solver_s += r["solver_s"]
        engine_s += r["wall_s"]
        for f in r["functions"]:
            n = f if isinstance(f, str) else f[0]
            fns[n] = 1
        if r["timeout"] or r["left"]:
            exhaustive = False
        if not r["paths"] and not r["fails"]:
            engine_errors.append({"harness": h, "what": "no path completed; " + "; ".join(r["errors"])[:600]})
        per[h] = {"paths": r["paths"], "pruned": r["pruned"], "queries": r["queries"], "symbolic_bytes": r["symbolic_bytes"],
                  "wall_s": round(r["wall_s"], 2), "exhausted": not (r["timeout"] or r["left"]), "engine_errors": r["nerrors"]}
        # counterexamples: only what the real code reproduces counts
        for f in r["fails"]:
            ok = None
            for i in f["inputs"]:
                kind, msg, _ = native(h, tn, i)
                if kind in ("assert", "panic", "crash", "hang"):
                    ok = (i, kind, msg)
                    break
            if ok is None:
                unconfirmed.append({"harness": h, "kind": f["kind"], "msg": f["msg"], "inputs": f["inputs"]})
                continue
            if any(k["harness"] == h and re.search(k["match"], ok[2]) for k in kn):
                continue
            violations.append({"harness": h, "input": ok[0], "kind": ok[1], "msg": ok[2], "paths": f["count"], "engine": f["msg"]})
        # paths the engine could not follow: at least run them
        for e in r["errors"]:
            m = re.search(r"\[input ([0-9a-f]*)\]", e)
            if m:
                kind, msg, _ = native(h, tn, m.group(1))
                if kind in ("assert", "panic", "crash", "hang") and not any(k["harness"] == h and re.search(k["match"], msg) for k in kn):
                    violations.append({"harness": h, "input": m.group(1), "kind": kind, "msg": msg, "paths": 1, "engine": e[:200]})
            engine_errors.append({"harness": h, "what": e[:400]})
        # completed paths: the native build must observe what the engine observed
        for i, em in r["samples"]:
            kind, msg, got = native(h, tn, i)
            checked += 1
            if kind != "done" or got != em:
                mismatch.append({"harness": h, "input": i, "engine": em, "native": [kind, msg, got]})
        if r["samples"]:
            i, em = rng.choice(r["samples"])
            samples.append({"harness": h, "input": i, "observed": em[:400]})
        if violations and time.time() - T0 > 240:
            stop.append(1)
    wall = time.time() - T0
    names = demangle(sorted(fns))
    core = sorted({n for n in names if "adextopa_core" in n})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
        "violations": len(violations),
        "coverage": {
            "states": tot["paths"] + tot["pruned"], "transitions": tot["forks"],
            "traces_validated_against_impl": checked, "samples": samples, "exhaustive": exhaustive and not engine_errors,
            "rule": "states: execution paths of the compiled code explored symbolically, each a set of inputs given by its path condition; "
                    "transitions: branches at which the solver found more than one outcome feasible",
            "bounds": prop["bounds"], "outside": prop.get("outside", ""),
            "functions_encoded": {"total": len(fns), "of_the_crate": len(core), "names": core},
            "solver": {"name": "z3 4.8.12", "queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"],
                       "answered_from_cache": tot["query_cache_hits"], "seconds": round(solver_s, 2)},
            "instructions": tot["steps"], "engine_wall_s": round(engine_s, 2), "build_s": round(build_s, 2),
            "harnesses": per, "engine_errors": engine_errors[:10], "unconfirmed": unconfirmed[:10], "disagreements": mismatch[:10],
            "violations": violations[:10],
        },
        "assumptions": prop.get("assumptions", []) + COMMON,
    }
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d queries (%d sat, %d unsat), solver %.1f s, engine %.1f s, build %.1f s%s" % (
        pid, tier, tot["paths"], tot["queries"], tot["sat"], tot["unsat"], solver_s, engine_s, build_s, "" if exhaustive else ", bounds NOT exhausted"))
    if violations:
        d = os.path.join(V, "build", "replays")
        os.makedirs(d, exist_ok=True)
        v = violations[0]
        rp = os.path.join(d, "%s-%s.sh" % (pid, hashlib.sha1((v["harness"] + v["input"]).encode()).hexdigest()[:10]))
        with open(rp, "w") as f:
            f.write("#!/bin/bash\n# %s: %s (%s)\n# replays the counterexample against the code in /repo\nbash %s/build.sh native && cd $(mktemp -d) && exec %s/build/native/debug/replay %s %d %s\n" % (
                pid, v["msg"].replace("\n", " "), v["kind"], V, V, v["harness"], tn, v["input"]))
        for x in violations[:5]:
            print("  %s %s: %s [input %s, %d paths]" % (x["harness"], x["kind"], x["msg"], x["input"], x["paths"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if unconfirmed:
        die("counterexample not reproduced by the real code: %s" % json.dumps(unconfirmed[0]))
    if mismatch:
        die("engine and native build disagree: %s" % json.dumps(mismatch[0]))
    bad = [e for e in engine_errors]
    if bad and (tot["nerrors"] * 50 > tot["paths"] or any("no path completed" in e["what"] or "without a result" in e["what"] for e in bad)):
        die("engine errors: %s" % json.dumps(bad[0]))
    sys.exit(0)


COMMON = [
    "LLVM IR as emitted by nightly rustc (overflow checks and debug assertions on) means what the machine code does",
    "the engine's semantics of that IR, checked on every run by re-executing sampled paths natively and comparing what they observe",
    "Z3's verdicts",
    "SipHash is replaced by a constant hash function (maps are correct under any hash function), allocation never fails, stdout writes succeed",
]

if __name__ == "__main__":
    main()
