#!/usr/bin/env python3
"""Decides one property by symbolic execution of rtforth's compiled code.

usage: check.py PROPERTY [--tier quick|thorough] [--only HARNESS[:ARG]] [--keep]

1. compiles the harness crate together with /repo's current tree to LLVM IR;
2. runs every job of the property in the symbolic executor (engine/);
3. replays each counterexample, and a sample of the path witnesses, natively
   against the real code;
4. writes evidence/<PROPERTY>.json and reports.
"""
import json, os, subprocess, sys, time, shutil, re, collections

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import jobs as J


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def fatal(msg, detail=""):
    print("CHECK-ERROR: " + msg)
    if detail:
        print(detail[-4000:])
    sys.exit(2)


def build_engine():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "")
    env["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = ""
    r = sh(["cargo", "build", "--release", "--offline"], cwd=V + "/engine", env=env)
    if r.returncode != 0:
        fatal("the engine does not build", r.stderr)
    return V + "/engine/target/release/symex"


def build_ir(crate):
    r = sh([V + "/" + crate + "/build-ir.sh"])
    p = r.stdout.strip().split("\n")[-1]
    if r.returncode != 0 or not os.path.isfile(p):
        fatal("the harness does not build against /repo", r.stderr)
    return p


def build_native(crate):
    r = sh([V + "/" + crate + "/build-native.sh"])
    p = r.stdout.strip().split("\n")[-1]
    if r.returncode != 0 or not os.path.isfile(p):
        fatal("the replay program does not build against /repo", r.stderr)
    return p


def native_replay(prog, path, scratch):
    """-> (exit status or 'timeout', text)"""
    os.makedirs(scratch, exist_ok=True)
    try:
        r = subprocess.run([prog, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=40, cwd=scratch)
        return r.returncode, (r.stdout + r.stderr).decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""


def main():
    t0 = time.time()
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = J.PROPS[prop]
    work = "/tmp/verif-%s-%d" % (prop, os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        rc = run(prop, tier, seed, spec, work, only, t0)
    finally:
        if "--keep" not in a:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def known_findings():
    """known-findings.txt: `finding: property=<id> job=<harness> <arg> key=<key> :: <text>`"""
    res = []
    p = V + "/known-findings.txt"
    if os.path.isfile(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) job=(\S+) (\S+) key=(.*?) :: (.*)$", l.strip())
            if m:
                res.append(m.groups())
    return res


def run(prop, tier, seed, spec, work, only, t0):
    engine = build_engine()
    crate = spec.get("crate", "harness")
    ll = build_ir(crate)
    jobs = []
    for h, args, t in spec["jobs"]:
        if t == "thorough" and tier != "thorough":
            continue
        for x in args:
            if only and only not in (h, "%s:%d" % (h, x)):
                continue
            jobs.append((h, x))
    lst = work + "/jobs"
    open(lst, "w").write("".join("%s %d\n" % j for j in jobs))
    budget = spec.get("time", {}).get(tier, 420 if tier == "quick" else 7200)
    hard = spec.get("hard", {}).get(tier, 60 if tier == "quick" else 300)
    cmd = [engine, "--ll", ll, "--out", work + "/out", "--list", lst, "--jobs", "8",
           "--time", str(budget), "--hard", str(hard)]
    if "steps" in spec:
        cmd += ["--steps", str(spec["steps"])]
    te = time.time()
    r = sh(cmd)
    te = time.time() - te
    if r.returncode != 0 or not os.path.isfile(work + "/out/result.json"):
        fatal("the executor failed", r.stdout + r.stderr)
    res = json.load(open(work + "/out/result.json"))
    if res["lost"]:
        fatal("%d executor processes ended without a result" % res["lost"], r.stderr)

    tot = collections.Counter()
    perjob = collections.defaultdict(collections.Counter)
    funcs = set()
    inc = []
    viol = collections.OrderedDict()
    samples = collections.defaultdict(list)
    reached = collections.defaultdict(collections.Counter)
    for p in res["parts"]:
        j = p["job"]
        for k in ("paths", "infeasible", "obligations", "trivial", "insts", "forks", "queries", "sat", "unsat",
                  "unknown", "fallback", "lemmas", "errors", "tables", "solver_us"):
            tot[k] += p[k]
            perjob[j][k] += p[k]
        funcs.update(p["functions"])
        for i in p["inconclusive"]:
            inc.append("%s: %s" % (j, i))
        for v in p["violations"]:
            viol.setdefault((j, v["key"]), v["replay"])
        samples[j] += p["samples"]
        for k, n in p["reached"].items():
            reached[j][k] += n
    inc = sorted(set(inc))

    # native replay of counterexamples and of path witnesses
    native = build_native(crate)
    rdir = V + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(rdir + "/" + f)
    kf = known_findings()
    confirmed, unconfirmed, listed = [], [], []
    n = 0
    bykey = collections.Counter()
    for (j, key), text in sorted(viol.items()):
        # many jobs may fail for one reason: replay a few of each
        bykey[key] += 1
        n += 1
        path = "%s/%s-%d.txt" % (rdir, prop, n)
        open(path, "w").write("# property %s, %s\njob %s\n%s" % (prop, key, j, text))
        hit = [k for k in kf if k[0] == prop and k[1] == j.split()[0] and (k[2] == "*" or k[2] == j.split()[1])
               and (k[3] == key or (k[3].endswith("*") and key.startswith(k[3][:-1])))]
        if hit:
            listed.append((j, key, hit[0][4]))
            continue
        rc, out = native_replay(native, path, work + "/scratch")
        kind = key.split("|")[0]
        bad = rc == "timeout" or (rc != 0 and rc not in (77, 78, 79))
        if rc == "timeout" and kind not in ("recursion", "assert", "hang"):
            bad = False
        note = "native exit %s: %s" % (rc, " ".join(out.split())[:300])
        if bad or kind == "memory":
            confirmed.append((j, key, path, note))
        else:
            unconfirmed.append((j, key, path, note))
    replayed = agree = 0
    disagree = []
    for j in sorted(samples):
        for s in samples[j][:2]:
            if replayed >= 60:
                break
            path = work + "/sample.txt"
            open(path, "w").write("job %s\n%s" % (j, s))
            rc, out = native_replay(native, path, work + "/scratch")
            replayed += 1
            if rc == 0:
                agree += 1
            else:
                disagree.append("%s: native exit %s %s" % (j, rc, " ".join(out.split())[:200]))

    vac = [("%s %d" % j) for j in jobs if not reached.get("%s %d" % j)
           and not any(k[0] == "%s %d" % j for k in viol)
           and not any(i.startswith("%s %d:" % j) for i in inc)]
    some = []
    for j in sorted(samples):
        if samples[j] and len(some) < 8:
            some.append({"job": j, "inputs": samples[j][0].split("\n")[:24]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "method": "symbolic execution of the LLVM IR of rtforth (rustc's own output for /repo's current tree); "
                      "assertions decided by term simplification and by SMT (z3, cvc5)",
            "states": tot["paths"],
            "transitions": tot["insts"],
            "traces_validated_against_impl": agree,
            "samples": some or [{"job": "none"}],
            "jobs": len(jobs),
            "paths_completed": tot["paths"],
            "paths_infeasible": tot["infeasible"],
            "forks": tot["forks"],
            "ir_instructions_executed": tot["insts"],
            "assertions_decided_by_smt": tot["obligations"],
            "assertions_decided_by_simplification": tot["trivial"],
            "smt_queries": tot["queries"],
            "smt_sat": tot["sat"],
            "smt_unsat": tot["unsat"],
            "smt_unknown_first_try": tot["unknown"],
            "smt_portfolio_fallbacks": tot["fallback"],
            "solver_seconds": round(tot["solver_us"] / 1e6, 2),
            "engine_wall_s": round(te, 1),
            "functions_encoded": sorted(f for f in funcs if "rtforth" in f or "hibitset" in f or "::rtf::" in f),
            "functions_encoded_total": len(funcs),
            "bounds": spec["bounds"],
            "outside_bounds": spec.get("outside", ""),
            "inconclusive": inc[:40],
            "inconclusive_count": len(inc),
            "unconfirmed_candidates": ["%s %s (%s)" % (j, k, note) for j, k, _, note in unconfirmed],
            "witnesses_replayed": replayed,
            "witness_disagreements": disagree,
            "known_findings": ["%s %s: %s" % x for x in listed],
            "per_job": {j: {k: c[k] for k in ("paths", "insts", "queries", "obligations", "trivial")}
                        for j, c in sorted(perjob.items())},
            "exhaustive": not inc,
        },
        "assumptions": J.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)

    print("%s (%s): %d jobs, %d paths, %d assertions (%d by SMT), %d SMT queries, %.1f s solver, %.1f s total" % (
        prop, tier, len(jobs), tot["paths"], tot["obligations"] + tot["trivial"], tot["obligations"],
        tot["queries"], tot["solver_us"] / 1e6, time.time() - t0))
    print("  witnesses replayed natively: %d, agreeing %d" % (replayed, agree))
    for d in disagree[:10]:
        print("  WITNESS-DISAGREES " + d)
    for i in inc[:10]:
        print("  INCONCLUSIVE " + i)
    if len(inc) > 10:
        print("  ... %d inconclusive in all" % len(inc))
    for j, k, p, note in unconfirmed[:10]:
        print("  UNCONFIRMED %s %s (%s)" % (j, k, note))
    done = set()
    for j, k, text in listed:
        line = "KNOWN-FINDING: property=%s %s" % (prop, text)
        if line not in done:
            done.add(line)
            print(line)
    if confirmed:
        for j, k, p, note in confirmed[:30]:
            print("  %s %s: %s" % (j, k, note))
        for j, k, p, note in confirmed[:10]:
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if vac and not only:
        fatal("vacuous jobs: " + ", ".join(vac[:20]))
    return 0


if __name__ == "__main__":
    main()
