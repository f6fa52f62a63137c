#!/usr/bin/env python3
"""check.py <property-id> [quick|thorough]: decide one property on /repo's current working tree.

1. builds the deductive verifier (govc) from /verif/govc if needed,
2. re-extracts the functions under contract from /repo and discharges every obligation,
3. writes evidence/<id>.json,
4. when an obligation is not discharged, looks for a concrete failing input by running the replay
   harness of the property against the real code, and reports the violation.
Exit 0: every obligation discharged. Exit 1: VIOLATION line printed. Never anything else."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", TZ="Asia/Tokyo")
if "HOME" not in ENV: ENV["HOME"] = "/root"

def build():
    """govc, built in /verif/govc (ignored by git); rebuilt when a source is newer."""
    d = os.path.join(HERE, "govc"); b = os.path.join(d, "govc")
    src = glob.glob(d + "/*.go") + [d + "/go.mod", d + "/go.sum"]
    if os.path.exists(b) and all(os.path.getmtime(b) >= os.path.getmtime(s) for s in src): return b
    for out in (b, os.path.join(tempfile.mkdtemp(prefix="govc."), "govc")):
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=d, env=ENV, capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(tmp, out); return out
    raise RuntimeError("cannot build govc: " + r.stderr[-2000:])

def replay(pid, log, quick):
    """run the harness on the real code; returns (found, text)"""
    root = os.path.join(HERE, "replay", pid)
    if not os.path.isdir(root): return False, "no replay harness"
    tmp = tempfile.mkdtemp(prefix="verif-replay.")
    try:
        rep, pkgs = {}, set()
        for base, _, fs in os.walk(root):
            rel = os.path.relpath(base, root)
            for f in fs:
                if not f.endswith(".go"): continue
                pkgs.add(rel)
                src = os.path.join(base, f)
                rep[os.path.join(REPO, rel, "zz_verif_" + f)] = src
                m = re.search(r"^package (\w+)", open(src).read(), re.M)
                c = os.path.join(tmp, "common_%s_test.go" % m.group(1))
                if not os.path.exists(c):
                    open(c, "w").write(open(os.path.join(HERE, "replay", "common.go.txt")).read().replace("PKG", m.group(1)))
                rep[os.path.join(REPO, rel, "zz_verif_common_%s_test.go" % m.group(1))] = c
        ov = os.path.join(tmp, "overlay.json"); json.dump({"Replace": rep}, open(ov, "w"))
        found, txt = False, ""
        env = dict(ENV, VERIF_SCRATCH=tmp)
        env["GOFLAGS"] = "-mod=readonly"
        for p in sorted(pkgs):
            race = ["-race"] if os.path.exists(os.path.join(root, p, "RACE")) else []
            cmd = ["go", "test", "-overlay", ov] + race + ["-vet=off", "-count=1", "-timeout=100s", "-run", "^TestVerif", "./" + p]
            try:
                r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, timeout=170)
                out = r.stdout + r.stderr
            except subprocess.TimeoutExpired as e:
                out, r = "harness timed out", None
            bad = re.search(r"^REPLAY |^panic:|^fatal error:|WARNING: DATA RACE", out, re.M) and "[build failed]" not in out and "[setup failed]" not in out
            txt += "$ cd %s && %s\n%s\n" % (REPO, " ".join(cmd), out[-12000:] if len(out) > 12000 else out)
            if bad: found = True
        return found, txt
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def known(pid):
    out = []
    f = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) obligation=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    if sys.argv[1] == "--harness":
        found, txt = replay(sys.argv[2], "", True); print(txt); sys.exit(1 if found else 0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    res = os.path.join(ev, pid + ".result.json")
    for f in glob.glob(os.path.join(ev, pid + ".*")): os.remove(f)
    log, err = "", None
    lim = ["-ob-timeout", "150s" if tier == "thorough" else "60s", "-func-timeout", "600s", "-j", "4"]
    cmd = []
    try:
        b = build()
        cmd = [b, "-repo", REPO, "-contracts", os.path.join(HERE, "contracts"), "-out", res] + lim + (["-cross"] if tier == "thorough" else []) + [pid]
        r = subprocess.run(cmd, cwd=HERE, env=ENV, capture_output=True, text=True, timeout=620 if tier == "quick" else 3000)
        log = r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        err = "the verifier did not finish in time"
    except Exception as e:
        err = "the verifier could not run: %s" % e
    obs, R = [], {}
    if err is None:
        try:
            R = json.load(open(res)); obs = R.get("Obligations") or []
        except Exception as e:
            err = "no verifier result: %s\n%s" % (e, log[-3000:])
    if err is None and not obs: err = "no obligations were generated\n" + log[-3000:]
    name = lambda o: (o["function"] + "/" + o["name"]).replace(" ", "_")
    failed = [o for o in obs if o["status"] != "discharged"]
    kn = known(pid)
    listed = [o for o in failed if any(name(o) == k for k, _ in kn)]
    failed = [o for o in failed if o not in listed]
    bysolver = {}
    for o in obs:
        if o["status"] == "discharged":
            k = o.get("solver") or "simplifier"; bysolver[k] = bysolver.get(k, 0) + 1
    fns = R.get("Functions") or {}
    assumed = sorted({a for f in fns.values() for a in (f.get("Assumed") or [])})
    note = os.path.join(HERE, "contracts", pid + ".spec")
    notes = [l.strip()[5:] for l in open(note) if l.startswith("note ")] if os.path.exists(note) else []
    trusted = ["govc (this framework's SSA-to-SMT verification-condition generator, /verif/govc)", "golang.org/x/tools/go/ssa and the Go type checker", "z3 4.8.12, z3 5.3.2, cvc5 1.1.2",
               "contract text /verif/contracts/%s.spec" % pid] + ["library contract: " + a for a in assumed]
    assumptions = ["partial correctness: termination and resource exhaustion are not proved",
                   "slice capacity below 2^48; integer arithmetic otherwise exact machine arithmetic; == on type parameters is a mathematical equality",
                   "panics raised inside callbacks and by the Go runtime for lack of memory or stack are out of scope unless the contract says so"] + notes
    violations = 1 if (failed or err) else 0
    rp = None
    if violations:
        found, txt = False, ""
        try: found, txt = replay(pid, log, tier == "quick")
        except Exception as e: txt = "replay harness: %s" % e
        if found:
            m = re.findall(r"^REPLAY (.*)$", txt, re.M)
            inp = m[0] if m else "see harness output"
        rp = os.path.join(ev, pid + ".replay.json")
        q = {}
        for i, o in enumerate(obs):
            for ext in ("smt2", "model"):
                f = "%s.q%d.%s" % (res, i, ext)
                if os.path.exists(f) and len(q) < 6: q[name(o) + "." + ext] = open(f).read()[:20000]
        json.dump({"property": pid, "failed_obligations": [{"obligation": name(o), "meaning": o["description"], "verifier": o.get("detail", ""), "solver": o.get("solver", "")} for o in failed],
                   "error": err, "failing_input": inp if found else None, "harness_output": txt, "verifier_output": log[-8000:], "verifier_queries": q,
                   "how_to_replay": "python3 /verif/check.py %s; the harness alone: see the go test command in harness_output" % pid}, open(rp, "w"), indent=1)
    for f in glob.glob(res + ".q*"): os.remove(f)
    json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof", "wall_s": round(time.time() - t0, 2), "violations": violations,
               "coverage": {"obligations": len(obs), "discharged": len(obs) - len(failed) - len(listed), "checker_cmd": " ".join(cmd), "trusted_base": trusted,
                            "functions_under_contract": sorted(fns), "functions_executed_inline": sorted({a for f in fns.values() for a in (f.get("Inlined") or [])}),
                            "discharged_by_backend": bysolver, "solver_seconds": round(R.get("SolverSecs") or 0, 2), "solver_calls": R.get("SolverCalls") or 0,
                            "exits_verified": {k: [f["Exits"], f["Panics"]] for k, f in fns.items()},
                            **({"second_solver": {"agreed": R.get("CrossAgreed"), "no_answer": R.get("CrossSilent"), "contrary": R.get("CrossContrary")}} if tier == "thorough" else {}),
                            "obligation_list": [name(o) + ": " + o["status"] for o in obs]},
               "assumptions": assumptions}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for k, d in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    print("%s: %d obligations in %d contracts, %d discharged, %.1fs" % (pid, len(obs), len(fns), len(obs) - len(failed) - len(listed), time.time() - t0))
    if violations:
        for o in failed[:10]: print("undischarged: %s  %s %s" % (name(o), o["description"], o.get("detail", "")[:300]))
        if err: print(err[:1500])
        if found: print("failing input: " + inp[:1000])
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if found else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else "?"
        rp = os.path.join(HERE, "evidence", pid + ".replay.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True); json.dump({"property": pid, "error": repr(e)}, open(rp, "w"))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)); sys.exit(1)
