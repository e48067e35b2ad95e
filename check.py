#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]      decide one property on /repo's current tree
   check.py --replay FILE                         run a reported counterexample natively again
   check.py --setup                               build the engine

Exit 0: held on everything explored. Exit 1: VIOLATION line(s). Exit 2: no answer."""
import json, os, subprocess, sys, time, tempfile, random

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + "/lib")
import build, props

MEMORY = ("heap write outside", "heap read outside", "invalid or double free", "crash: signal", "stack")
HANG = "does not terminate"


def parse(s):
    parts = s.split("|")
    vals = parts[0].split()[1:]
    names = [n for n in (parts[1].strip().split(",") if len(parts) > 1 else []) if n]
    return vals, names


def native(exe, harness, tier, vals, timeout=90, env=None):
    try:
        p = subprocess.run([exe, harness, tier] + vals, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -14, "timeout"


def asan_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:exitcode=77"
    return e


def confirm(prog, pexe, harness, tier, vals):
    """replays a counterexample against an ordinary build; (confirmed, how, output)"""
    rc, out = native(pexe, harness, tier, vals)
    if rc == 1:
        return True, "native replay: " + out.strip().split("\n")[-1], out
    if rc == -14:
        return True, "native replay does not terminate", out
    if rc < 0:
        return True, "native replay crashed with signal %d" % -rc, out
    try:
        a = build.asan_program(prog["file"], prog["groups"], prog.get("flags", []))
    except build.BuildError as e:
        return False, "not confirmed natively; no AddressSanitizer build: " + str(e)[-300:], out
    rc, out2 = native(a, harness, tier, vals, env=asan_env())
    if rc != 0:
        line = [l for l in out2.split("\n") if "ERROR: AddressSanitizer" in l or "REPLAY violation" in l]
        return True, "AddressSanitizer replay: " + (line[0] if line else "exit %d" % rc), out2
    return False, "counterexample does not reproduce natively", out


def known_findings(pid):
    path = ROOT + "/known_findings.json"
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == pid and k["status"] == "open"]


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build.engine()
        return 0
    if args and args[0] == "--replay":
        r = json.load(open(args[1]))
        prog = [p for p in props.PROPS[r["property"]]["programs"] if p["file"] == r["program"] and p.get("flags", []) == r.get("flags", p.get("flags", []))][0]
        _, pexe = build.program(prog["file"], prog["groups"], prog.get("flags", []))
        ok, how, out = confirm(prog, pexe, r["harness"], r["tier"], r["values"])
        print(out)
        print(how)
        return 1 if ok else 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = props.PROPS[pid]
    start = time.time()
    deadline = start + (600 if tier == "quick" else 3300)
    rundir = tempfile.mkdtemp(prefix="verif-")
    harnesses, violations, unconfirmed, errors, notbuilt = [], [], [], [], []
    functions, samples = set(), []
    validated = 0
    replays = ROOT + "/evidence/replay"
    os.makedirs(replays, exist_ok=True)
    for old in os.listdir(replays):
        if old.startswith(pid + "-"):
            os.unlink(replays + "/" + old)
    built = {}
    for prog in spec["programs"]:
        try:
            exe, pexe = build.program(prog["file"], prog["groups"], prog.get("flags", []))
        except (build.BuildError, subprocess.TimeoutExpired) as e:
            notbuilt.append(prog["file"])
            print("NOT BUILT %s: %s" % (prog["file"], str(e)[-1500:]), flush=True)
            continue
        built[prog["file"]] = pexe
        for h in prog["harnesses"]:
            name, quick, thorough = (list(h) + [None, None])[:3]
            budget = (quick or 30) if tier == "quick" else (thorough or 4 * (quick or 30))
            if quick == 0 and tier == "quick":
                continue
            budget = max(5, min(budget, deadline - time.time()))
            outp = rundir + "/" + name + ".json"
            cmd = [exe, name, "--time", str(budget), "--jobs", str(build.JOBS), "--out", outp, "--tier", tier]
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 90)
                r = json.load(open(outp))
            except Exception as e:
                errors.append("%s: %s" % (name, e))
                continue
            if not r["violations"] and not sum(r["reached"].values()) and r["paths"] and prog.get("reach", True):
                errors.append(name + ": no path reached the assertions (vacuous)")
            if not r["paths"] and not r["violations"]:
                errors.append(name + ": no path completed")
            functions.update(r.pop("functions"))
            smp = r.pop("samples")
            viol = r.pop("violations")
            r["program"] = prog["file"]
            r["bounds"] = prog.get("bounds", {}).get(name, "")
            harnesses.append(r)
            # the encoding is validated by running sampled paths natively
            rng = random.Random(seed)
            pick = smp if len(smp) <= 12 else rng.sample(smp, 12)
            for s in pick:
                vals, names = parse(s)
                rc, out = native(pexe, name, tier, vals)
                if rc == 0:
                    validated += 1
                else:
                    viol.append({"msg": "native run of an explored path disagrees: " + out.strip().split("\n")[-1], "in": s})
                    break
            if smp:
                vals, names = parse(smp[len(smp) // 2])
                samples.append({"harness": name, "inputs": dict(("%d:%s" % (i, n), v) for i, (n, v) in enumerate(zip(names, vals)))})
            for v in viol:
                vals, names = parse(v["in"])
                ok, how, out = confirm(prog, pexe, name, tier, vals)
                rec = {"property": pid, "program": prog["file"], "flags": prog.get("flags", []), "harness": name, "tier": tier, "values": vals,
                       "inputs": ["%s=%s" % x for x in zip(names, vals)], "message": v["msg"], "confirmation": how}
                if ok:
                    path = "%s/%s-%s-%d.json" % (replays, pid, name, len(violations))
                    rec["rerun"] = "python3 /verif/check.py --replay " + path
                    json.dump(rec, open(path, "w"), indent=1)
                    violations.append(rec)
                    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
                    print("  harness %s: %s\n  inputs: %s\n  %s" % (name, v["msg"], " ".join(rec["inputs"]), how), flush=True)
                else:
                    unconfirmed.append(rec)
                    print("  (unconfirmed, not reported) %s: %s [%s] %s" % (name, v["msg"], " ".join(rec["inputs"]), how), flush=True)
            print("%s: %d paths, %s, %d assertion queries, %.1f s" % (name, r["paths"], "complete" if r["complete"] else "bounded by time",
                  r["assertQueries"], r["wall"]), flush=True)
            if violations and tier == "quick":
                break
        if violations and tier == "quick":
            break
    known = []
    for k in known_findings(pid):
        prog = [p for p in spec["programs"] if p["file"] == k["program"]][0]
        if prog["file"] in built:
            ok, how, out = confirm(prog, built[prog["file"]], k["harness"], "quick", k["values"])
            if ok:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
                known.append(k["what"])
    tot = lambda key: int(sum(h[key] for h in harnesses))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("branches"),
            "traces_validated_against_impl": validated, "samples": samples or ["none"],
            "exhaustive": bool(harnesses) and all(h["complete"] for h in harnesses) and not notbuilt and not errors,
            "rule": "states: execution paths of the instrumented implementation, each a class of inputs described by its path "
                    "condition; transitions: symbolic branch decisions on them; a branch not taken is explored if the solver "
                    "finds inputs for it; every assertion is decided by the solver for all inputs of the path",
            "assertion_queries": tot("assertQueries"), "assertions_discharged_by_solver": tot("assertDischarged"),
            "assertions_input_independent_on_their_path": tot("assertConcrete"), "assertions_unknown": tot("assertUnknown"),
            "branch_queries_sat": tot("flipsSat"), "branch_queries_unsat": tot("flipsUnsat"), "branch_queries_unknown": tot("flipsUnknown"),
            "solver_s": round(tot("solverMicros") / 1e6, 2), "functions_encoded": len(functions),
            "functions_encoded_sample": sorted(functions)[:60],
            "harnesses": [{k: h[k] for k in ("harness", "program", "bounds", "complete", "paths", "left", "lost", "assertQueries",
                           "assertDischarged", "assertConcrete", "assertUnknown", "flipsUnknown", "mismatches", "concretised", "externals", "reached", "notes", "wall")} for h in harnesses],
            "bounds": spec.get("bounds", ""), "outside": spec.get("outside", ""),
            "unconfirmed_counterexamples": unconfirmed, "not_built": notbuilt, "errors": errors, "known_findings": known,
        },
        "assumptions": props.COMMON + spec.get("assumptions", []),
        "wall_s": round(time.time() - start, 2), "violations": len(violations),
    }
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    json.dump(evidence, open("%s/evidence/%s.json" % (ROOT, pid), "w"), indent=1)
    subprocess.run(["rm", "-rf", rundir])
    if violations:
        return 1
    for e in errors:
        print("ERROR " + e)
    if errors or not harnesses:
        return 2
    print("HELD property=%s paths=%d exhaustive=%s" % (pid, evidence["coverage"]["states"], evidence["coverage"]["exhaustive"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
