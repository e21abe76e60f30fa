#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--runs N] [--cap SECONDS]

Rebuilds the targets from /repo's working tree, runs the seeded search for one
property, writes evidence/<id>.json.  Exit 0: held; 1: VIOLATION; other: error."""
import argparse, json, os, subprocess, sys, time
import simbuild
from props import PROPS

VERIF = os.path.dirname(os.path.abspath(__file__))


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            if e["property"] == prop:
                out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--seed", type=int)
    a = ap.parse_args()
    t0 = time.time()
    P = PROPS[a.property]
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    runs = a.runs or P["runs"][0 if tier == "quick" else 1]
    cap = a.cap or (240 if tier == "quick" else 3000)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    evfile = os.path.join(evdir, a.property + ".json")
    try:
        host, sodir = simbuild.build(P["targets"], ["core.cpp", "main.cpp"] + P["sources"])
    except simbuild.BuildError as e:
        print("BUILD ERROR\n" + str(e))
        return 3
    t_build = time.time() - t0
    stats = os.path.join(evdir, ".stats_%s_%d.json" % (a.property, os.getpid()))
    kn = known_findings(a.property)
    cmd = [host, "--so-dir", sodir, "--out", os.path.join(evdir, "replays"), "--property", a.property,
           "--seed", str(seed), "--runs", str(runs), "--jobs", str(a.jobs), "--cap", str(cap),
           "--min-cap", "60" if tier == "quick" else "200", "--stats", stats]
    for e in kn:
        cmd += ["--known", e["class"]]
    r = subprocess.run(cmd)
    try:
        d = json.load(open(stats, encoding="utf-8", errors="replace"), strict=False)
        os.unlink(stats)
    except Exception as e:
        print("ERROR: no statistics from the simulator (exit %d): %s" % (r.returncode, e))
        return 3
    faults = {k[6:]: v for k, v in d["counters"].items() if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in d["counters"].items() if k.startswith("probe.")}
    ops = {k[3:]: v for k, v in d["counters"].items() if k.startswith("op.")}
    ev = {
        "property": a.property, "tier": tier, "seed": seed, "level": P.get("level", "exploration"),
        "coverage": {
            "evaluations": d["runs"],
            "distinct_nontrivial": d["distinct_nontrivial"],
            "rule": P["rule"] + "  Non-trivial: at least one forced context switch, fired fault or declared multi-step history; "
                    "distinct: by hash of the complete event log (all simulated system calls with arguments and results, "
                    "output bytes) and final file contents.",
            "samples": d["samples"],
            "runs_per_hour": round(d["runs_per_hour"]),
            "seeds_per_hour": round(d["runs_per_hour"]),
            "simulated_seconds": d["sim_seconds"],
            "scheduling_and_io_steps": d["steps"],
            "context_switches": d["switches"],
            "distinct_schedules": d["distinct_schedules"],
            "distinct_final_file_states": d["distinct_final_fs"],
            "faults_injected": faults,
            "operations": ops,
            "rare_condition_probes": probes,
            "runs_per_scenario": d["per_scenario"],
            "determinism_reruns": d["determinism_checked"],
            "determinism_mismatches": d["determinism_bad"],
            "violation_reports": d["violations"][:10] if r.returncode == 1 else [],
            "real_code": P["real"],
            "stubs": P["stub"],
        },
        "assumptions": P.get("assumptions", []),
        "violations": len(d["violations"]) if r.returncode == 1 else 0,
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t_build, 2),
    }
    json.dump(ev, open(evfile, "w"), indent=1)
    for e in kn:
        print("KNOWN-FINDING: property=%s %s" % (a.property, e["what"]))
    print("%s %s: %d runs (%d distinct non-trivial) in %.1f s, %.0f runs/h, faults %s" %
          (a.property, tier, d["runs"], d["distinct_nontrivial"], d["search_wall_s"], d["runs_per_hour"], faults))
    simbuild.prune_cache()
    missing = [p for p in P.get("must_hit", []) if not d["counters"].get(p)]
    if r.returncode == 0 and d["determinism_bad"]:
        return 3
    if r.returncode == 0 and missing:
        print("note: probes never hit in this run: %s" % ", ".join(missing))
    if r.returncode not in (0, 1):
        print("ERROR: simulator exit %d" % r.returncode)
        return 3
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())
