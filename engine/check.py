"""Runs all parts of a property: python3-vt engine/check.py PID"""
import json
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            # finding: property=<id> part=<part> label=<label> :: what fails
            if line.startswith("finding:") and "property=%s " % pid in line:
                head, _, text = line.partition("::")
                part, _, label = head.partition(" part=")[2].partition(" label=")
                d = {"part": part.strip(), "label": label.strip(), "text": text.strip()}
                out.append(d)
    return out


def main():
    pid = sys.argv[1]
    only = sys.argv[2:] or None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from engine import parts

    m = parts.load(pid)
    todo = [p for p in m.PARTS if tier in p.tiers and (only is None or p.name in only)]
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
    rep = os.path.join(evdir, "replays")
    os.makedirs(rep, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-")

    def go(p):
        out = os.path.join(scratch, p.name.replace("/", "_") + ".json")
        env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0")
        lim = p.timeout * (4 if tier == "thorough" else 1) + 200
        if tier == "quick":
            lim = min(lim, 860)
        try:
            r = subprocess.run([sys.executable, os.path.join(HERE, "run_part.py"), pid, p.name, out],
                               env=env, capture_output=True, text=True, timeout=lim)
        except subprocess.TimeoutExpired:
            return p, None, "timed out"
        if not os.path.exists(out):
            return p, None, r.stderr[-3000:]
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write(r.stderr)
        with open(out) as f:
            return p, json.load(f), ""

    todo.sort(key=lambda p: -p.timeout)
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        results = list(ex.map(go, todo))
    import shutil

    shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings(pid)
    viol, inc, found = [], [], []
    tot = {}
    smt = {}
    funcs, notes, samples, bounds, perpart = set(), set(), [], [], []
    validated = 0
    for p, r, err in results:
        if r is None:
            inc.append({"part": p.name, "label": "harness", "status": "error", "detail": err})
            continue
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r["smt"].items():
            smt[k] = smt.get(k, 0) + v
        funcs |= {"%s:%s" % (a, b) for a, b, c in r["functions"]}
        notes |= set(r["notes"])
        validated += r["validated"]
        bounds.append("%s: %s" % (p.name, p.bounds))
        for s in r["samples"][:1]:
            samples.append({"part": p.name, "inputs": s})
        if r["sample_query"] and len(samples) < 12:
            samples.append({"part": p.name, "query": r["sample_query"]})
        perpart.append({"part": p.name, "paths": r["stats"]["paths"], "obligations": r["stats"]["obligations"],
                        "discharged": r["stats"]["discharged"], "validated": r["validated"], "wall_s": round(r["wall_s"], 1),
                        "z3_s": round(r["smt"]["z3_time"], 1)})
        for v in r["violations"]:
            kf = [k for k in known if (k["part"], k["label"]) == (p.name, v["label"])]
            if kf:
                found.append((p.name, kf[0]))
                continue
            v["part"] = p.name
            viol.append(v)
        for x in r["inconclusive"]:
            x["part"] = p.name
            inc.append(x)
        for x in r["validation_errors"]:
            inc.append({"part": p.name, "label": "encoding validation", "status": "mismatch", "detail": str(x)})
    rc = 0
    for n, k in {(n, k["text"]): (n, k) for n, k in found}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for i, v in enumerate(viol):
        path = os.path.join(rep, "%s-%d.json" % (pid, i))
        with open(path, "w") as f:
            json.dump({"property": pid, "part": v["part"], "label": v["label"], "detail": v["detail"], "inputs": v["inputs"],
                       "all_failed": v["all"], "solver": v["solver"],
                       "how": "cd /verif && PYTHONPATH=/repo /opt/venv/bin/python engine/replay_main.py <this file>"},
                      f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   part %s, obligation %s: %s" % (v["part"], v["label"], v["detail"][:600]))
        rc = 1
    for x in inc:
        print("INCONCLUSIVE property=%s part=%s label=%s (%s) %s" % (
            pid, x["part"], x["label"], x["status"], str(x.get("detail", ""))[-700:]))
    # a part that could not be decided explored nothing; exit 0 says the property held on everything
    # explored, which needs at least one part decided in full and confirmed on the real code
    open_parts = {x["part"] for x in inc}
    if inc and rc == 0 and not any(r is not None and r["validated"] and r["stats"]["discharged"] and p.name not in open_parts
                                   for p, r, _ in results):
        rc = 2
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("decisions", 0) + int(smt.get("queries", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples[:14] or ["no sample"],
            "obligations": tot.get("obligations", 0),
            "discharged": tot.get("discharged", 0),
            "meaning": "states: symbolic paths explored to the end; transitions: branch decisions plus solver queries; "
                       "traces_validated_against_impl: solver-chosen or generic inputs of explored paths on which the real, "
                       "unmodified code produced the values the encoding predicts (also the reachability witnesses)",
            "functions_encoded": sorted(funcs),
            "bounds": bounds,
            "per_part": perpart,
            "solver": {"z3_queries": smt.get("queries", 0), "z3_seconds": round(smt.get("z3_time", 0), 2),
                       "unsat": smt.get("unsat", 0), "sat": smt.get("sat", 0), "unknown": smt.get("unknown", 0),
                       "cvc5_queries": smt.get("cvc5_queries", 0)},
            "inconclusive": len(inc),
            "undecided_parts": sorted(open_parts),
        },
        "assumptions": sorted(notes | set(getattr(m, "ASSUMPTIONS", []))
                              | {"arithmetic over the exact reals: rounding is outside the claim"}),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d parts, %d paths, %d/%d obligations discharged, %d queries, %.1f s solver, %.1f s" % (
        pid, ("ok" if not inc else "ok where decided (%d parts undecided)" % len(open_parts)) if rc == 0 else ("VIOLATED" if rc == 1 else "INCONCLUSIVE"), len(todo), tot.get("paths", 0),
        tot.get("discharged", 0), tot.get("obligations", 0), smt.get("queries", 0), smt.get("z3_time", 0), wall))
    sys.exit(rc)


main()
