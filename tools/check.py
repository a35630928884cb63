#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree."""
import argparse, json, os, sys, time, shutil, random, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import jobs as J

KNOWN_FILE = os.path.join(VERIF, "known_findings.json")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = J.PROPS[prop]
    known = []
    if os.path.exists(KNOWN_FILE):
        known = json.load(open(KNOWN_FILE)).get("known", [])
    work = Work()
    rc = 2
    try:
        rc = decide(a, prop, tier, seed, spec, known, work, t0)
    except CheckError as e:
        print("ERROR %s: %s" % (prop, e))
        rc = 2
    finally:
        work.close()
    sys.exit(rc)


def decide(a, prop, tier, seed, spec, known, work, t0):
    exe = build_engine()
    jobs = spec.jobs(tier, work)
    if a.only:
        jobs = [j for j in jobs if a.only in j.name]
    work.lower_repo()
    def prepare(js):
        for j in js:
            k = (j.harness, j.defs, j.extra_c)
            if k not in work.cache:
                try:
                    work.module(*k)
                except CheckError as e:
                    work.cache[k] = None
                    work.why[k] = str(e)[-600:]

    lock = threading.Lock()

    def one(j, until):
        r = run_job(exe, work, j, until)
        v = [v for v in r.get("violations", []) if not v["known"]]
        if v and not a.only:
            with lock:
                if not work.stop:
                    rc, out = replay(work, j, v[0]["inputs"], "early", tries=True)
                    if rc in (77, 66, 67) or rc < 0:
                        work.stop = time.time() + 30
        return r

    def run(js, until):
        prepare(js)
        js = sorted(js, key=lambda j: -j.weight)
        with ThreadPoolExecutor(NCPU) as ex:
            return list(zip(js, ex.map(lambda j: one(j, until), js)))

    quick = tier != "thorough"
    done = run(jobs, t0 + 480 if quick else None)
    notes, undecided = [], []
    # a job that could not be completed is replaced by its smaller ones
    BAD = ("incomplete", "error", "unlinkable")
    todo = [(j, r) for j, r in done if r["status"] in BAD and j.fallback]
    if todo and not work.stop:
        fb, seen = [], set()
        for j, r in todo:
            fb += [f for f in j.fallback if not (f.name in seen or seen.add(f.name))]
        got = run(fb, t0 + 720 if quick else None)
        st = {f.name: x["status"] for f, x in got}
        for j, r in todo:
            if all(st[f.name] in ("ok", "violation") for f in j.fallback):
                notes.append("%s could not be completed (%s); decided within the bounds of: %s" % (j.name, r.get("why", "")[:300], ", ".join(f.name for f in j.fallback)))
                r["status"] = "replaced"
        done += got
    jobs_sorted, results = [d[0] for d in done], [d[1] for d in done]
    viols, knowns, problems, validated = [], {}, [], 0
    covers = {}
    for j, r in zip(jobs_sorted, results):
        if a.v:
            print("job %-40s %-10s paths=%s queries=%s wall=%.1f %s" % (j.name, r["status"], r.get("paths"), r.get("queries"), r["wall"], r.get("why", "")))
        for c, n in r.get("covers", {}).items():
            covers[c] = covers.get(c, 0) + n
        for i, v in enumerate(r.get("violations", [])):
            (knowns.setdefault(v["known"], []).append((j, v)) if v["known"] else viols.append((j, v)))
        if r["status"] == "unlinkable" and j.optional or (j.optional and r["status"] == "skipped"):
            notes.append("left out: %s: %s" % (j.name, r.get("why", "")))
        elif r["status"] in BAD:
            undecided.append("%s: %s %s" % (j.name, r["status"], r.get("why", "")))
        elif r["status"] == "ok" and j.optional and not r.get("paths", 0):
            r["status"] = "unlinkable"
            notes.append("left out: %s: the tree does not use the function it replaces" % j.name)
        elif r["status"] == "ok" and r.get("paths", 0) < j.min_paths:
            problems.append("%s: only %d paths" % (j.name, r.get("paths", 0)))
    # confirm counterexamples on the real code
    confirmed = []
    for i, (j, v) in enumerate(viols):
        rc, out = replay(work, j, v["inputs"], "v%d" % i, tries=True)
        ok = rc in (77, 66, 67) or rc < 0
        if a.v or not ok:
            print("replay of '%s' (%s, %s): exit %d %s" % (v["msg"], j.name, v["loc"], rc, "" if ok else "NOT REPRODUCED"))
        if ok:
            confirmed.append((j, v, rc, out))
        else:
            undecided.append("counterexample not reproduced on the real code: %s: %s at %s" % (j.name, v["msg"], v["loc"]))
        if len(confirmed) >= 3:
            break
    kf_lines = []
    for kid, lst in knowns.items():
        entry = next((k for k in known if k["id"] == kid), None)
        if entry and entry["property"] != prop:
            continue  # reported under its own property
        j, v = lst[0]
        rc, out = replay(work, j, v["inputs"], "k" + kid, known=True)
        if entry is None or rc != 78:
            if rc == 78 or rc in (66, 67, 77):
                confirmed.append((j, v, rc, out))
            else:
                problems.append("unlisted or unreproduced finding " + kid)
        else:
            kf_lines.append("KNOWN-FINDING: property=%s %s" % (prop, entry["what"]))
    # sampled path models are run natively: same harness, same inputs, must pass
    if not confirmed and not a.only:
        pool = [(j, s) for j, r in zip(jobs_sorted, results) for s in r.get("samples", [])]
        random.Random(seed).shuffle(pool)
        lim = 6 if tier == "quick" else 200
        # one per harness first
        seen, pick = set(), []
        for j, s in pool:
            if (j.harness, j.defs) not in seen:
                seen.add((j.harness, j.defs)); pick.append((j, s))
        pick += [p for p in pool if p not in pick][:max(0, lim - len(pick))]
        for k in {(j.harness, j.defs) for j, s in pick}:
            work.native(*k)
        with ThreadPoolExecutor(NCPU) as ex:
            rr = list(ex.map(lambda q: replay(work, q[1][0], q[1][1], "s%d" % q[0]), enumerate(pick)))
        for (j, s), (rc, out) in zip(pick, rr):
            if rc == 0:
                validated += 1
            elif rc in (66, 67, 77):  # the real code, built by gcc, breaks the property on these inputs
                confirmed.append((j, {"kind": "native", "msg": "the natively built code fails on the inputs of a path that passes symbolically", "loc": out[-200:].strip().replace("\n", " "), "inputs": s}, rc, out))
            else:
                problems.append("sampled path of %s fails natively (exit %d): %s" % (j.name, rc, out[-300:]))
    # vacuity guards
    if not confirmed and not a.only and not viols:
        for c in spec.covers(tier):
            if not covers.get(c):
                undecided.append("vacuous: nothing reached '%s'" % c)
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    smp = []
    for j, r in zip(jobs_sorted, results):
        for s in r.get("samples", [])[:1]:
            smp.append({"job": j.name, "params": j.params, "inputs": ["%s=%d" % (n, v) for n, w, v in s[:12]] + (["... %d inputs" % len(s)] if len(s) > 12 else [])})
        if len(smp) >= 4:
            break
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": spec.explanation,
              "bounds": spec.bounds(tier),
              "functions_encoded": funcs,
              "jobs": [{"name": j.name, "params": j.params, "status": r["status"], "paths": r.get("paths"), "forks": r.get("forks"), "queries": r.get("queries"),
                        "unsat": r.get("unsat"), "sat": r.get("sat"), "solver_ms": r.get("solver_ms"), "instructions": r.get("instructions"), "asserts": r.get("asserts"), "eq_pairs": r.get("eq_pairs"), "wall_s": round(r["wall"], 2)} for j, r in zip(jobs_sorted, results)],
              "symbolic_paths": tot("paths"), "assertions_checked": tot("asserts"), "assertion_queries": tot("assert_queries"),
              "equality_pairs": tot("eq_pairs"), "equal_after_rewriting": tot("eq_structural"), "equality_local_queries": tot("eq_local_proofs"), "equality_full_queries": tot("eq_full_queries"),
              "rewrite_lemmas_discharged": tot("narrowing_lemmas"),
              "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"),
              "solver_s": round(tot("solver_ms") / 1000.0, 3), "sampled_paths_run_natively_and_passed": validated,
              "cover_points": covers, "samples": smp, "solver": "z3 4.8.12 via its C API", "problems": problems, "undecided": undecided, "notes": notes,
              "known_findings_seen": [l for l in kf_lines],
          },
          "assumptions": spec.assumptions + J.COMMON_ASSUMPTIONS,
          "violations": len(confirmed), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in kf_lines:
        print(l)
    if confirmed:
        d = os.path.join(BUILD, "violations", prop)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        for i, (j, v, rc, out) in enumerate(confirmed):
            p = os.path.join(d, "cex%d.json" % i)
            with open(p, "w") as f:
                json.dump({"property": prop, "job": j.name, "harness": j.harness, "defs": j.defs, "params": j.params, "kind": v["kind"], "msg": v["msg"], "loc": v["loc"],
                           "inputs": v["inputs"], "native_exit": rc, "native_output": out[-4000:]}, f, indent=1)
            print("violated: %s: %s (%s) at %s; native replay exit %d" % (j.name, v["msg"], v["kind"], v["loc"], rc))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    for n in notes:
        print("NOTE %s: %s" % (prop, n))
    if not any(r["status"] == "ok" for r in results):
        problems.append("no job was decided")
    for u in undecided:
        print("UNDECIDED %s: %s" % (prop, u))
    if problems:
        for p in problems:
            print("ERROR %s: %s" % (prop, p))
        return 2
    print("OK property=%s tier=%s jobs=%d paths=%d queries=%d solver=%.1fs native-validated=%d wall=%.1fs" % (prop, tier, len(jobs), tot("paths"), tot("queries"), tot("solver_ms") / 1000, validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
