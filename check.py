#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property (see DESIGN.md).

Builds /repo's crate with the harness to LLVM bitcode, executes the harness entry of every
job symbolically, has Z3 certify/decide every branch and every assertion, replays models
natively, and writes evidence/PROPERTY.json. Exit 0: held on everything explored; exit 1 +
VIOLATION line: a natively reproduced counterexample; anything else: no verdict."""
import json, os, re, sys, threading, time
import vlib, specs
from vlib import *

CRATE = re.compile("wolfram_parser|codeparser_wll")
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = specs.PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    box = {}
    def bg():
        try: box["exe"] = build_replay(sub=spec.sub)
        except BaseException as e: box["err"] = e
    build_engine()
    bc = build_bitcode(sub=spec.sub)
    t_bc = time.time() - t0
    th = threading.Thread(target=bg); th.start()
    jobs = spec.jobs(tier)
    secs = 420 if tier == "quick" else spec.thorough_secs
    r = symex(bc, jobs, os.path.join(BUILD, "run-" + pid), secs, 240, spec.sample, maxviol=400)
    th.join()
    if "exe" not in box: fail("replay build failed: %r" % (box.get("err"),))
    exe = box["exe"]
    s = r.sum
    problems = []
    if r.rc not in (0, 1) or not s: problems.append("executor ended abnormally (rc %s): %s" % (r.rc, r.out[-400:]))
    for k in ("timedout", "unexplored", "crashed", "errors", "unknown", "cert_failed"):
        if s.get(k): problems.append("%s=%s" % (k, s[k]))
    if s.get("cert_checked", 0) < s.get("cert_total", 0): problems.append("only %s of %s branch obligations certified" % (s.get("cert_checked"), s.get("cert_total")))
    for e in sorted({x[1][:300] for x in r.errors})[:5]: problems.append("error: " + e)
    # ---- counterexamples: replay natively, smallest first, one per distinct site
    known = [f for f in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if f["property"] == pid]
    groups = {}
    for v in r.viol:
        loc = v[4].split("|")[0] if v[1] != "check" else ""
        groups.setdefault((jobs[v[0]].entry, v[1], v[2], loc), []).append(v)
    real, known_hits, unreal = [], {}, []
    for key, vs in sorted(groups.items(), key=str):
        vs.sort(key=lambda v: (sum(map(len, jobs[v[0]].decode(v[3][0]))), v[0]))
        pick = vs[:40]
        res, err = replay(exe, [(jobs[v[0]], v[3]) for v in pick], os.path.join(BUILD, "run-" + pid, "cex.model"))
        if len(res) < len(pick): res += [("crash", [], [])] * (len(pick) - len(res))
        for v, rr in zip(pick, res):
            ins = jobs[v[0]].decode(v[3][0])
            if rr[0] in ("panic", "check-failed", "crash"):
                kf = next((f for f in known if matches(f, jobs[v[0]], ins, rr)), None)
                if kf: known_hits[kf["id"]] = kf
                else: real.append((v, rr, ins))
            else: unreal.append((key, rr, ins))
    for f in known_hits.values(): print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    # ---- validation of the executor against the native build on sampled paths
    recs = [(jobs[a[0]], a[2]) for a in r.samples][:spec.max_samples]
    exp = r.samples[:spec.max_samples]
    validated = 0
    if recs:
        res, err = replay(exe, recs, os.path.join(BUILD, "run-" + pid, "samples.model"), timeout=240)
        if len(res) != len(recs): problems.append("native replay of sampled paths ended early (%d of %d): %s" % (len(res), len(recs), err[-300:]))
        for (jid, kind, m, logs), rr in zip(exp, res):
            native_ok = rr[0] == "ok"
            if native_ok and rr[2] == logs: validated += 1
            else: problems.append("executor and native build disagree on %r: native %s" % (jobs[jid].decode(m[0]), rr[:2])); break
    # ---- vacuity: every declared witness must have been reached
    for w, what in spec.witness.items():
        if not r.reach.get(w): problems.append("vacuous: witness %d (%s) not reached" % (w, what))
    empty = [i for i in range(len(jobs)) if not r.jobpaths.get(i)]
    if empty: problems.append("job(s) without any completed path: " + ", ".join(jobs[i].show() for i in empty[:3]))
    samples = [{"job": jobs[a[0]].show(), "inputs": [repr(x)[2:-1] for x in jobs[a[0]].decode(a[2][0])]} for a in exp[:: max(1, len(exp) // 12)]][:12]
    cov = {
        "states": s.get("paths", 0), "transitions": s.get("forks", s.get("branches", 0)),
        "traces_validated_against_impl": validated, "samples": samples,
        "jobs": len(jobs), "bounds": spec.bounds(tier, jobs), "outside_the_bounds": spec.outside,
        "assertions_evaluated": s.get("checks", 0), "assertions_decided_symbolically": s.get("symchecks", 0),
        "solver": {"name": "Z3 (libz3)", "path_and_assertion_queries": s.get("queries", 0), "sat": s.get("sat", 0), "unsat": s.get("unsat", 0), "unknown": s.get("unknown", 0),
                   "branch_obligations": s.get("cert_total", 0), "branch_obligations_certified_by_z3": s.get("cert_checked", 0), "certification_queries": s.get("cert_queries", 0),
                   "query_time_s": round(s.get("solver_us", 0) / 1e6, 2), "certification_time_s": round(s.get("cert_us", 0) / 1e6, 2)},
        "instructions_executed": s.get("instructions", 0),
        "functions_encoded": {"count": len([f for f in r.funcs if CRATE.search(f)]), "list": sorted(f for f in r.funcs if CRATE.search(f))[:400]},
        "witnesses": {what: r.reach.get(w, 0) for w, what in spec.witness.items()},
        "known_findings_hit": sorted(known_hits), "build_s": round(t_bc, 1), "executor_s": round(r.wall, 1), "problems": problems,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": specs.ASSUMPTIONS + spec.assumptions,
          "wall_s": round(time.time() - t0, 1), "violations": len(real)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if real:
        real.sort(key=lambda x: sum(map(len, x[2])))
        v, rr, ins = real[0]
        path = os.path.join(VERIF, "evidence", pid + ".replay.txt")
        with open(path, "w") as f:
            f.write("# %s: inputs %r options %#x: native result %s, failed assertions %s\n# at %s\n# replay: cd %s && VERIF_BUILD=%s python3 -c 'import vlib; print(vlib.replay_file(vlib.build_replay(sub=%r), %r))'\n" % (pid, ins, jobs[v[0]].opts, rr[0], rr[1], v[4], VERIF, BUILD, spec.sub, path))
            f.write("---\nentry: %s\nparams: %s\nbytes: %s\nwords: %s\n" % (jobs[v[0]].entry, " ".join(map(str, jobs[v[0]].encode())), " ".join(map(str, v[3][0])), " ".join(map(str, v[3][1]))))
        for v2, rr2, ins2 in real[:10]: print("counterexample: %s inputs=%r opts=%#x native=%s failed=%s %s" % (jobs[v2[0]].entry, ins2, jobs[v2[0]].opts, rr2[0], rr2[1], v2[4][:160]))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        sys.exit(1)
    if unreal: problems.append("counterexample did not reproduce natively: %r" % (unreal[0],))
    if problems:
        for p in problems: print("ERROR: " + p)
        sys.exit(2)
    print("%s held: %d paths, %d assertions, %d obligations certified by Z3, %d direct queries, %d samples validated natively, %.1f s" % (pid, cov["states"], cov["assertions_evaluated"], s.get("cert_checked", 0), s.get("queries", 0), validated, ev["wall_s"]))

def matches(f, job, ins, rr):
    """A known finding names entry, a regular expression every input must match, and the failing assertion or panic."""
    return f["entry"] == job.entry and (f["result"] == "panic" and rr[0] in ("panic", "crash") or f["result"] in rr[1] and set(rr[1]) <= {f["result"]}) \
        and re.search(f["input"].encode("latin1"), ins[0], re.S) is not None
if __name__ == "__main__": main()
