#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -- decide one property by symbolic execution of /repo's current code."""
import glob, json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
import cases as C

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = C.CHECKS[pid]
    t0 = time.time()
    if subprocess.run(["bash", "build.sh"] + (["ship"] if C.ship_lines(pid, tier) else [])).returncode != 0:
        print(f"ERROR property={pid} build failed"); return 2
    build_s = time.time() - t0
    d = f"{HERE}/out/{pid}"
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(d + "/*.txt") + glob.glob(d + "/*.json"): os.remove(f)
    lines = C.lines(pid, tier)
    with open(d + "/cases.lst", "w") as f: f.write("\n".join(lines) + "\n")
    ll = max(glob.glob(f"{HERE}/harness/target/release/deps/harness-*.ll"), key=os.path.getmtime)
    binp = f"{HERE}/harness/target/release/harness"
    budget = spec.get("budget", {}).get(tier, 420 if tier == "quick" else 780)
    cmd = [f"{HERE}/engine/target/release/irsym", "--ll", ll, "--bin", binp, "--cases", d + "/cases.lst", "--out", d + "/result.json",
           "--replays", d, "--jobs", str(os.cpu_count() or 8), "--deadline", str(budget), "--query-ms", "20000" if tier == "quick" else "120000", "--case-secs", "90" if tier == "quick" else "300", "--feas-ms", "300" if tier == "quick" else "1000",
           "--stop-after", "100000" if load_known(pid) else "4"]
    p = subprocess.run(cmd)
    if p.returncode != 0 or not os.path.exists(d + "/result.json"):
        print(f"ERROR property={pid} symbolic executor failed ({p.returncode})"); return 2
    r = json.load(open(d + "/result.json"))
    # the same, on the code as it ships (no debug assertions, no overflow checks), for a part of the cases
    sl = C.ship_lines(pid, tier)
    ship_note = []
    if sl:
        lines += sl
        with open(d + "/ship.lst", "w") as f: f.write("\n".join(sl) + "\n")
        lls = glob.glob(f"{HERE}/harness/target/ship/deps/harness-*.ll")
        os.makedirs(d + "/ship", exist_ok=True)
        for f in glob.glob(d + "/ship/*"): os.remove(f)
        c2 = list(cmd)
        if lls:
            for k, v in (("--ll", max(lls, key=os.path.getmtime)), ("--bin", f"{HERE}/harness/target/ship/harness"), ("--cases", d + "/ship.lst"), ("--out", d + "/ship.json"), ("--replays", d + "/ship"), ("--deadline", "180" if tier == "quick" else "400")):
                c2[c2.index(k) + 1] = v
            subprocess.run(c2)
        try:
            r2 = json.load(open(d + "/ship.json"))
            r["cases"] += r2["cases"]
        except (OSError, ValueError):
            ship_note = ["shipping profile: not built or not run"]; lines = lines[:-len(sl)]
    known = load_known(pid)
    cs = r["cases"]
    hard, viol, kf, incon = [], [], [], list(ship_note)
    undecided = set()
    for c in cs:
        for v in c["violations"]:
            k = next((k for k in known if k["match"] in f"{c['case']} {v['what']} {v['detail']} {' '.join(v['inputs'])}"), None)
            (kf if k else viol).append((c, v, k))
        # what the executor could not decide is reported and not counted as explored; it is never a verdict
        if c["unreproduced"]: incon.append(f"{c['case']}: counterexample did not reproduce natively: {c['unreproduced'][0]['what']} ({c['unreproduced'][0]['replay']})")
        for m in c["mismatch"][:2]: incon.append(f"{c['case']}: engine and native run disagree: {m[:600]}")
        for e in c["errors"][:3]: incon.append(f"{c['case']}: {e[:600]}")
        for e in c["inconclusive"][:3]: incon.append(f"{c['case']}: {e[:600]}")
        if c["unreproduced"] or c["mismatch"] or c["errors"] or c["inconclusive"]: undecided.add(c["case"])
        if not c["violations"] and c["case"] not in undecided:
            want = ["end"]
            for w in want:
                if not c["reached"].get(w): hard.append(f"{c['case']}: vacuous, no explored path reaches '{w}'")
    missing = len(lines) - len(cs)
    if missing: hard.append(f"{missing} case(s) produced no result")
    paths = sum(c["paths"] for c in cs)
    stats = {}
    for c in cs:
        for k, n, s in c["query_stats"]:
            a = stats.setdefault(k, [0, 0.0]); a[0] += n; a[1] = round(a[1] + s, 3)
    full = sum(1 for c in cs if c["case"] not in undecided)
    samples = [{"case": c["case"], "harness": c["harness"], "params": c["params"], "paths": c["paths"], "reached": c["reached"], "instructions": c["instructions"]} for c in cs[:: max(1, len(cs) // 6)]][:8]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": paths,
            "transitions": sum(c["instructions"] for c in cs),
            "traces_validated_against_impl": sum(c["validated"] for c in cs),
            "samples": samples,
            "meaning": "states = symbolic paths explored (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically; traces validated = explored paths whose solver model was run on the native binary with identical observations",
            "bounds": spec["bounds"],
            "outside_the_claim": spec.get("outside", ""),
            "cases": len(cs), "cases_fully_explored": full, "cases_on_the_shipping_profile": sum(1 for c in cs if ".s" in c["case"]),
            "paths_completed": sum(c["completed"] for c in cs), "paths_assumed_away": sum(c["assumed_away"] for c in cs), "paths_ending_in_allowed_panic": sum(c["allowed_panics"] for c in cs), "forks": sum(c["forks"] for c in cs),
            "assertions_decided_by_term_identity": sum(c["asserts_static"] for c in cs),
            "assertions_decided_by_interval_facts": sum(c["asserts_interval"] for c in cs),
            "assertions_decided_by_solver": sum(c["asserts_solver"] for c in cs),
            "queries_discharged": sum(c["queries"] for c in cs), "solver_s": round(sum(c["solver_s"] for c in cs), 3), "query_results": stats, "solver": r["z3"],
            "symbolic_inputs_max": max([c["inputs"] for c in cs] or [0]),
            "functions_encoded_total": r["functions_executed"], "repo_functions_encoded": r["repo_functions"], "repo_source_lines_executed": r["repo_lines"],
            "inconclusive": incon, "build_s": round(build_s, 1), "exhaustive": bool(not incon and not hard),
        },
        "assumptions": C.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs("evidence", exist_ok=True)
    with open(f"evidence/{pid}.json", "w") as f: json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: {len(cs)} cases ({full} fully explored), {paths} paths, {ev['coverage']['queries_discharged']} queries in {ev['coverage']['solver_s']} s, {ev['coverage']['traces_validated_against_impl']} traces validated, {ev['wall_s']} s (build {build_s:.0f} s)")
    for i in incon[:10]: print("INCONCLUSIVE (not counted as explored)", i)
    seen = set()
    for c, v, k in kf:
        if k["id"] not in seen: print(f"KNOWN-FINDING: property={pid} {k['what']}"); seen.add(k["id"])
    for k in known:
        if k["id"] not in seen and tier == "thorough" or (k["id"] not in seen and k.get("always")): print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for c, v, _ in viol[:20]:
        print(f"VIOLATION property={pid} replay={v['replay']}")
        print(f"  case {c['case']} ({c['harness']} {c['params']}): {v['what']}; native: {v['detail']}; inputs: {' '.join(v['inputs'][:40])}")
    if viol: return 1
    for h in hard[:10]: print("ERROR", h)
    if hard: return 2
    if 10 * full < len(cs): print(f"ERROR property={pid} only {full} of {len(cs)} cases were decided"); return 2
    return 0

def load_known(pid):
    out = []
    try: txt = open("known-findings.txt").read()
    except FileNotFoundError: return out
    for i, l in enumerate(txt.splitlines()):
        if l.startswith("known: property=" + pid + " "):
            rest = l.split(" ", 2)[2]
            m, what = rest.split(" :: ", 1)
            out.append({"id": i, "match": m.strip(), "what": what.strip()})
    return out

sys.exit(main())
