"""check.py PROP [--tier quick|thorough] : decide one property and write its evidence.
check.py --replay FILE : run one recorded counterexample against the current tree."""
import os, sys, json, time, subprocess, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{VERIF}/engine")
import build as B
from multiprocessing import get_context

ASSUME = [
    "double arithmetic is modelled as exact real arithmetic; rounding is abstracted by a relative tolerance of 1e-9 per monomial (a violation must exceed 1e-7 natively)",
    "inputs range over the boxes listed under bounds; configurations (phases, mechanisms, sizes) are the concrete ones of the harness",
    "additive guard constants below 1e-250 count as zero",
    "the model of BLAS/LAPACK in engine/lapack_model.cpp stands for the linked library; yaml-cpp, fmt and SUNDIALS run concretely",
    "clang -O1, the instrumentation pass, the normal-form rewriting (checked against the code's values at every path) and z3 are trusted",
]


def props():
    return json.load(open(f"{VERIF}/engine/props.json"))


def known(prop):
    out = {}
    try:
        for line in open(f"{VERIF}/known_findings.txt"):
            if line.startswith(f"known: property={prop} "):
                f = line.split(" ", 3)
                out[f[2].split("=", 1)[1]] = f[3].strip() if len(f) > 3 else ""
    except FileNotFoundError:
        pass
    return out


def demangle(names):
    if not names: return []
    r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    out = set()
    for n in r:
        if "Cantera::" in n or "tpx::" in n:
            out.add(n.split("(")[0].split(" ")[-1])
    return sorted(out)


def one(args):
    import decide
    return decide.run_case(args)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    only = sys.argv[sys.argv.index("--case") + 1] if "--case" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = props()[prop]
    try:
        exes, bst = B.build(cfg["harness"])
    except B.BuildError as e:
        print(f"{prop}: build failed\n{e}"); return 3
    kn = known(prop)
    total = cfg.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)
    jobs = []
    for h in cfg["harness"]:
        for case in subprocess.run([exes[h]], capture_output=True, text=True).stdout.split():
            if only and only not in case: continue
            if case.startswith("deep_") and tier == "quick": continue
            o = dict(cfg.get("defaults", {}).get(tier, {}), **cfg.get("opts", {}).get(case, {}))
            if tier == "thorough":      # the quick tier's path and time limits, eight times wider
                o = {k: 8 * v if k in ("max_paths", "budget") else v for k, v in o.items()}
            jobs.append((prop, exes[h], case, f"{VERIF}/data", tier, seed, o,
                         o.get("budget", 60 if tier == "quick" else 900), list(kn)))
    jobs.sort(key=lambda j: -j[6].get("weight", 1))
    res = []
    with get_context("fork").Pool(8, maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(one, jobs):
            res.append(r)
            if "-v" in sys.argv:
                print(f"  {r['case']:34s} paths {r['paths']:3d} oblig {r['obligations']:4d} ok {r['discharged']:4d} undec {len(r['undecided']):3d} "
                      f"flips r{r['flips_reached']} u{r['flips_unknown']} nodes {r['max_nodes']} mism {len(r['translation_mismatch'])} "
                      f"{r['wall_s']} s {'TRUNC' if r['truncated'] else ''} {r['outcomes']} {'ERR ' + r['error'] if r['error'] else ''}", flush=True)
                for u in r["violations"][:6]: print("     VIOLATION", u["label"], u["what"][:300])
                for u in r["undecided"][:6]: print("     undecided", u)
                for u in list(r["unknown_at"].items())[:4]: print("     unknown flip at", u)
                for u in r["translation_mismatch"][:4]: print("     mismatch", u)
                if r["lost"]: print("     lost", r["lost"])
    res.sort(key=lambda r: r["case"])
    os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
    for f in glob.glob(f"{VERIF}/evidence/replay/{prop}-*.json"): os.unlink(f)
    nviol = 0
    lines = []
    for r in res:
        for v in r["violations"]:
            nviol += 1
            path = f"{VERIF}/evidence/replay/{prop}-{nviol}.json"
            json.dump(dict(v, harness=[h for h in cfg["harness"] if v.get("exe", "").startswith(h + "-")][:1] or cfg["harness"][:1]),
                      open(path, "w"), indent=1)
            if nviol <= 20:
                lines.append(f"VIOLATION property={prop} replay={path}")
                lines.append(f"  case {v['case']} obligation {v['label']}: {v['what'][:300]}")
    seen = set()
    for r in res:
        for k in r["known"]:
            if k["key"] not in seen:
                seen.add(k["key"])
                print(f"KNOWN-FINDING: property={prop} {k['key']} {kn[k['key']]}")
    S = lambda k: sum(r[k] for r in res)
    fns = demangle(sorted({f for r in res for f in r["fns"]}))
    errs = [f"{r['case']}: {r['error'][-300:]}" for r in res if r["error"]]
    und = [dict(u, case=r["case"]) for r in res for u in r["undecided"]]
    samples = [dict(s, case=r["case"], bounds=dict(list(r["inputs"].items())[:6])) for r in res for s in r["samples"][:1]][:12]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": S("paths") + S("branches"), "transitions": S("branches"),
              "traces_validated_against_impl": S("validated"),
              "samples": samples or [{"case": r["case"], "outcomes": r["outcomes"]} for r in res[:5]],
              "cases": len(res), "paths": S("paths"), "obligations": S("obligations"), "discharged": S("discharged"),
              "undecided": len(und), "undecided_list": und[:25], "structural_assertions": S("structural"),
              "branch_flips": {"unsat_by_solver": S("flips_unsat_z3"), "unsat_by_bounds": S("flips_unsat_bounds"),
                               "reached": S("flips_reached"), "unknown": S("flips_unknown")},
              "truncated_cases": [r["case"] for r in res if r["truncated"]],
              "solver": "z3", "queries": S("queries"), "solver_s": round(S("solver_s"), 2),
              "native_replays": S("native_checked"), "values_compared_with_code": S("values_compared"),
              "translation_mismatches": [m for r in res for m in r["translation_mismatch"]][:10],
              "paths_outside_assumptions": S("assumed_away"), "max_expression_nodes": max([r["max_nodes"] for r in res] or [0]),
              "functions_encoded": len(fns), "functions": fns[:250],
              "bounds": {r["case"]: {"inputs": len(r["inputs"]), "first": dict(list(r["inputs"].items())[:4])} for r in res[:60]},
              "steps_over_time": S("late"), "shadow_lost": {k: v for r in res for k, v in r["lost"].items()},
              "outcomes": {r["case"]: r["outcomes"] for r in res[:60]}, "build": bst, "case_errors": errs[:10],
              "bounds_note": cfg.get("bounds", "")},
          "assumptions": ASSUME + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    txt = json.dumps(ev, indent=1, default=str)
    while len(txt) > 60000 and ev["coverage"]["functions"]:
        ev["coverage"]["functions"] = ev["coverage"]["functions"][:len(ev["coverage"]["functions"]) // 2]
        ev["coverage"]["bounds"] = dict(list(ev["coverage"]["bounds"].items())[:20])
        ev["coverage"]["outcomes"] = dict(list(ev["coverage"]["outcomes"].items())[:20])
        txt = json.dumps(ev, indent=1, default=str)
    with open(f"{VERIF}/evidence/{prop}.json.tmp", "w") as f: f.write(txt)
    os.rename(f"{VERIF}/evidence/{prop}.json.tmp", f"{VERIF}/evidence/{prop}.json")
    for l in lines: print(l)
    print(f"{prop}: {len(res)} cases, {S('paths')} paths, {S('discharged')}/{S('obligations')} obligations discharged, "
          f"{len(und)} undecided, {nviol} violations, {S('queries')} queries, solver {S('solver_s'):.1f} s, build {bst['build_s']} s, wall {time.time()-t0:.1f} s")
    for e in errs[:3]: print("case error:", e)
    if nviol: return 1
    if not res or all(r["error"] or not r["paths"] for r in res):
        print("no case ran"); return 4
    return 0


def replay(path):
    import decide
    v = json.load(open(path))
    exes, _ = B.build(v["harness"])
    r = decide.Run(exes[v["harness"][0]], v["case"], f"{VERIF}/data", v["inputs"])
    print("outcome:", r.outcome)
    for e in r.events:
        if e[0] in "EDGT" and (e[1] == v["label"] or v["label"] == "outcome"):
            print(e[0], e[1], "a =", e[5], "b =", e[6], "c =", e[7], "node/ok =", e[2])
    print("recorded:", v["what"])
    return 0


if __name__ == "__main__":
    sys.exit(main())
