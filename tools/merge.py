"""merge.py Cxx dir: put the evidence of the parts of a check together."""
import glob, json, os, sys
prop, d = sys.argv[1:3]
tot = None
parts = {}
for f in sorted(glob.glob(f"{d}/{prop}-*.json")):
    e = json.load(open(f))
    c = e["coverage"]
    name = os.path.basename(f)[len(prop) + 1:-5].split("-")[0]
    p = parts.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0, "processes": 0, "scenarios": {}, "observed": {}, "samples": [], "rule": c.get("rule", ""), "violations": 0, "wall_s": 0})
    p["evaluations"] += c["evaluations"]
    p["distinct_nontrivial"] += c["distinct_nontrivial"]
    p["processes"] += 1
    p["violations"] += e["violations"]
    p["wall_s"] = max(p["wall_s"], e["wall_s"])
    for k, v in c.get("scenarios", {}).items():
        q = p["scenarios"].setdefault(k, {"cases": 0, "nontrivial": 0})
        q["cases"] += v["cases"]
        q["nontrivial"] += v["nontrivial"]
    for k, v in c.get("observed", {}).items():
        p["observed"][k] = p["observed"].get(k, 0) + v
    p["samples"] += c["samples"][:6]
    tot = e
read = lambda n: open(f"{d}/{n}").read().split("\n")[:-1] if os.path.exists(f"{d}/{n}") else []
s = lambda k: sum(p[k] for p in parts.values())
out = {
    "property": prop, "tier": tot["tier"], "seed": tot["seed"], "level": "exploration",
    "coverage": {
        "evaluations": s("evaluations"), "distinct_nontrivial": s("distinct_nontrivial"),
        "rule": " | ".join(f"{k}: {p['rule']}" for k, p in parts.items()),
        "samples": [f"{k}: {x}" for k, p in parts.items() for x in p["samples"][:8]],
        "parts": {k: {x: p[x] for x in ("evaluations", "distinct_nontrivial", "processes", "scenarios", "observed", "wall_s")} for k, p in parts.items()},
        "nodes_that_are_not_send": read("unsend"),
        "interpreter_processes_stopped_early": read("miri-incomplete"),
        "exhaustive": False,
    },
    "assumptions": tot.get("assumptions", []),
    "violations": s("violations"),
    "wall_s": s("wall_s"),
}
json.dump(out, open(f"/verif/evidence/{prop}.json", "w"), indent=1)
for k, p in parts.items():
    print(f"{prop} {k}: {p['evaluations']} cases, {p['distinct_nontrivial']} distinct non-trivial, {p['processes']} processes")
