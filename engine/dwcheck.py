#!/usr/bin/env python3
"""dwcheck.py PROPERTY [--scenario S [--variant V] [--keep FILE]]

Decides one property by abstract interpretation of the scenarios that carry it.
Exit 0: every obligation discharged.  1: a violation.  Anything else: no verdict.
"""
import argparse, concurrent.futures as cf, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fc, threads

# rules of the sharing analysis that also decide these properties
SHARING = {"C19": ("dw_client", "touched-after-send", "accesses ordered by messages")}


def sharing(prop):
    t0 = time.time()
    name, rule, what = SHARING[prop]
    p = threads.Program(name)
    bad = [{"rule": r, "where": p.where(i), "value": msg, "stack": []} for r, i, msg in p.found if r == rule]
    if not bad and p.count.get(what, 0) < threads.MINIMUM[name][what]:
        raise fc.Broken("%s: only %d %s" % (name, p.count.get(what, 0), what))
    return {"scenario": "threads", "variant": name, "violations": bad, "obligations": {rule: p.count[what]}, "sites": [], "units": [], "wall": time.time() - t0, "scaled": {}}


def known_findings():
    out = []
    p = os.path.join(fc.VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out


def matches(k, prop, job, v):
    return (k["property"] == prop and k["scenario"] == job["scenario"]
            and k.get("variant", job["variant"]) == job["variant"]
            and k["rule"] == v["rule"] and k.get("function", "") in " ".join(v["stack"]) + " " + v["where"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--scenario")
    ap.add_argument("--variant")
    ap.add_argument("--keep")
    ap.add_argument("--timeout", type=int, default=0)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("DW_JOBS", os.cpu_count() or 4)))
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    jobs = []
    try:
        for meta in fc.all_scenarios():
            if a.property != "ALL" and a.property not in meta["props"]:
                continue
            if a.scenario and meta["name"] != a.scenario:
                continue
            for v in meta.get("variants", [{"name": "-"}]):
                if a.variant and v["name"] != a.variant:
                    continue
                if v.get("tier") == "thorough" and tier != "thorough" and not a.variant:
                    continue
                jobs.append((meta, v))
        if not jobs:
            print("analysis-broken: no scenario carries property %s" % a.property)
            return 2
        results, broken, unbounded = [], [], []
        with cf.ThreadPoolExecutor(max_workers=max(1, a.jobs)) as ex:
            deadline = fc.Deadline(a.timeout or (800 if tier == "quick" else 6000) * (30 if a.property == "ALL" else 1))
            futs = {ex.submit(fc.run, m, v, deadline, a.keep): (m, v) for m, v in jobs}
            for f in cf.as_completed(futs):
                try:
                    results.append(f.result())
                    if results[-1]["violations"] and a.property != "ALL":
                        deadline.shorten(int(os.environ.get("DW_GRACE", "60")))
                except fc.Broken as e:
                    broken.append(str(e))
                except fc.Unbounded as e:
                    unbounded.append(str(e))
                    print("no fixpoint within its limit, left to the bounded runs: %s" % e)
        if a.property in SHARING and not a.scenario:
            try:
                results.append(sharing(a.property))
            except fc.Broken as e:
                broken.append(str(e))
        results.sort(key=lambda r: (r["scenario"], r["variant"]))
    except fc.Broken as e:
        print("analysis-broken: %s" % e)
        return 2

    kf = known_findings()
    viols, known = [], {}
    for r in results:
        for v in r["violations"]:
            hit = next((k for k in kf if matches(k, a.property, r, v)), None)
            if hit:
                known.setdefault(hit["what"], 0)
                known[hit["what"]] += 1
            else:
                viols.append((r, v))

    obligations = {}
    sites = set()
    units = set()
    for r in results:
        for k, n in r["obligations"].items():
            obligations[k] = obligations.get(k, 0) + n
        sites.update(r["sites"])
        units.update(r["units"])
        print("analysed %-22s %-12s %4d obligations, %3d rules, %d violation(s), %.1f s"
              % (r["scenario"], r["variant"], sum(r["obligations"].values()), len(r["obligations"]), len(r["violations"]), r["wall"]))
    total = sum(obligations.values())
    print("total: %d scenario runs, %d obligations over %d rules, %d source call sites on the paths to them"
          % (len(results), total, len(obligations), len(sites)))
    for w, n in known.items():
        print("KNOWN-FINDING: property=%s %s" % (a.property, w))
    for b in broken:
        print("analysis-broken: %s" % b)

    d = os.path.join(fc.VERIF, "evidence", "replay")
    replay = os.path.join(d, a.property + ".txt")
    if os.path.exists(replay):
        os.remove(replay)
    if viols:
        os.makedirs(d, exist_ok=True)
        with open(replay, "w") as f:
            seen = set()
            for r, v in viols:
                key = (r["scenario"], v["rule"], v["where"])
                line = "%s [%s/%s] rule %s at %s: %s" % (a.property, r["scenario"], r["variant"], v["rule"], v["where"] or "-", v["value"])
                if key not in seen:
                    seen.add(key)
                    print("  violated: " + line)
                f.write(line + "\n")
                for s in v["stack"]:
                    f.write("      " + s + "\n")
                f.write("  replay: python3 %s %s --scenario %s --variant '%s'\n\n" % (os.path.abspath(__file__), a.property, r["scenario"], r["variant"]))

    if a.property != "ALL" and not a.scenario:
        ev = {"property": a.property, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
              "coverage": {
                  "explanation": "Whole-program abstract interpretation (Frama-C/Eva) of the sources in /repo/src under the environment model: "
                                 "%d scenario runs over %d translation units; obligations are evaluated on every abstract path that reaches them." % (len(results), len(units)),
                  "scenarios": [{"scenario": r["scenario"], "variant": r["variant"], "obligations": sum(r["obligations"].values()),
                                 "violations": len(r["violations"]), "wall_s": round(r["wall"], 2),
                                 "capacities_scaled": r["scaled"]} for r in results],
                  "not_converged": unbounded,
                  "obligations": total,
                  "obligations_by_rule": dict(sorted(obligations.items())),
                  "discharged": total - sum(len([v for v in r["violations"] if v["rule"] in r["obligations"]]) for r in results),
                  "translation_units": sorted(units),
                  "source_call_sites": len(sites),
                  "samples": sorted(sites)[:25]},
              "assumptions": ["environment model in /verif/model", "capacity constants scaled down as listed", "bounded histories as described in DESIGN.md"],
              "violations": len(viols), "wall_s": round(time.time() - t0, 2)}
        os.makedirs(os.path.join(fc.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(fc.VERIF, "evidence", a.property + ".json"), "w"), indent=1)
    if viols:
        print("VIOLATION property=%s replay=%s" % (a.property, replay))
        return 1
    if broken:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
