#!/usr/bin/env python3-vt
"""check.py ID: decides one property on /repo's current tree.

1. every function under contract the property depends on is verified
   (pyvc: obligations generated from /repo's source, discharged by z3);
2. in parallel, concrete executions of the real code against an oracle look
   for a failing input (replay of failed obligations, bounded stand-in).
"""
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = sys.executable

from cfg import PROPS, TRUSTED_BASE  # noqa: E402


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        out = json.load(open(p))["findings"]
    return out


def tag_matches(name, prop):
    """Obligation names start with the ids of the properties they carry."""
    tags = name.split(":")[0].split(",")
    tags = [t for t in tags if len(t) == 3 and t[0] == "C" and
            t[1:].isdigit()]
    return not tags or prop in tags


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    cfg = PROPS[prop]
    t0 = time.time()
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="pafverif-")
    dyn_out = os.path.join(tmp, "dyn.json")
    budget = cfg.get("dyn", 12) * (10 if tier == "thorough" else 1)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    dyn = subprocess.Popen(
        [PY, os.path.join(HERE, "dyn", "run.py"), prop, tier, str(seed),
         str(budget), dyn_out], cwd=tmp, env=env,
        stdout=open(os.path.join(tmp, "dyn.log"), "w"),
        stderr=subprocess.STDOUT)
    results, assumptions, engine_error = [], [], None
    limit = 420 if tier == "quick" else 800
    try:
        from pyvc import runner
        units = []
        for m in cfg.get("units", []):
            mod = importlib.import_module("units." + m)
            units += [u for u in mod.units() if prop in u.props]
            assumptions += getattr(mod, "ASSUMES", {}).get(prop, [])
        if units:
            results = runner.run_units(units, jobs=7, time_limit=limit)
    except Exception as e:      # engine trouble is not a verdict
        import traceback
        engine_error = traceback.format_exc()[-1500:]
    try:
        dyn.wait(max(10, budget + 60 - 0))
    except subprocess.TimeoutExpired:
        dyn.kill()
        dyn.wait()
    d = {"evaluations": 0, "distinct": 0, "samples": [], "violations": [],
         "harnesses": [], "errors": ["no result"]}
    if os.path.exists(dyn_out):
        try:
            d = json.load(open(dyn_out))
        except ValueError:
            pass
    else:
        d["errors"] = ["no result: " + open(os.path.join(
            tmp, "dyn.log")).read()[-800:]]
    verdict(prop, cfg, tier, seed, t0, ev_path, results, assumptions, d,
            engine_error, tmp)


def verdict(prop, cfg, tier, seed, t0, ev_path, results, assumptions, d,
            engine_error, tmp):
    known = [k for k in known_findings() if k["property"] == prop and
             k["status"] == "open"]
    lines = []
    mine, others, bounded = [], [], []
    ob = dis = 0
    backends, solver = {}, 0.0
    functions, under_contract = set(), []
    by_name = {}
    for r in results:
        if r.status in ("unsupported", "error", "vacuous"):
            bounded.append({"unit": r.name, "why": r.reason[:300]})
        else:
            under_contract.append({
                "function": r.name, "obligations": r.obligations,
                "discharged": r.discharged, "paths": r.paths,
                "solver_s": r.solver_s})
            ob += r.obligations
            dis += r.discharged
            functions |= set(r.functions)
        solver += r.solver_s
        for k, v in r.backends.items():
            backends[k] = backends.get(k, 0) + v
        for n, (a, b) in r.by_name.items():
            if tag_matches(n, prop) and n.split(":")[0].find(prop) >= 0:
                e = by_name.setdefault(n, [0, 0])
                e[0] += a
                e[1] += b
        for n, t in r.failures:
            (mine if tag_matches(n, prop) else others).append((r.name, n, t))
    replay_dir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    viol = 0
    real = d["violations"]
    reported = []
    for i, v in enumerate(real):
        k = match_known(known, v)
        if k is not None:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            continue
        path = os.path.join(replay_dir, "%s-%d.json" % (prop, i))
        json.dump({"property": prop, "harness": v["harness"],
                   "what": v["what"], "case": v["case"],
                   "failed_obligations": [
                       {"unit": u, "obligation": n} for u, n, _ in mine[:10]],
                   "replay": "python3-vt dyn/run.py replay <this file>"},
                  open(path, "w"), indent=1, default=str)
        reported.append("VIOLATION property=%s replay=%s" % (prop, path))
        lines.append("# %s" % v["what"])
        viol += 1
    if mine and not reported:
        path = os.path.join(replay_dir, "%s-obligation.txt" % prop)
        with open(path, "w") as f:
            f.write("The verifier no longer accepts these obligations; no "
                    "failing input was found by replaying (%d concrete "
                    "executions).\n\n" % d["evaluations"])
            for u, n, t in mine:
                f.write("unit %s\n%s\n" % (u, t))
        for u, n, t in mine[:5]:
            lines.append("# obligation failed: %s (%s)" % (n, u))
        reported.append("VIOLATION property=%s replay=%s "
                        "no-failing-input-found" % (prop, path))
        viol += 1
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": cfg["level"],
          "coverage": {
              "obligations": ob, "discharged": dis,
              "checker_cmd": "python3-vt /verif/check.py %s" % prop,
              "trusted_base": TRUSTED_BASE,
              "functions_under_contract": under_contract,
              "functions_executed_symbolically": sorted(functions),
              "obligations_of_this_property": {
                  k: {"generated": a, "discharged": b}
                  for k, (a, b) in sorted(by_name.items())},
              "backends": backends, "solver_s": round(solver, 2),
              "bounded_not_proved": bounded +
              [{"unit": x, "why": "outside the verifier's reach: concrete "
                "executions only"} for x in cfg.get("bounded", [])],
              "undischarged_of_other_properties": [
                  {"unit": u, "obligation": n} for u, n, _ in others[:20]],
              "evaluations": d["evaluations"],
              "distinct_nontrivial": d["distinct"],
              "rule": "concrete executions of the real code (replay search "
              "and bounded stand-in): " + "; ".join(
                  "%s: %s" % (h["harness"], h["rule"])
                  for h in d["harnesses"]),
              "samples": d["samples"] or ["none"],
              "harnesses": d["harnesses"],
              "explanation": cfg["how"]},
          "assumptions": assumptions + cfg.get("assumes", []),
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    if d["errors"]:
        ev["coverage"]["harness_errors"] = d["errors"]
    if engine_error:
        ev["coverage"]["engine_error"] = engine_error
    json.dump(ev, open(ev_path, "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged in %d functions, %d bounded, "
          "%d concrete executions, %.1f s" % (
              prop, dis, ob, len(under_contract), len(bounded),
              d["evaluations"], time.time() - t0))
    for b in bounded:
        print("# bounded only: %s: %s" % (b["unit"], b["why"].replace(
            "\n", " ")[-200:]))
    for u, n, t in others[:5]:
        print("# obligation of another property failed: %s (%s)" % (n, u))
    for e in d["errors"]:
        print("# harness: %s" % e.strip().replace("\n", " | ")[-300:])
    if engine_error:
        print("# engine: %s" % engine_error.strip()[-300:])
    for x in lines:
        print(x)
    for x in reported:
        print(x)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(1 if reported else 0)


def match_known(known, v):
    for k in known:
        if k.get("harness") == v["harness"] and k.get("match") and \
           k["match"] in v["what"]:
            return k
    return None


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc(file=sys.stdout)
        sys.stdout.flush()
        os._exit(3)
