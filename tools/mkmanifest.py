import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from cfg import PROPS
NA = {
 "C23": "A whole-history convergence property across several servers and "
        "clients that reconnect: it involves network delivery and liveness, "
        "for which no contract over this code base's functions exists; the "
        "per-server parts it rests on are C01-C06 and C21.",
 "C24": "Decided inside libxcm and OpenSSL, which are neither in this "
        "repository nor in the sandbox (libxcm.so is absent); the Python side "
        "only passes configured attributes along, which is C17.",
}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3-vt check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "contract-based deductive verification: obligations from the real Python source (pyvc) discharged by z3"),
            "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet")})
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
