"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py (one file per property)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(V + "/tools/props/*.py")):
    ns = {}
    exec(compile(open(f).read(), f, "exec"), ns)
    p = ns["P"]
    p["id"] = os.path.basename(f)[:-3]
    assert len(p["title"]) <= 80, p["title"]
    q = {"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
         "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                     "observe_at": p["observe"], "hook_needed": None}}
    props.append(q)
    c = ns.get("C")
    if c:
        cmd = "python3 checks/" + c["cmd"]
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "technique": c["technique"],
                       "level": "model_checking", "level_note": " ".join(c["note"].split())})
    else:
        na.append({"property": p["id"], "reason": ns["NA"]})
with open(V + "/properties.jsonl", "w") as o:
    for q in props:
        o.write(json.dumps(q, ensure_ascii=False) + "\n")
with open(V + "/MANIFEST.json", "w") as o:
    json.dump({"version": 1, "setup_cmd": "python3 lib/fubuild.py", "checks": checks, "not_applicable": na}, o, indent=1, ensure_ascii=False)
    o.write("\n")
print(len(props), "properties,", len(checks), "checks")
