"""Regenerates /verif/MANIFEST.json from the check modules that exist."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
NOTE = json.load(open(os.path.join(R, "tools", "notes.json")))
for p in props:
    i = p["id"]
    f = os.path.join(R, "checks", i.lower() + ".py")
    if os.path.exists(f):
        lv = re.search(r'^LEVEL = "(\w+)"', open(f).read(), re.M).group(1)
        n = NOTE.get(i, {})
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                       "technique": n.get("technique", "bounded exhaustive enumeration of the real code against a reference model"),
                       "level": lv, "level_note": n.get("note", "every case of the stated finite spaces is executed on the real code and compared with the reference model; nothing is claimed outside these bounds")})
    else:
        na.append({"property": i, "reason": "check under construction; not claimed yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks drive the public API of /repo's working tree directly (see DESIGN.md)."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
