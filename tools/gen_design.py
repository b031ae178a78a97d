"""Regenerates DESIGN.md."""
import ast, glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
rd = lambda f: open(f"{R}/tools/design/{f}").read().rstrip() + "\n"
o = [rd("head.md"), "\n## Properties: what each check enumerates and against what\n"]
notes = json.load(open(f"{R}/tools/notes.json"))
for p in props:
    i = p["id"]
    f = f"{R}/checks/{i.lower()}.py"
    t = ast.parse(open(f).read())
    env = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
            env[n.targets[0].id] = ast.literal_eval(n.value)
    o.append(f"\n### {i} {p['title']}\n{p['statement']}\n\n")
    if i in notes and notes[i].get("oracle"):
        o.append(f"*Oracle:* {notes[i]['oracle']}\n\n")
    o.append(f"*Case:* {env.get('RULE', '')}\n\n")
    try:
        ev = json.load(open(f"{R}/evidence/{i}.json"))
        fam = ev["coverage"]["families"]
        o.append("| family | cases | bound |\n|---|---|---|\n")
        for k, v in fam.items():
            o.append(f"| {k} | {v['cases']} | {v['bound']} |\n")
        c = ev["coverage"]
        o.append(f"\nQuick run: {c['states']} states, {c['transitions']} calls of the real code, {c['traces_validated_against_impl']} observations compared.\n")
    except FileNotFoundError:
        pass
    if env.get("ASSUMPTIONS"):
        o.append("\nAssumptions / tolerances: " + "; ".join(env["ASSUMPTIONS"]) + ".\n")
o.append("\n## Defects found and repaired\nEach is one unguarded `fix:` commit in `/repo`; the property named reports it again on a tree without the fix.\n\n")
o.append("| property | commit | what was wrong |\n|---|---|---|\n")
for l in open(f"{R}/known_findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        o.append("| " + " | ".join(m.groups()) + " |\n")
o.append("\n" + rd("limits.md"))
o.append("\n## Planted bugs\nEach was written from the property text and the code, passes the existing tests, and comes with a demonstration.\n\n| id | property | what breaks | what it needs | caught |\n|---|---|---|---|---|\n")
st = json.load(open(f"{R}/tools/design/seeded.json"))
for d in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    o.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {st.get(b, 'yes')} |\n")
o.append("\n" + rd("tail.md"))
open(f"{R}/DESIGN.md", "w").write("".join(o))
