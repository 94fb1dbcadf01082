"""One-off source of properties.jsonl and MANIFEST.json: python3 tools/properties.py"""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
P = []
NA = []

def prop(id, title, statement, over, quantifier, why, files, mechanism, observe, note, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quantifier), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None)))
    P[-1]["_note"] = note

exec(open("tools/properties_ffi.py").read())
for name in ["os", "net", "more", "sync", "sql", "tool", "na"]:
    if os.path.exists(f"tools/properties_{name}.py"):
        exec(open(f"tools/properties_{name}.py").read())

with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
na = {x["property"] for x in NA}
checks = [dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
    evidence_file=f"evidence/{p['id']}.json", technique="deterministic simulation with fault injection (seeded search over schedules and faults)",
    level="exploration", level_note=p["_note"]) for p in P if p["id"] not in na]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA,
    notes="No hooks in /repo are needed: every seam is at the libc, allocator and compiler-instrumentation boundary. ./replay.sh FILE repeats a failing execution exactly."),
    open("MANIFEST.json", "w"), indent=1)
import glob, re
rows = ["| Change | Property | What it breaks | Needs |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append(f"| {f.split('/')[1]} | {d['property']} | {d['what_it_breaks'].rstrip('.')} | {d['needs'].rstrip('.')} |")
d = open("DESIGN.md").read()
d = re.sub("(<!-- seeded.*?-->\n).*?(<!-- end -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], d, flags=re.S)
open("DESIGN.md", "w").write(d)
print(len(P), "properties,", len(checks), "checks")
