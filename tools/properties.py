"""Source of properties.jsonl and of the checks part of MANIFEST.json (run to regenerate both)."""
import json, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique, note, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, state=state, observe=observe, hook=hook))


exec((V / "tools" / "properties_list.py").read_text())

NA = json.loads((V / "tools" / "not_applicable.json").read_text()) if (V / "tools" / "not_applicable.json").exists() else []
sys.path.insert(0, str(V))
from checks import PROPS
with open(V / "properties.jsonl", "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = list(p["observe"])
        if p["hook"] is not None:
            d["anchors"]["hook_needed"] = p["hook"]
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks = []
for p in P:
    if p["id"] not in PROPS:
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} quick", thorough_cmd=f"python3 run.py {p['id']} thorough",
                       technique=p["technique"], level=PROPS[p["id"]].get("level", "exploration"), level_note=p["note"],
                       evidence_file=f"evidence/{p['id']}.json"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=NA,
         notes="Runtime monitoring and sanitizers only. The real sources of /repo are compiled into harness crates (harness/) against "
               "stand-ins for the crates that are not available offline (standin/); see DESIGN.md.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(P), "properties,", len(checks), "checks; without a check:", [p["id"] for p in P if p["id"] not in PROPS])
