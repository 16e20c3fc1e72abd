#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, state=state or []))


A = "TLA+ spec, TLC; every transition of the bounded model replayed on the real code"
B = "TLA+ spec, TLC; recorded runs of the real code validated against the spec by TLC"
TRUST = " Trusted: TLC, the driver that applies operations and projects the state, and the reduced build (same sources, -O0, no GUI)."

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        an = {"files": p["files"], "mechanism": [{"name": p["mech"], "where": p["files"][0]}]}
        if p["state"]:
            an["state"] = [{"name": a, "meaning": b} for a, b in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": an}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
m = {"version": 1, "setup_cmd": "python3 harness/leanbuild.py",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks build /repo's sources unchanged (harness/leanbuild.py)", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 harness/check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "model_checking", "level_note": p["note"]}
                for p in P if os.path.exists(os.path.join(V, "harness", "props", p["id"].lower() + ".py"))],
     "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in P if not os.path.exists(os.path.join(V, "harness", "props", p["id"].lower() + ".py"))]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
exec(open(os.path.join(V, "tools", "design_rows.py")).read())
rows = []
for p in P:
    rows.append("### %s %s\n\n%s\n\nWhy tests cannot: %s.\n" % (p["id"], p["title"], D.get(p["id"], NA.get(p["id"], "")).strip(), p["why"]))
res = json.load(open(os.path.join(V, "tools", "seed_results.json"))) if os.path.exists(os.path.join(V, "tools", "seed_results.json")) else {}
st = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(V, "seeded")
if os.path.isdir(sd):
    for k in sorted(os.listdir(sd)):
        mt = json.load(open(os.path.join(sd, k, "meta.json")))
        st.append("| %s | %s | %s | %s |" % (k, mt["property"], mt["needs"].replace("|", "/"), res.get(k, "?")))
    t = open(os.path.join(V, "tools", "DESIGN.in")).read()
    open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("DESIGNTABLE", "\n".join(rows)).replace("SEEDTABLE", "\n".join(st)))
