#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, state=state))

def m(name, where): return {"name": name, "where": where}

TECH = "deterministic simulation: seeded search over rank schedules, message delays and faults, history checked against a reference model"
COMMON = "Sampled, not exhaustive: assurance is that of the stated number of seeded executions. Trusts the simulated MPI (reliable, per-sender ordered delivery; everything else adversarial) and the reference model in sim/drv. "

exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}
        if p["state"]: d["anchors"]["state"] = p["state"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 build.py",
       "hooks": {"guard": "none", "enable": "no hooks in /repo: every seam is at link or load time (MPI, libc calls, allocator), see build.py", "source_commits": []},
       "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                   "technique": TECH, "level": "exploration", "level_note": COMMON + p["note"]} for p in P if p["note"] is not None],
       "not_applicable": NA,
       "notes": "replay a violation with ./replay.sh FILE; known defects and repairs are in known_findings.txt"}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
