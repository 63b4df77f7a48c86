#!/usr/bin/env python3
"""The catalogue of properties.  `python3 tools/catalog.py` rewrites properties.jsonl and MANIFEST.json from it."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/edsp/"
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, state=(), technique=None, claimed=True, reason=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[f if f.startswith(("bindings", "include")) else I + f for f in files],
                  mech=mech, state=list(state), note=level_note, technique=technique, claimed=claimed, reason=reason, observe=list(observe)))


exec(open(os.path.join(V, "tools", "properties.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            r = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            if p["state"]:
                r["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                r["anchors"]["observe_at"] = p["observe"]
            r["anchors"]["hook_needed"] = None
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(r) + "\n")
    checks, na = [], []
    for p in P:
        if not p["claimed"]:
            na.append({"property": p["id"], "reason": p["reason"]})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py check %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"] or "TLA+ specification checked with TLC; generated and random behaviours replayed on the real code, logs validated by TLC",
                       "level": "model_checking", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "hooks": {"guard": "EDSP_VERIF_HOOKS", "enable": "no hooks were needed: every check drives the public interface; the guard name is reserved", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "TLA+ (TLC) throughout; spec/FReal.tla gives TLC real arithmetic through java/FReal.java. See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
