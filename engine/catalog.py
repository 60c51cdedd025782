#!/usr/bin/env python3
"""The catalogue of properties: writes properties.jsonl and MANIFEST.json."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, level="other", na=None,
         state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, na=na, state=state, observe=observe))


AI = "disjunctive abstract interpretation of LLVM IR (typestate over allocation sites)"
AI_NOTE = ("Every path of every externally callable function (helpers and small functions inlined) is covered by a fixpoint; "
           "sound up to the listed assumptions, which trade rare misses for no false alarms.")

exec(open(os.path.join(V, "engine", "catalog_entries.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "python3 engine/setup.py",
           "checks": [{"property": p["id"], "quick_cmd": "python3 check.py --property %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py --property %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"],
                       "level_note": p["note"]} for p in P if not p["na"]],
           "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
           "notes": "All checks are static: they compile /repo's current sources to LLVM IR (or parse them) and decide by "
                    "analysis; nothing of /repo is executed. No hooks are needed in /repo."}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
