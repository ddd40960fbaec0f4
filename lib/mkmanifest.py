"""Writes MANIFEST.json: claimed are the properties with a check module."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
COMMON = ("TLC explores the design exhaustively within the stated constants; the code is bound to it by "
          "replaying behaviours generated from the specification in the real executable and by having TLC "
          "accept or reject every recorded observation. ")
NOTES = json.load(open(V + "/lib/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i.lower()) and i in NOTES:
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i,
                           thorough_cmd="python3 checks/run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification (%s) checked with TLC; generated behaviours replayed and recorded traces validated against it" % n["spec"],
                           level="model_checking", level_note=COMMON + n["note"]))
    else:
        na.append(dict(property=i, reason="No check yet: planned, see DESIGN.md."))
json.dump(dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the checks build the unmodified sources (five configurations) and drive them from outside."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
