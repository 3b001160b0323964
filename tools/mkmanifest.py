"""Writes MANIFEST.json from properties.jsonl and the modules that exist in props/"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here+"/properties.jsonl")]
NOTE = json.load(open(here+"/tools/level_notes.json")) if os.path.exists(here+"/tools/level_notes.json") else {}
checks, na = [], []
for p in props:
	if os.path.exists("%s/props/%s.py" % (here,p["id"])):
		cmd = "/opt/venv/bin/python check.py %s --tier %s"
		checks.append({"property":p["id"], "quick_cmd":cmd % (p["id"],"quick"), "thorough_cmd":cmd % (p["id"],"thorough"),
			"evidence_file":"evidence/%s.json" % p["id"], "technique":"property-based testing (Hypothesis) against reference models, round trips and metamorphic relations",
			"level":"exploration", "level_note":NOTE.get(p["id"],"Generated-input search with shrinking; holds on every explored case, sizes bounded as described in DESIGN.md.")})
	else: na.append({"property":p["id"], "reason":"check not built yet"})
json.dump({"version":1, "setup_cmd":"/opt/venv/bin/python tools/setup.py", "checks":checks, "not_applicable":na}, open(here+"/MANIFEST.json","w"), indent=1)
