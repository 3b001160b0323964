"""Helper for planting bugs: makes seeded/<id>/ from text replacements in a scratch copy of the sources."""
import os, subprocess, json, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def plant(id, prop, edits, demo, needs, breaks):
	work = tempfile.mkdtemp(prefix="plant_")
	try:
		subprocess.check_call(["git","clone","-q","/repo",work+"/w"])
		for path, old, new in edits:
			f = work+"/w/"+path
			s = open(f).read()
			assert s.count(old) == 1, (id, path, s.count(old), old)
			open(f,"w").write(s.replace(old,new))
		diff = subprocess.check_output(["git","-C",work+"/w","diff"])
		# The changed lines must be lines of the original repository
		base = subprocess.check_output(["git","-C","/repo","rev-list","--max-parents=0","HEAD"]).decode().split()[0]
		for path in set(e[0] for e in edits):
			orig = set(subprocess.check_output(["git","-C","/repo","show",base+":"+path]).decode().split("\n"))
			for l in subprocess.check_output(["git","-C",work+"/w","diff","-U0","--",path]).decode().split("\n"):
				if l.startswith("-") and not l.startswith("---"): assert l[1:] in orig, (id, "not an original line", l)
	finally:
		shutil.rmtree(work, ignore_errors=True)
	d = here+"/seeded/"+id
	os.makedirs(d, exist_ok=True)
	open(d+"/patch.diff","wb").write(diff)
	open(d+"/demo.py","w").write(demo.strip()+"\n")
	open(d+"/demo.sh","w").write('#!/bin/bash\nexec env OMP_NUM_THREADS=4 PYTHONWARNINGS=ignore /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
	os.chmod(d+"/demo.sh", 0o755)
	json.dump({"property":prop, "needs":needs, "what_it_breaks":breaks}, open(d+"/meta.json","w"), indent=1)
