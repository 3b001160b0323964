"""trybugs.py [-t] [-c] ids...: apply each planted bug to /repo, rebuild, run the tests (-t), the demo and the check, and undo it"""
import os, sys, subprocess, json, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("-")]
ids  = args or sorted(os.listdir(here+"/seeded"))
def sh(cmd): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
assert not sh("git -C /repo status --short").stdout.strip()
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for id in ids:
	d = here+"/seeded/"+id
	meta = json.load(open(d+"/meta.json"))
	clean = sh("cd /repo && bash %s/demo.sh" % d) if "-c" not in sys.argv else None
	p = sh("git -C /repo apply %s/patch.diff" % d)
	if p.returncode: print(id, "DOES NOT APPLY", p.stdout.decode()); continue
	try:
		b = sh("bash /opt/vp/build.sh")
		test = "-"
		if "-t" in sys.argv:
			sh("bash /opt/vp/test.sh /tmp/trybugs.json")
			r = json.load(open("/tmp/trybugs.json"))
			bad = [s for s in stable if s not in r["passed"]]
			test = "tests ok" if not bad else "TESTS FAIL %s" % bad
		demo = sh("cd /repo && bash %s/demo.sh" % d)
		t0 = time.time()
		chk  = sh("cd %s && /opt/venv/bin/python check.py %s" % (here, meta["property"]))
		viol = [l for l in chk.stdout.decode().split("\n") if l.startswith("VIOLATION")]
		print(id, meta["property"], "build %d" % b.returncode, test, "demo clean %s patched %d" % (clean.returncode if clean else "-", demo.returncode), "CAUGHT" if chk.returncode==1 and viol else "MISSED rc=%d" % chk.returncode, "%.0fs" % (time.time()-t0), flush=True)
		if clean and clean.returncode: print(clean.stdout.decode()[-1500:])
		if demo.returncode == 0: print(demo.stdout.decode()[-500:])
		if "-v" in sys.argv: print(chk.stdout.decode()[-1500:])
	finally:
		sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
