"""trypar.py [-j N] [-n] ids...: like trybugs.py, but each bug in its own mount namespace with a private copy of /repo and /verif, several at once.
-n: skip the repository's tests. Records the outcomes in tools/bug_results.json. For development only; no registered command uses it."""
import os, sys, subprocess, json, shutil, argparse, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("ids", nargs="*"); ap.add_argument("-j", type=int, default=3); ap.add_argument("-n", action="store_true"); ap.add_argument("-v", action="store_true"); ap.add_argument("-a", action="store_true", help="run all checks that exist, not only the property's own")
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(here+"/seeded"))
SCRIPT = r'''
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 99
cd /repo; D=$W/seed
bash $D/demo.sh > $W/demo0.log 2>&1; echo demo0 $?
git -C /repo apply $W/patch.diff || { echo NOAPPLY; exit; }
bash /opt/vp/build.sh ext > $W/build.log 2>&1; echo build $?
bash $D/demo.sh > $W/demo1.log 2>&1; echo demo1 $?
if [ -n "$TESTS" ]; then bash /opt/vp/test.sh $W/tests.json > $W/test.log 2>&1; fi
cd /verif; for p in $PROPS; do VERIF_SEED=1 /opt/venv/bin/python check.py $p > $W/check.$p.log 2>&1; echo check $p $?; done
'''
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def run(id):
	W = "/tmp/tb/"+id
	shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
	try:
		meta = json.load(open(here+"/seeded/"+id+"/meta.json"))
		subprocess.check_call("cp -a /repo %s/repo; mkdir %s/verif; cp -a /verif/check.py /verif/harness /verif/props /verif/vendor /verif/tools /verif/known_findings.txt %s/verif/; mkdir %s/verif/evidence; mkdir %s/seed; cp /verif/seeded/%s/demo* %s/seed; cp /verif/seeded/%s/patch.diff %s/patch.diff" % (W,W,W,W,W,id,W,id,W), shell=True)
		env = dict(os.environ, W=W, TESTS="" if a.n else "1", PROPS=meta["property"])
		if a.a: env["PROPS"] = " ".join(sorted(f[:-3] for f in os.listdir(here+"/props") if f.endswith(".py") and f.startswith("P")))
		r = subprocess.run(["unshare","-m","bash","-c",SCRIPT], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
		x = {}
		for l in r.split("\n"):
			w = l.split()
			if len(w) == 2: x[w[0]] = int(w[1])
			elif len(w) == 3 and w[0] == "check": x["check "+w[1]] = int(w[2])
		if "NOAPPLY" in r: return id, meta, "does not apply", ""
		bad = []
		if x.get("demo0") != 0: bad.append("demo fails on the clean tree: "+open(W+"/demo0.log").read()[-700:])
		if x.get("build") != 0: bad.append("does not build")
		if x.get("demo1") == 0: bad.append("demo does not fail")
		if not a.n:
			t = json.load(open(W+"/tests.json")); f = [s for s in stable if s not in t["passed"]]
			if f: bad.append("tests fail: %s" % f)
		log = open(W+"/check.%s.log" % meta["property"]).read()
		rc  = x.get("check "+meta["property"])
		res = "caught" if rc == 1 and "\nVIOLATION property=%s " % meta["property"] in "\n"+log else "missed (rc %s)" % rc
		if a.a: bad.append("also caught by "+" ".join(k[6:] for k in x if k.startswith("check") and x[k] == 1))
		return id, meta, res, "; ".join(bad)+("\n"+log[-1500:] if a.v else "")
	except Exception as e: return id, {"property":"?"}, "error %r" % e, ""
	finally: shutil.rmtree(W, ignore_errors=True)
f = here+"/tools/bug_results.json"
with cf.ThreadPoolExecutor(a.j) as ex:
	for id, meta, res, msg in ex.map(run, ids):
		print(id, meta["property"], res, msg, flush=True)
		R = json.load(open(f)) if os.path.exists(f) else {}
		R[id] = res; json.dump(R, open(f,"w"), indent=1, sort_keys=True)
