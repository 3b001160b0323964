"""lawcov.py [PXX...]: which lines of /repo/pixell/*.py each law executes -> /tmp/mut/cov/PXX.json. Development only."""
import sys, os, json, time, subprocess, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = "/tmp/mut/cov"
def one(pid):
	sys.path[:0] = [VERIF, VERIF+"/vendor", VERIF+"/harness"]
	import tempfile, shutil, worker, io
	scratch = tempfile.mkdtemp(prefix="lawcov_"); os.environ["MPLCONFIGDIR"] = scratch+"/mpl"; os.chdir(scratch)
	mon = sys.monitoring; mon.use_tool_id(1,"lawcov"); hits = set()
	def line(code, ln):
		if code.co_filename.startswith("/repo/pixell/"): hits.add((code.co_filename[len("/repo/pixell/"):], ln))
		return mon.DISABLE
	mon.register_callback(1, mon.events.LINE, line)
	prop = worker.load(pid); res = {}
	for name, law in prop.laws.items():
		hits.clear(); mon.set_events(1, mon.events.LINE); mon.restart_events(); t = time.time(); n = max(5,min(law.quick//4,60))
		d = tempfile.mkdtemp(dir=scratch)
		try: worker.run_job(prop, {"law":name,"n":n,"seed":5}, io.StringIO(), scratch+"/cur", d)
		except Exception as e: print(pid, name, repr(e))
		mon.set_events(1,0); shutil.rmtree(d, ignore_errors=True)
		f = {}
		for a, b in hits: f.setdefault(a,[]).append(b)
		res[name] = {"time":(time.time()-t)/n, "quick":law.quick, "lines":{a:sorted(b) for a,b in f.items()}}
	os.makedirs(OUT, exist_ok=True); json.dump(res, open(OUT+"/"+pid+".json","w")); os.chdir("/"); shutil.rmtree(scratch, ignore_errors=True)
if __name__ == "__main__":
	if len(sys.argv) == 3 and sys.argv[1] == "one": one(sys.argv[2]); sys.exit()
	sys.path.insert(0, VERIF); import check
	pids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(VERIF+"/props") if f[0] == "P")
	def run(p):
		env = check.environment(check.list_laws(p)["env"]); r = subprocess.run(["/opt/venv/bin/python", __file__, "one", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT); print(p, r.returncode, r.stdout.decode()[-300:] if r.returncode else "", flush=True)
	with cf.ThreadPoolExecutor(8) as ex: list(ex.map(run, pids))
