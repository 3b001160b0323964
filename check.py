#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--law NAME] [--scale X]   decide property ID
   check.py --replay FILE                                                re-run a saved failing case

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: the check failed."""
import sys, os, json, time, subprocess, argparse, tempfile, shutil, hashlib, signal, fcntl
VERIF = os.path.dirname(os.path.abspath(__file__))
PY    = "/opt/venv/bin/python"

def environment(extra={}):
	env = dict(os.environ)
	env.pop("PYTHONPATH", None)
	env.update(PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", LC_ALL="C.UTF-8",
		OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive", DUCC0_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
		HOME=os.environ.get("HOME","/root"))
	env.update(extra)
	return env

def build():
	"""Bring the compiled parts up to date with /repo's working tree"""
	with open("/tmp/.verif_build_lock","w") as lock:
		fcntl.flock(lock, fcntl.LOCK_EX)
		p = subprocess.run(["bash","/opt/vp/build.sh","ext"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=environment())
	if p.returncode != 0:
		sys.stdout.write(p.stdout.decode(errors="replace")[-4000:])
		print("ERROR: /repo does not build")
		sys.exit(2)

def cpu_of(pid):
	try:
		toks = open("/proc/%d/stat" % pid).read().rsplit(")",1)[1].split()
		return (int(toks[11])+int(toks[12]))/os.sysconf("SC_CLK_TCK")
	except (OSError, IndexError): return 0

def seedfor(*args):
	return int(hashlib.sha256(repr(args).encode()).hexdigest()[:15],16)

def known_findings(pid):
	res = []
	try:
		for line in open(VERIF+"/known_findings.txt"):
			if line.startswith("KNOWN-FINDING: property=%s " % pid): res.append(line.rstrip("\n"))
	except OSError: pass
	return res

def list_laws(pid):
	code = "import sys,json; sys.path[:0]=[%r,%r]; import harness.core; import warnings; warnings.filterwarnings('ignore'); import importlib; p=importlib.import_module('props.'+%r).prop; print('LAWS'+json.dumps({'env':p.env,'assumptions':p.assumptions,'laws':[[l.name,l.quick,l.thorough,l.rule,l.shards] for l in p.laws.values()]}))" % (VERIF, VERIF+"/vendor", pid)
	p = subprocess.run([PY,"-c",code], env=environment(), stdout=subprocess.PIPE, cwd="/")
	for line in p.stdout.decode().split("\n"):
		if line.startswith("LAWS"): return json.loads(line[4:])
	print("ERROR: could not load property %s" % pid)
	sys.exit(2)

HANG_CPU = 240

def main():
	parser = argparse.ArgumentParser()
	parser.add_argument("pid", nargs="?")
	parser.add_argument("--replay")
	parser.add_argument("--tier", default=os.environ.get("VERIF_TIER","quick"))
	parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED","1") or 1))
	parser.add_argument("--law")
	parser.add_argument("--scale", type=float, default=1)
	parser.add_argument("--nproc", type=int, default=int(os.environ.get("VERIF_NPROC", 8)))
	args = parser.parse_args()
	if args.replay:
		build()
		pid = json.load(open(args.replay))["property"]
		p = subprocess.run([PY, VERIF+"/harness/worker.py", "replay", os.path.abspath(args.replay)], env=environment(list_laws(pid)["env"]))
		if p.returncode == 0: return 0
		if p.returncode == 3: return 2
		print("VIOLATION property=%s replay=%s" % (pid, args.replay))
		return 1
	pid = args.pid
	t0  = time.time()
	build()
	tbuild = time.time()-t0
	info = list_laws(pid)
	# Split the laws into jobs, and the jobs over the workers
	jobs = []
	for name, nquick, nthorough, rule, shards in info["laws"]:
		if args.law and name != args.law: continue
		n = max(1,int((nthorough if args.tier == "thorough" else nquick)*args.scale))
		nshard = shards or args.nproc
		nshard = max(1,min(nshard, n//5 if n >= 5 else 1))
		for i in range(nshard):
			m = n//nshard + (i < n%nshard)
			if m > 0: jobs.append({"law":name, "n":m, "seed":seedfor(args.seed, pid, name, i)})
	if not jobs:
		print("ERROR: no laws"); return 2
	work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
	procs, rc = [], 0
	violations, results, errors = [], [], []
	try:
		lists = [jobs[i::args.nproc] for i in range(args.nproc)]
		lists = [l for l in lists if l]
		for i, l in enumerate(lists):
			base = "%s/w%d" % (work,i)
			json.dump(l, open(base+".job","w"))
			log = open(base+".log","w")
			p = subprocess.Popen([PY, VERIF+"/harness/worker.py", "run", pid, base+".job", base+".out", base+".cur"],
				stdout=log, stderr=subprocess.STDOUT, env=dict(environment(info["env"]),TMPDIR=work), cwd="/", start_new_session=True)
			procs.append([p, base, False])
		def harvest():
			res, done = [], {}
			for p, base, _ in procs:
				done[base] = False
				if not os.path.exists(base+".out"): continue
				for line in open(base+".out"):
					try: d = json.loads(line)
					except ValueError: continue
					if "done" in d: done[base] = True
					else: res.append(d)
			return res, done
		while True:
			alive = 0
			for ent in procs:
				p, base, handled = ent
				if p.poll() is None:
					alive += 1
					# Look for hangs
					try:
						cur = json.load(open(base+".cur"))
						if cpu_of(p.pid)-cur["cpu"] > HANG_CPU:
							os.killpg(p.pid, signal.SIGKILL); p.wait()
							ent[2] = True; alive -= 1
							violations.append((json.loads(cur["replay"]), "no result after %d s of cpu time" % HANG_CPU, False))
					except (OSError, ValueError): pass
				elif not handled:
					ent[2] = True
					if p.returncode == 0: continue
					log = open(base+".log").read()[-3000:]
					if -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL) and os.path.exists(base+".cur"):
						cur = json.load(open(base+".cur"))
						violations.append((json.loads(cur["replay"]), "process killed by signal %d" % -p.returncode, False))
					else: errors.append("worker exited with %d\n%s" % (p.returncode, log))
			results, done = harvest()
			for r in results:
				if r["violation"] and not any(v[3:] == (r["law"],) for v in violations):
					violations.append(({"property":pid, "law":r["law"], "case":r["violation"]["case"]}, r["violation"]["msg"], r["violation"]["flaky"], r["law"]))
			if violations or errors or alive == 0: break
			time.sleep(0.1)
	finally:
		for p, base, _ in procs:
			if p.poll() is None:
				try: os.killpg(p.pid, signal.SIGKILL)
				except OSError: pass
				p.wait()
	# includes the scratch directories of killed workers
	shutil.rmtree(work, ignore_errors=True)
	if not violations and not errors:
		missing = len(jobs)-len(results)
		if missing: errors.append("%d jobs gave no result" % missing)
	# Evidence
	hashes, labels, samples, perlaw = set(), {}, [], {}
	for r in results:
		hashes |= set(r["hashes"])
		for l, k in r["labels"].items(): labels[r["law"]+":"+l] = labels.get(r["law"]+":"+l,0)+k
		d = perlaw.setdefault(r["law"], {"cases":0, "trivial":0, "distinct_nontrivial":0})
		d["cases"] += r["n"]; d["trivial"] += r["trivial"]; d["distinct_nontrivial"] += len(r["hashes"])
		if sum(1 for s in samples if s["law"] == r["law"]) < 3:
			for s in r["samples"][:2]: samples.append({"law":r["law"], "case":s})
	rules = "; ".join("%s: %s" % (l[0], l[3]) for l in info["laws"])
	os.makedirs(VERIF+"/evidence", exist_ok=True)
	reps = []
	for i, v in enumerate(violations[:5]):
		path = "%s/evidence/%s.replay%d.json" % (VERIF, pid, i)
		json.dump(dict(v[0], message=v[1], flaky=v[2], seed=args.seed), open(path,"w"), indent=1)
		reps.append(path)
	ev = {"property":pid, "tier":args.tier if args.tier in ("quick","thorough") else "quick", "seed":args.seed, "level":"exploration",
		"coverage":{"evaluations":sum(r["n"] for r in results), "distinct_nontrivial":len(hashes),
			"rule":"a case counts as non-trivial unless the law marked it as such; per law: "+rules,
			"samples":samples, "per_law":perlaw, "labels":labels},
		"assumptions":info["assumptions"], "wall_s":round(time.time()-t0,2), "violations":len(violations)}
	path = VERIF+"/evidence/%s.json" % pid
	json.dump(ev, open(path+".tmp","w"), indent=1)
	os.replace(path+".tmp", path)
	for line in known_findings(pid): print(line)
	print("%s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (pid, ev["coverage"]["evaluations"], len(hashes), time.time()-t0, tbuild))
	if violations:
		for v, rep in zip(violations, reps):
			print("law %s: %s" % (v[0]["law"], v[1]))
			print("VIOLATION property=%s replay=%s" % (pid, rep))
		return 1
	if errors:
		for e in errors: print("ERROR: "+e)
		return 2
	return 0

if __name__ == "__main__":
	sys.exit(main())
