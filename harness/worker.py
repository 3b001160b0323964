"""Runs jobs (law, shard seed, ncases) for one property and writes the results as jsonl.
Also used for replays: worker.py replay FILE"""
import sys, os, json, time, traceback, importlib, shutil, tempfile, warnings
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, VERIF+"/vendor"]
warnings.filterwarnings("ignore")
from harness import core

# Exceptions that say something about the environment or the machinery and not about pixell
ENV_ERRORS = (MemoryError, KeyboardInterrupt, core.HarnessError)

def load(pid):
	mod = importlib.import_module("props."+pid)
	return mod.prop

def is_harness_error(e):
	if isinstance(e, ENV_ERRORS): return True
	if isinstance(e, OSError) and e.errno in (28, 12, 24, 11): return True
	if isinstance(e, (AttributeError,)) and "module 'pixell" in str(e): 
		# the harness could not find a public function. Only an API change does this
		tb = e.__traceback__
		while tb.tb_next: tb = tb.tb_next
		return tb.tb_frame.f_code.co_filename.startswith(VERIF)
	return False

def run_case(law, case, scratch):
	"""Returns (outcome, message, ctx); outcome in ok, violation"""
	import numpy as np
	global threads
	if threads is None: threads = _Threads()
	threads.set((1,1,2,5)[int(core.casehash(law.name, case)[:4],16)%4])
	t = core.Ctx()
	t.tmpdir = scratch
	np.random.seed(12345)
	try:
		with np.errstate(all="ignore"):
			law.check(case, t)
	except core.Violation as e:
		return "violation", str(e), t
	except Exception as e:
		if is_harness_error(e): raise
		tb = traceback.extract_tb(e.__traceback__)
		where = "; ".join("%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb[-3:])
		return "violation", "unexpected %s on a valid input: %s [%s]" % (type(e).__name__, e, where), t
	return "ok", "", t

class _Threads:
	"""The number of OpenMP threads used by pixell's compiled code varies from case to case"""
	def __init__(self):
		import ctypes
		try: self.lib = ctypes.CDLL("libgomp.so.1")
		except OSError: self.lib = None
	def set(self, n):
		if self.lib: self.lib.omp_set_num_threads(int(n))
threads = None

class Failed(Exception): pass

def run_job(prop, job, out, curfile, scratch):
	import hypothesis, hypothesis.internal.conjecture.engine as eng
	from hypothesis import settings, HealthCheck, Phase, strategies as st
	eng.MAX_SHRINKING_SECONDS = 30
	law  = prop.laws[job["law"]]
	stat = {"n":0, "hashes":set(), "labels":{}, "samples":[], "first":None, "last":None, "trivial":0}
	cases = st.composite(lambda draw: law.gen(core.Draw(draw)))()
	def test(case):
		cur = json.dumps({"property":prop.id, "law":law.name, "case":case})
		with open(curfile+".tmp","w") as f:
			f.write(json.dumps({"cpu":time.process_time(), "replay":cur}))
		os.replace(curfile+".tmp", curfile)
		res, msg, t = run_case(law, case, scratch)
		if stat["first"] is None:
			# not counting shrinking
			stat["n"] += 1
			if not t.trivial:
				h = core.casehash(law.name, case)
				stat["hashes"].add(h)
				if len(stat["samples"]) < 3 or (len(stat["samples"]) < 12 and stat["n"] % 50 == 0): stat["samples"].append(case)
			else: stat["trivial"] += 1
			for l in t.labels: stat["labels"][l] = stat["labels"].get(l,0)+1
		if res == "violation":
			stat["last"] = (case, msg)
			if stat["first"] is None: stat["first"] = (case, msg)
			raise Failed(msg)
	test = hypothesis.given(cases)(test)
	test = settings(max_examples=job["n"], database=None, deadline=None, derandomize=False,
		phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
		report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet)(test)
	test = hypothesis.seed(job["seed"])(test)
	violation = None
	try: test()
	except Failed as e:
		case, msg = stat["last"]
		violation = {"case":case, "msg":msg, "flaky":False}
	except Exception as e:
		if stat["first"] is not None and "laky" in type(e).__name__:
			case, msg = stat["first"]
			violation = {"case":case, "msg":msg, "flaky":True}
		else: raise
	res = {"law":law.name, "n":stat["n"], "trivial":stat["trivial"], "hashes":sorted(stat["hashes"]),
		"labels":stat["labels"], "samples":stat["samples"][-4:], "violation":violation, "cpu":time.process_time()}
	out.write(json.dumps(res)+"\n"); out.flush()
	return violation is None

def main():
	import numpy as np
	mode = sys.argv[1]
	scratch = tempfile.mkdtemp(prefix="verif_scratch_")
	os.environ["MPLCONFIGDIR"] = scratch+"/mpl"
	os.chdir(scratch)
	try:
		if mode == "run":
			pid, jobfile, outfile, curfile = sys.argv[2:6]
			prop = load(pid)
			jobs = json.load(open(jobfile))
			with open(outfile,"w") as out:
				for job in jobs:
					case_dir = tempfile.mkdtemp(dir=scratch)
					try: ok = run_job(prop, job, out, curfile, case_dir)
					finally: shutil.rmtree(case_dir, ignore_errors=True)
					if not ok: break
				out.write(json.dumps({"done":True})+"\n")
			return 0
		elif mode == "replay":
			rep  = json.load(open(sys.argv[2]))
			prop = load(rep["property"])
			res, msg, t = run_case(prop.laws[rep["law"]], rep["case"], scratch)
			print(res, msg)
			return 0 if res == "ok" else 1
	except Exception as e:
		traceback.print_exc()
		return 3
	finally:
		os.chdir("/")
		shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
	sys.exit(main())
