"""mutate.py FILE [options]: mutation testing of one /repo/pixell/FILE.py with the laws that execute the mutated line (see lawcov.py).
Development only; the mutated source is loaded through an import hook, /repo is not touched.
  --n N      number of mutants to sample (default all)   --func a,b  only these functions   --lines a-b
  --budget S cpu seconds per mutant (default 40)  -j N  parallel  --out FILE (appends json lines)"""
import sys, os, json, ast, random, argparse, subprocess, time, signal, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COV = "/tmp/mut/cov"
CMP = {ast.Lt:"<=", ast.LtE:"<", ast.Gt:">=", ast.GtE:">", ast.Eq:"!=", ast.NotEq:"==", ast.Is:"is not", ast.IsNot:"is", ast.In:"not in", ast.NotIn:"in"}
CMPS= {ast.Lt:"<", ast.LtE:"<=", ast.Gt:">", ast.GtE:">=", ast.Eq:"==", ast.NotEq:"!=", ast.Is:"is", ast.IsNot:"is not", ast.In:"in", ast.NotIn:"not in"}
BIN = {ast.Add:("+","-"), ast.Sub:("-","+"), ast.Mult:("*","/"), ast.Div:("/","*"), ast.FloorDiv:("//","/"), ast.Mod:("%","+"), ast.Pow:("**","*"), ast.BitAnd:("&","|"), ast.BitOr:("|","&")}
def mutants(src):
	"""list of (lineno, description, new source)"""
	tree = ast.parse(src); lines = src.split("\n"); offs = [0]
	b = src.encode(); bl = b.split(b"\n")
	for l in bl: offs.append(offs[-1]+len(l)+1)
	pos = lambda ln, col: offs[ln-1]+col
	res = []
	funcs = []
	for n in ast.walk(tree):
		if isinstance(n,(ast.FunctionDef,)): funcs.append((n.lineno,n.end_lineno,n.name))
	def fname(ln):
		c = [f for f in funcs if f[0]<=ln<=f[1]]
		return max(c,key=lambda f:f[0])[2] if c else None
	def rep(node, a, e, new, desc):
		if fname(node.lineno) is None: return
		res.append((node.lineno, fname(node.lineno), desc, (a,e,new)))
	def between(l, r, old, new, node, desc):
		a, e = pos(l.end_lineno,l.end_col_offset), pos(r.lineno,r.col_offset)
		gap = b[a:e].decode(); i = gap.find(old)
		if i < 0: return
		# skip if inside comment
		rep(node, a, e, gap[:i]+new+gap[i+len(old):], desc)
	skip = set()
	for n in ast.walk(tree):
		if isinstance(n, ast.Raise):
			for m in ast.walk(n): skip.add(m)
		if isinstance(n,(ast.FunctionDef,)):
			for dflt in n.args.defaults+[x for x in n.args.kw_defaults if x]: pass
		if isinstance(n, ast.Assert):
			for m in ast.walk(n): skip.add(m)
		if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print",):
			for m in ast.walk(n): skip.add(m)
	for n in ast.walk(tree):
		if n in skip: continue
		if isinstance(n, ast.Compare) and len(n.ops) == 1:
			o = type(n.ops[0])
			between(n.left, n.comparators[0], CMPS[o], CMP[o], n, "%s->%s" % (CMPS[o],CMP[o]))
			if o in (ast.Lt,ast.Gt,ast.LtE,ast.GtE): between(n.left, n.comparators[0], CMPS[o], {"<":">=","<=":">",">":"<=",">=":"<"}[CMPS[o]], n, "negate")
		elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
			o, w = BIN[type(n.op)]; 
			if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value,str): continue
			between(n.left, n.right, o, w, n, "%s->%s" % (o,w))
		elif isinstance(n, ast.BoolOp):
			o, w = ("and","or") if isinstance(n.op, ast.And) else ("or","and")
			for l, r in zip(n.values[:-1],n.values[1:]): between(l, r, o, w, n, "%s->%s" % (o,w))
		elif isinstance(n, ast.UnaryOp):
			a, e = pos(n.lineno,n.col_offset), pos(n.operand.lineno,n.operand.col_offset)
			if isinstance(n.op,(ast.USub,ast.Not,ast.Invert)): rep(n, a, e, "", "drop unary")
		elif isinstance(n, ast.Constant):
			a, e = pos(n.lineno,n.col_offset), pos(n.end_lineno,n.end_col_offset)
			if n.value is True: rep(n,a,e,"False","True->False")
			elif n.value is False: rep(n,a,e,"True","False->True")
			elif isinstance(n.value,int): rep(n,a,e,str(n.value+1),"%d->%d" % (n.value,n.value+1)); 
			elif isinstance(n.value,float): rep(n,a,e,repr(n.value*1.1 if n.value else 0.1),"%g*1.1" % n.value)
		elif isinstance(n, ast.Call):
			for k in n.keywords:
				if k.arg is None: continue
				a, e = pos(k.lineno,k.col_offset), pos(k.end_lineno,k.end_col_offset)
				# remove with preceding comma
				p = a-1
				while p > 0 and b[p:p+1].isspace(): p -= 1
				if b[p:p+1] == b",": rep(n, p, e, "", "drop kwarg %s" % k.arg)
			if len(n.args) == 2 and not n.keywords and not any(isinstance(x,ast.Starred) for x in n.args):
				x, y = n.args; ax, ex, ay, ey = pos(x.lineno,x.col_offset), pos(x.end_lineno,x.end_col_offset), pos(y.lineno,y.col_offset), pos(y.end_lineno,y.end_col_offset)
				rep(n, ax, ey, (b[ay:ey]+b[ex:ay]+b[ax:ex]).decode(), "swap args")
			if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy","astype") :
				a, e = pos(n.func.value.end_lineno,n.func.value.end_col_offset), pos(n.end_lineno,n.end_col_offset)
				rep(n, a, e, "", "drop .%s" % n.func.attr)
			alt = {"floor":"ceil","ceil":"floor","min":"max","max":"min","minimum":"maximum","maximum":"minimum","zeros":"ones","sin":"cos","cos":"sin","any":"all","all":"any","argmin":"argmax","argmax":"argmin","real":"imag","sum":"mean","mean":"sum","floor_divide":"divide","lstrip":"rstrip","startswith":"endswith"}
			if isinstance(n.func, ast.Attribute) and n.func.attr in alt:
				e = pos(n.func.end_lineno,n.func.end_col_offset); rep(n, e-len(n.func.attr), e, alt[n.func.attr], "%s->%s" % (n.func.attr,alt[n.func.attr]))
			elif isinstance(n.func, ast.Name) and n.func.id in alt:
				e = pos(n.func.end_lineno,n.func.end_col_offset); rep(n, e-len(n.func.id), e, alt[n.func.id], "%s->%s" % (n.func.id,alt[n.func.id]))
		elif isinstance(n,(ast.AugAssign,)):
			a, e = pos(n.lineno,n.col_offset), pos(n.end_lineno,n.end_col_offset); rep(n, a, e, "pass", "drop augassign")
		elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
			a, e = pos(n.lineno,n.col_offset), pos(n.end_lineno,n.end_col_offset); rep(n, a, e, "pass", "drop call")
		elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript):
			a, e = pos(n.lineno,n.col_offset), pos(n.end_lineno,n.end_col_offset); rep(n, a, e, "pass", "drop assign to element")
		elif isinstance(n, ast.If):
			t = n.test; a, e = pos(t.lineno,t.col_offset), pos(t.end_lineno,t.end_col_offset)
			rep(n, a, e, "False", "if False"); rep(n, a, e, "True", "if True")
			# reassignment of a variable of the same name (x = f(x)) dropped
		elif isinstance(n, ast.IfExp):
			t = n.test; a, e = pos(t.lineno,t.col_offset), pos(t.end_lineno,t.end_col_offset)
			rep(n, a, e, "False", "ifexp False"); rep(n, a, e, "True", "ifexp True")
		if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and not isinstance(n.value, ast.Constant):
			nm = n.targets[0].id
			if any(isinstance(m, ast.Name) and m.id == nm for m in ast.walk(n.value)):
				a, e = pos(n.lineno,n.col_offset), pos(n.end_lineno,n.end_col_offset); rep(n, a, e, "pass", "drop self-assign")
	seen, out = set(), []
	for r in res:
		if r[3] in seen: continue
		seen.add(r[3]); out.append(r)
	return sorted(out, key=lambda r: r[0])

def child(modname, path, jobs, budget):
	"""run laws with the mutated module"""
	sys.path[:0] = [VERIF, VERIF+"/vendor", VERIF+"/harness"]
	import importlib.util, importlib.abc, tempfile, shutil, io, resource
	class F(importlib.abc.MetaPathFinder):
		def find_spec(self, name, p=None, target=None):
			if name == modname: return importlib.util.spec_from_file_location(name, path)
	sys.meta_path.insert(0, F())
	scratch = os.environ["TMPDIR"]; os.environ["MPLCONFIGDIR"] = scratch+"/mpl"; os.chdir(scratch)
	import worker; t0 = time.process_time()
	import hypothesis.internal.conjecture.engine as eng
	try:
		props = {}
		for pid, law, n in jobs:
			if time.process_time()-t0 > budget: print("BUDGET"); break
			if pid not in props: props[pid] = worker.load(pid)
			p = props[pid]; L = p.laws[law]
			d = tempfile.mkdtemp(dir=scratch)
			# no shrinking: direct loop through hypothesis with generate only
			from hypothesis import settings, HealthCheck, Phase, strategies as st
			import hypothesis
			out = []
			def test(case):
				t1 = time.process_time()
				r, m, t = worker.run_case(L, case, d)
				if r == "violation": out.append(m); raise worker.Failed(m)
			f = hypothesis.seed(1)(settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet)(hypothesis.given(st.composite(lambda draw: L.gen(worker.core.Draw(draw)))())(test)))
			try: f()
			except worker.Failed: print("KILLED %s.%s %s" % (pid, law, out[0][:150].replace("\n"," "))); return
			except Exception as e:
				print("KILLED %s.%s exc %r" % (pid,law,e)); return
			shutil.rmtree(d, ignore_errors=True)
		print("SURVIVED")
	except BaseException as e: print("KILLED import %r" % e)

if __name__ == "__main__":
	if sys.argv[1] == "child":
		j = json.load(open(sys.argv[2])); child(j["mod"], j["path"], j["jobs"], j["budget"]); sys.stdout.flush(); os._exit(0)
	ap = argparse.ArgumentParser(); ap.add_argument("file"); ap.add_argument("--n",type=int); ap.add_argument("--func"); ap.add_argument("--lines"); ap.add_argument("--budget",type=float,default=40); ap.add_argument("-j",type=int,default=8); ap.add_argument("--out"); ap.add_argument("--seed",type=int,default=1); ap.add_argument("--notfunc"); ap.add_argument("--cases",type=int,default=0)
	a = ap.parse_args(); sys.path.insert(0,VERIF); import check
	src = open("/repo/pixell/%s.py" % a.file).read(); M = mutants(src); bsrc = src.encode()
	if a.func: M = [m for m in M if m[1] in a.func.split(",")]
	if a.notfunc: M = [m for m in M if m[1] not in a.notfunc.split(",")]
	sl = src.split("\n"); M = [m for m in M if "verbose" not in sl[m[0]-1] and "print(" not in sl[m[0]-1]]
	if a.lines: lo, hi = map(int,a.lines.split("-")); M = [m for m in M if lo <= m[0] <= hi]
	cov, laws = {}, {}
	for f in sorted(os.listdir(COV)):
		for law, d in json.load(open(COV+"/"+f)).items():
			tot = sum(len(v) for v in d["lines"].values()); L = d["lines"].get(a.file+".py",[])
			laws[(f[:-5],law)] = (d["time"], d["quick"], tot)
			for l in L: cov.setdefault(l,[]).append((f[:-5],law))
	deflines = {}
	for n in ast.walk(ast.parse(src)):
		if isinstance(n, ast.FunctionDef):
			for l in range(n.lineno, n.body[0].lineno):
				for s_ in n.body[:4]:
					if s_.lineno in cov: deflines[l] = cov[s_.lineno]; break
	# a multi-line statement is reported at its first line; look back a few lines
	def find(l):
		if l in deflines: return deflines[l]
		for k in range(0,12):
			if l-k in cov: return cov[l-k]
			if k and l-k+1 in allstarts: return []
		return []
	allstarts = set(n.lineno for n in ast.walk(ast.parse(src)) if isinstance(n, ast.stmt))
	random.seed(a.seed)
	if a.n and len(M) > a.n: M = sorted(random.sample(M, a.n), key=lambda m:m[0])
	out = open(a.out or "/tmp/mut/%s.out" % a.file, "a"); W = "/tmp/mut/work"; os.makedirs(W, exist_ok=True)
	def run(im):
		i, (ln, fn, desc, (x,y,new)) = im; ls = find(ln); s = (bsrc[:x]+new.encode()+bsrc[y:]).decode()
		try: ast.parse(s)
		except SyntaxError: return ln, fn, desc, "INVALID"
		if not ls: return ln, fn, desc, "UNCOVERED"
		ls = sorted(ls, key=lambda x: (laws[x][0]*max(10,laws[x][1]/4))*(.3+laws[x][2]/500.))
		jobs = [(p,l,a.cases or int(min(max(laws[p,l][1],5), max(5,12/max(laws[p,l][0],1e-4))))) for p,l in ls]
		d = "%s/%s_%d" % (W,a.file,i); os.makedirs(d, exist_ok=True); path = d+"/%s.py" % a.file; open(path,"w").write(s)
		json.dump({"mod":"pixell."+a.file,"path":path,"jobs":jobs,"budget":a.budget}, open(d+"/job","w"))
		env = check.environment({"TMPDIR":d})
		p = subprocess.Popen(["/opt/venv/bin/python",__file__,"child",d+"/job"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
		try: o = p.communicate(timeout=a.budget*3+60)[0].decode(errors="replace")
		except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.wait(); o = "KILLED timeout"
		r = [l for l in o.split("\n") if l.startswith(("KILLED","SURVIVED","BUDGET"))]
		if "BUDGET" in r and "SURVIVED" in r: r = ["SURVIVED (budget) of %d laws" % len(jobs)]
		subprocess.call(["rm","-rf",d])
		return ln, fn, desc, (r[-1] if r else "KILLED crash rc %s %s" % (p.returncode,o[-200:]))
	srcl = src.split("\n"); stat = {}
	with cf.ThreadPoolExecutor(a.j) as ex:
		for ln, fn, desc, r in ex.map(run, list(enumerate(M))):
			k = r.split()[0]; stat[k] = stat.get(k,0)+1
			out.write(json.dumps([ln,fn,desc,r])+"\n"); out.flush()
			if k not in ("KILLED","INVALID"): print("%s:%d %s [%s] %s | %s" % (a.file,ln,fn,desc,r,srcl[ln-1].strip()[:150]), flush=True)
	print(a.file, stat)
