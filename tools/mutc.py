"""mutc.py FILE [--n N] [-j N] [--seed S]: mutation testing of a C, Cython or Fortran source with the checks of the properties that use it.
Each worker has a private copy of /repo and /verif in its own mount namespace. Development only; no registered command uses it."""
import os, sys, re, random, subprocess, shutil, argparse, queue, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"cmisc":"P16 P14 P27 P31 P19","distances":"P13","srcsim":"P24","interpol":"P30 P11 P26","array_ops":"P30 P20","colorize":"P34"}
ap = argparse.ArgumentParser(); ap.add_argument("file"); ap.add_argument("--n",type=int,default=60); ap.add_argument("-j",type=int,default=3); ap.add_argument("--seed",type=int,default=1); ap.add_argument("--lines"); a = ap.parse_args()
src = open("/repo/"+a.file).read().split("\n"); fort = a.file.lower().endswith("f90"); pyx = a.file.endswith("pyx"); muts = []
RULES = [(r"<=","<"),(r">=",">"),(r"(?<![<>=!+\-*/%&|])=(?==)",None),(r"(?<![<\-=])<(?![=<a-z])","<="),(r"(?<![>\-=])>(?![=>])",">="),(r"==","!="),(r"!=","=="),(r"&&","||"),(r"\|\|","&&"),(r"(?<=[\w\]\)])\+(?=[\w\(])","-"),(r"(?<=[\w\]\)])-(?=[\w\(])","+"),(r"(?<=[\w\]\)])\*(?=[\w\(])","+"),(r"\+=","-="),(r"-=","+="),(r"\*=","/="),(r"\b0\b","1"),(r"\b1\b","0"),(r"\b1\b","2"),(r"\b2\b","3"),(r"\bmin\b","max"),(r"\bmax\b","min"),(r"\bfmin","fmax"),(r"\bfmax","fmin"),(r"\bcos\b","sin"),(r"\bsin\b","cos"),(r"\bcontinue;","{}"),(r"\bbreak;","{}"),(r"%","+"),(r"\.and\.",".or."),(r"\.or\.",".and.")]
incom = False
for ln, l in enumerate(src):
	s = l.strip()
	if s.startswith("/*"): incom = True
	skip = incom or not s or s.startswith(("//","!","#","*","import","cimport","from","cdef extern","include","typedef"))
	if "*/" in s: incom = False
	if skip or '"' in s or (not fort and not pyx and re.match(r"^[\w\s\*]+\(.*\)\s*[;{]$",l)): continue
	code = re.split(r"//|!(?!=)" if fort else "//" if not pyx else "#",l)[0]
	for pat, new in RULES:
		if new is None: continue
		for m in re.finditer(pat,code): muts.append((ln,pat,new,l[:m.start()]+new+l[m.end():]))
	if not fort and not pyx and re.match(r"^\s*[\w\[\]\.\->\+\* ]+\s*[\+\-\*/]?=[^=].*;\s*$",code) and not re.match(r"^\s*(int|float|double|const|struct|long|[A-Z]\w+)\b",code): muts.append((ln,"drop statement","",re.match(r"^\s*",l).group()+";"))
if a.lines: lo, hi = map(int,a.lines.split("-")); muts = [m for m in muts if lo <= m[0]+1 <= hi]
random.seed(a.seed); random.shuffle(muts); print(len(muts),"mutants"); muts = muts[:a.n]
base = os.path.basename(a.file).split(".")[0].replace("_core","")
SCRIPT = r'''
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 99
timeout 300 bash /opt/vp/build.sh ext > $W/build.log 2>&1 || exit 98
cd /verif; for p in $PROPS; do VERIF_SEED=1 timeout 600 /opt/venv/bin/python check.py $p > $W/check.log 2>&1; r=$?; if [ $r != 0 ]; then echo $p > $W/who; exit $r; fi; done
'''
Q = queue.Queue()
for k in range(a.j):
	W = "/tmp/mc/%s%d" % (base,k); shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
	subprocess.check_call("cp -a /repo %s/repo; mkdir %s/verif; cp -a /verif/check.py /verif/harness /verif/props /verif/vendor /verif/tools /verif/known_findings.txt %s/verif/; mkdir %s/verif/evidence" % (W,W,W,W),shell=True); Q.put(W)
def run(m):
	W = Q.get(); ln, pat, new, line = m
	try:
		f = W+"/repo/"+a.file; s = list(src); s[ln] = line; open(f,"w").write("\n".join(s))
		rc = subprocess.run(["unshare","-m","bash","-c",SCRIPT],env=dict(os.environ,W=W,PROPS=PROPS[base]),stdout=subprocess.PIPE,stderr=subprocess.STDOUT).returncode
		return rc
	finally: Q.put(W)
cnt = {}
with cf.ThreadPoolExecutor(a.j) as ex:
	for m, rc in zip(muts,ex.map(run,muts)):
		st = {0:"SURVIVED",1:"KILLED",98:"NOBUILD"}.get(rc,"RC%d" % rc); cnt[st] = cnt.get(st,0)+1
		if st != "KILLED" and st != "NOBUILD": print("%s:%d %s | %s   =>   %s" % (base,m[0]+1,st,src[m[0]].strip(),m[3].strip()),flush=True)
print(cnt)
shutil.rmtree("/tmp/mc/"+base+"0",ignore_errors=True)
for k in range(a.j): shutil.rmtree("/tmp/mc/%s%d" % (base,k),ignore_errors=True)
