import os, re, fnmatch, calendar, datetime
import numpy as np
from harness.core import Prop, rng
from pixell import bunch, pointsrcs, utils
prop = Prop("P25", assumptions=["Bunch files hold numbers, arrays, bytes and nested Bunches under names without / or .", "text catalogues keep the printed number of decimals"])
DT = ["float64","float32","int32","int64","uint8","bool","complex128","S5"]

def arr(r, dtype, shape):
	if dtype == "bool": return r.integers(0,2,size=shape).astype(bool)
	if dtype == "S5": return np.array([b"x"*k for k in r.integers(1,6,size=int(np.prod(shape)))],"S5").reshape(shape)
	if dtype[0] in "iu": return r.integers(0,100,size=shape).astype(dtype)
	a = r.standard_normal(shape)*10.**r.integers(-300 if dtype=="float64" else -20,20)
	if dtype == "complex128": a = a+1j*r.standard_normal(shape)
	a = np.asarray(a,dtype)
	if a.size and r.integers(3)==0 and a.ndim: a.reshape(-1)[0] = r.choice([np.nan,np.inf,-np.inf])
	return a
def same(t, a, b, msg):
	t.true(isinstance(a,bunch.Bunch)==isinstance(b,bunch.Bunch),msg+": type")
	if isinstance(b,bunch.Bunch):
		t.eq(sorted(a.keys()),sorted(b.keys()),msg+": keys")
		for k in b: same(t,a[k],b[k],msg+"."+k)
	else:
		x, y = np.asarray(a), np.asarray(b)
		if y.ndim==0 and y.dtype.kind=="S": t.true(x[()]==y[()],msg+": bytes"); return
		t.true(x.shape==y.shape and x.dtype==y.dtype,msg+": %s %s vs %s %s" % (x.shape,x.dtype,y.shape,y.dtype)); t.true(x.tobytes()==y.tobytes(),msg+": value %s vs %s" % (a,b))

OPS = ["set","attr","get","del","delattr","in","update","copy","len","iter","init"]
def gen_ops(d): return {"ops":d.list(lambda: [d.choice(OPS),d.choice(["a","b","cc","_dict","keys","x1","copy"]),d.int(0,9)],1,15)}
@prop.law(gen_ops, quick=250, rule="at least three operations")
def history(c, t):
	"""A Bunch behaves as the dictionary of what was stored in it, through items and attributes"""
	t.mark_trivial(len(c["ops"])<3); b = bunch.Bunch(); m = {}; hidden = {"keys","copy","items","update","_dict"}
	for op, k, v in c["ops"]:
		if op == "set": b[k] = v; m[k] = v
		elif op == "attr": setattr(b,k,v); m[k] = v
		elif op == "get":
			if k in m:
				t.eq(b[k],m[k],"item")
				if k not in hidden: t.eq(getattr(b,k),m[k],"attribute")
			else:
				t.raises(KeyError,lambda: b[k],"missing item")
				if k not in hidden: t.raises(AttributeError,lambda: getattr(b,k),"missing attribute"); t.true(not hasattr(b,k),"hasattr")
		elif op in ("del","delattr"):
			if k in m:
				if op == "del": del b[k]
				else: delattr(b,k)
				del m[k]
		elif op == "in": t.true((k in b)==(k in m),"in")
		elif op == "update": u = {k:v,"a":v+1}; b.update(bunch.Bunch(u) if v%2 else u); m.update(u)
		elif op == "copy": o = b; b = b.copy(); o["zz"] = 1; t.true("zz" not in b,"copies are independent")
		elif op == "init": b = bunch.Bunch(b,{k:v},cc=v); m = {**m,k:v,"cc":v}
		elif op == "len": t.true(len(b)==len(m),"len")
		elif op == "iter": t.eq(list(b),list(m),"iteration order"); t.eq(dict(b.items()),m,"items"); t.eq(list(b.keys()),list(m),"keys")
		t.eq(dict(b.items()),m,"contents after "+op)
	t.true(all(k in dir(b) for k in m),"dir"); t.eq(eval(repr(b),{"Bunch":bunch.Bunch})._dict if "_dict" not in m or True else m,m,"repr")

def gen_hdf(d):
	def node(depth): return {"n":d.choice(["a","b","cc","x_1","Z"]),"k":d.choice(["arr","arr","num","bytes","sub" if depth<2 else "arr"]),"dtype":d.choice(DT),"shape":d.list(lambda: d.int(0,4),0,3),"sub":d.list(lambda: node(depth+1),0,3) if depth<2 else []}
	return {"nodes":d.list(lambda: node(0),0,5),"group":d.choice([None,"g","g/h","path"]),"seed":d.seed()}
def mk(nodes, r):
	b = bunch.Bunch()
	for n in nodes:
		if n["k"]=="arr": v = arr(r,n["dtype"],n["shape"])
		elif n["k"]=="num": v = [3,2.5,True,1e-300,2**40,1j][int(r.integers(6))]
		elif n["k"]=="bytes": v = np.bytes_(b"abc")
		else: v = mk(n["sub"],r)
		b[n["n"]] = v
	return b
@prop.law(gen_hdf, quick=200, rule="at least one member")
def hdf(c, t):
	"""bunch.read returns what bunch.write stored, bit by bit, for nested bunches in any group of the file"""
	r = rng(c); b = mk(c["nodes"],r); t.mark_trivial(len(b)==0); fn = os.path.join(t.tmpdir,"b.hdf"); g = c["group"]
	if g == "path": bunch.write(fn+"/p/q",b); x = bunch.read(fn+"/p/q"); y = bunch.read(fn,group="p/q"); z = bunch.read(fn).p.q
	else: bunch.write(fn,b,group=g); x = bunch.read(fn,group=g); y = bunch.read(fn+("/"+g if g else ""),gmode="exists"); z = bunch.read(fn)
	if g and g!="path":
		for k in g.split("/"): z = z[k]
	same(t,x,b,"read"); same(t,y,b,"read by path"); same(t,z,b,"read whole file")
	for k in b:
		if not isinstance(b[k],bunch.Bunch): same(t,bunch.read(fn+"/"+("p/q/" if g=="path" else g+"/" if g else "")+k),b[k],"single member")
	bunch.write(fn,bunch.Bunch(only=1)); t.eq(list(bunch.read(fn).keys()),["only"],"rewriting replaces the file")

@prop.law(lambda d: {"toks":d.list(lambda: d.choice(["a","b.c","dir",".","x.hdf",""]),1,5),"sub":d.choice([None,"s","s/t"])}, quick=120, rule="a name with a dot")
def hdfpath(c, t):
	"""split_hdf_path splits after the last entry with a dot"""
	s = "/".join(c["toks"]); k = [i for i,x in enumerate(s.split("/")) if "." in x]; t.mark_trivial(not k)
	if not k: t.raises(ValueError,lambda: bunch.split_hdf_path(s,c["sub"]),"no dot"); return
	f, g = bunch.split_hdf_path(s,c["sub"]); T = s.split("/"); rest = T[k[-1]+1:]+([c["sub"]] if c["sub"] else [])
	t.eq(f,"/".join(T[:k[-1]+1]),"file"); t.eq(g,"/".join(rest) if rest else None,"group"); t.eq(bunch.split_hdf_path(s,None,mode="none"),(s,None),"none")

@prop.law(lambda d: {"n":d.int(1,5),"kind":d.choice(["float","int","mixed","str","arr","unit"]),"seed":d.seed()}, quick=60, rule="more than one bunch")
def concatenate(c, t):
	"""concatenate turns a list of bunches into a bunch of arrays holding all the values"""
	r = rng(c); t.mark_trivial(c["n"]<2); mkv = {"float":lambda i: float(r.standard_normal()),"int":lambda i: int(r.integers(100)),"mixed":lambda i: 1 if i==0 else 2.5,"str":lambda i: "abcdefgh"[:i+1],"arr":lambda i: r.standard_normal((2,3)),"unit":lambda i: r.standard_normal(2).astype("float32")}[c["kind"]]
	vals = [mkv(i) for i in range(c["n"])]; res = bunch.concatenate([bunch.Bunch(a=v,b=i) for i,v in enumerate(vals)]); t.true(len(res.a)==c["n"],"length")
	for i, v in enumerate(vals): t.true(np.all(res.a[i]==v),"value %d: %s vs %s" % (i,res.a[i],v)); t.true(res.b[i]==i,"second member")
	if c["kind"]=="unit": t.true(res.a.dtype==np.float32,"dtype")

def mkcat(r, n, nf, nc, scale=1.):
	dt = [("ra","d"),("dec","d"),("snr","d",(nc,)),("flux_tot","d",(nc,)),("dflux_tot","d",(nc,)),("flux","d",(nf,nc)),("dflux","d",(nf,nc)),("case","i"),("contam","d",(nf,))]
	cat = np.zeros(n,dt).view(np.recarray)
	for k in dt:
		if k[0]=="ra": cat.ra = r.uniform(-np.pi,2*np.pi,n)
		elif k[0]=="dec": cat.dec = r.uniform(-1.57,1.57,n)
		elif k[0]=="case": cat.case = r.integers(0,20,n)
		else: cat[k[0]] = r.standard_normal(cat[k[0]].shape)*10.**r.integers(-1,8)
	return cat
@prop.law(lambda d: {"n":d.int(1,6),"nf":d.int(1,4),"nc":d.int(1,3),"fits":d.bool(),"seed":d.seed()}, quick=100, rule="more than one source")
def sauron(c, t):
	"""Sauron catalogues come back from text to the printed precision, and from FITS exactly up to rounding"""
	r = rng(c); cat = mkcat(r,c["n"],c["nf"],c["nc"]); t.mark_trivial(c["n"]<2); keep = cat.copy(); fn = os.path.join(t.tmpdir,"c.fits" if c["fits"] else "c.txt"); pointsrcs.write_sauron(fn,cat); t.true(cat.tobytes()==keep.tobytes(),"catalogue modified")
	got = pointsrcs.read_sauron(fn) if c["fits"] or c["nc"]==3 else pointsrcs.read_sauron_txt(fn,ncomp=c["nc"]); t.eq(sorted(got.dtype.names),sorted(cat.dtype.names),"fields"); t.true(len(got)==len(cat),"length")
	for k in cat.dtype.names:
		tol = 1e-14*np.abs(cat[k])+1e-15 if c["fits"] else (.51e-4*utils.degree if k in ("ra","dec") else .0051)+1e-12*np.abs(cat[k]); t.true(got[k].shape==cat[k].shape,"shape of "+k); t.true(np.all(np.abs(got[k]-cat[k])<=tol),"field %s: %s vs %s" % (k,got[k],cat[k]))
	if not c["fits"]:
		head = open(fn).readline(); t.true(len(head[1:].split())==len(open(fn).readlines()[1].split()),"one header entry per column")

@prop.law(lambda d: {"fmt":d.choice(["simple4","simple3","dory_txt","dory_fits","nemo","nemo2","fits"]),"n":d.int(1,5),"auto":d.bool(),"seed":d.seed()}, quick=120, rule="more than one source")
def catalogues(c, t):
	"""The other catalogue formats are read into the documented fields and units, also when the format is guessed"""
	from astropy.io import fits
	r = rng(c); n = c["n"]; t.mark_trivial(n<2); f = c["fmt"]; t.label(f); fn = os.path.join(t.tmpdir,"cat"); ra, dec = r.uniform(0,360,n), r.uniform(-90,90,n); v = r.uniform(1,100,(6,n)); D = utils.degree
	fmt = {"simple4":"simple","simple3":"simple","nemo2":"nemo"}.get(f,f)
	if f.startswith("simple"): np.savetxt(fn,np.array([ra,dec,*v[:int(f[-1])-2]]).T); exp = {"ra":ra*D,"dec":dec*D,"I":v[0]}; exp.update({"dI":v[1]} if f=="simple4" else {})
	elif f == "dory_txt": np.savetxt(fn,np.array([ra,dec,v[3],v[0],v[4],v[1],v[5],v[2]]).T); exp = {"ra":ra*D,"dec":dec*D,"I":v[0]*1e3,"Q":v[1]*1e3,"U":v[2]*1e3}
	elif f == "dory_fits":
		a = np.zeros(n,[("ra","d"),("dec","d"),("amp","d",(3,))]); a["ra"] = ra; a["dec"] = dec; a["amp"] = v[:3].T; fits.BinTableHDU(a).writeto(fn,overwrite=True); exp = {"ra":ra*D,"dec":dec*D,"I":v[0]*1e3,"Q":v[1]*1e3,"U":v[2]*1e3}
	elif f == "fits":
		a = np.zeros(n,[("RADeg","d"),("decDeg","d"),("deltaT_c","d"),("err_deltaT_c","d")]); a["RADeg"],a["decDeg"],a["deltaT_c"],a["err_deltaT_c"] = ra,dec,v[0],v[1]; fits.BinTableHDU(a).writeto(fn,overwrite=True); exp = {"ra":ra,"dec":dec,"I":v[0],"dI":v[1]}
	else:
		with open(fn,"w") as o:
			for i in range(n): o.write("ACT J%04d %.17g %.17g %.17g %d %stmpl %.17g %.17g %.17g\n" % (i,ra[i],dec[i],v[0,i],i+3,"%.17g " % v[5,i] if f=="nemo" else "",v[1,i],v[2,i],v[3,i]))
		exp = {"ra":ra,"dec":dec,"snr":v[0],"npix":np.arange(n)+3,"glat":v[1],"I":v[2],"dI":v[3],"name":np.array([b"ACTJ%04d" % i for i in range(n)]),"template":np.array([b"tmpl"]*n)}
	cat = pointsrcs.read(fn) if c["auto"] else pointsrcs.read(fn,format=fmt); t.true(len(cat)==n,"number of sources")
	for k in exp:
		if exp[k].dtype.kind == "S": t.eq(list(cat[k]),list(exp[k]),k)
		else: t.close(np.asarray(cat[k],float),exp[k],k,rtol=1e-13)
	t.raises(IOError,lambda: pointsrcs.read(os.path.join(t.tmpdir,"missing")),"missing file")

@prop.law(lambda d: {"x":d.choice([None,0.,-0.5,-1e-9,359.9999999,-89.99999,-1/3600.,1/60.]),"n":d.int(0,4),"seed":d.seed()}, quick=150, rule="every generated case")
def sexagesimal(c, t):
	"""Sexagesimal numbers represent the value, including its sign, and names built from them are read back to the position"""
	r = rng(c); x = float(r.uniform(-180,360)*10.**r.integers(-5,1)) if c["x"] is None else c["x"]; s,d,m,sec = utils.to_sexa(x); t.true(s in (-1,1) and d>=0 and 0<=m<60 and 0<=sec<60.000001,"ranges"); t.true(isinstance(d,int) and isinstance(m,int),"integers"); t.close(utils.from_sexa(s,d,m,sec),x,"round trip",atol=1e-12*max(1,abs(x)))
	a = np.concatenate([[x],r.uniform(-360,360,c["n"])]); q = utils.to_sexa(a); t.close(utils.from_sexa(*q),a,"arrays",atol=1e-10); t.eq([q[0][0],q[1][0],q[2][0]],[s,d,m],"array and scalar agree")
	f = utils.format_sexa(x); M = re.fullmatch(r"([+-])(\d\d+):(\d\d):(\d+\.\d\d)",f); t.true(M is not None,"format %s" % f); val = (-1 if M[1]=="-" else 1)*(int(M[2])+int(M[3])/60+float(M[4])/3600); t.close(val,x,"format_sexa %s" % f,atol=.0051/3600)
	f = utils.format_sexa(x,"%(deg)d %(min)d %(sec).9f"); w = f.split(); t.true(int(w[0])==s*d and int(w[1])==m,"custom format"); t.close(float(w[2]),sec,"custom format",atol=1e-8)
	ra, dec = float(r.uniform(-360,720)), float(np.clip(x,-90,90)) if abs(x)<=90 else float(r.uniform(-90,90)); nm = utils.jname(ra,dec,tag="T"); M = re.fullmatch(r"T J(\d\d)(\d\d)(\d\d)([+-])(\d{1,2})(\d\d)(\d\d)",nm); t.true(M is not None,"name %s" % nm)
	h = int(M[1])+int(M[2])/60+int(M[3])/3600; dd = int(M[5])+int(M[6])/60+int(M[7])/3600; t.true(-1e-9<=(ra/15%24)-h<1/3600+1e-9,"ra of %s" % nm); t.true((M[4]=="-")==(dec<0),"sign in %s for %g" % (nm,dec)); t.true(-1e-9<=abs(dec)-dd<1/3600+1e-9,"dec of %s" % nm)
	nm = utils.jname(ra,dec,fmt="%(ra).10f %(dec).10f %(ra_d)d %(dec_d)d %(dec_m)d"); w = nm.split(); t.close([float(w[0]),float(w[1])],[ra,dec],"decimal",atol=1e-9); t.true(int(w[2])==int(ra%360) and int(w[3])==int(dec) and int(w[4])==int((abs(dec)-int(abs(dec)))*60),"degrees")

@prop.law(lambda d: {"ct":d.float(-2e9,4e9),"n":d.int(0,3),"tz":d.choice(["UTC","America/New_York","Asia/Tokyo"]),"off":d.choice([0,1,-5]),"seed":d.seed()}, quick=80, rule="every generated case")
def times(c, t):
	"""Time conversions invert each other and do not depend on the local time zone"""
	import time
	r = rng(c); x = np.concatenate([[c["ct"]],r.uniform(-1e9,4e9,c["n"])])
	for a,b in [("ctime2mjd","mjd2ctime"),("ctime2djd","djd2ctime"),("ctime2jd","jd2ctime")]: t.close(getattr(utils,b)(getattr(utils,a)(x)),x,a,rtol=0,atol=1e-3)
	t.close(utils.ctime2mjd(x),x/86400+40587,"mjd",rtol=1e-14); t.close(utils.mjd2jd(utils.jd2mjd(x/1e3)),x/1e3,"jd",atol=1e-6); t.close(utils.djd2mjd(utils.mjd2djd(x/1e5)),x/1e5,"djd",atol=1e-6); t.close(utils.mjd2djd(15019.5),0,"epoch of djd",atol=1e-9)
	old = os.environ.get("TZ")
	try:
		os.environ["TZ"] = c["tz"]; time.tzset(); s = int(abs(c["ct"])); D = datetime.datetime(1970,1,1)+datetime.timedelta(seconds=s+c["off"]*3600)
		t.eq(utils.ctime2date(s,tzone=c["off"],fmt="%Y-%m-%d %H:%M:%S"),D.strftime("%Y-%m-%d %H:%M:%S"),"ctime2date"); t.eq(utils.date2ctime(utils.ctime2date(s,fmt="%Y-%m-%d %H:%M:%S")),s,"date2ctime in time zone "+c["tz"]); t.eq(utils.date2ctime(utils.ctime2date(s)),s//86400*86400,"date only")
	finally:
		if old is None: os.environ.pop("TZ",None)
		else: os.environ["TZ"] = old
		time.tzset()

def gen_parse(d): return {"items":d.list(lambda: [d.int(-20,20),d.int(-20,30),d.choice([1,2,3,5,-1,-2,-4]),d.choice([1,2,3])],1,5),"box":d.list(lambda: [d.float(-200,200),d.float(-200,200)],1,4),"sl":d.list(lambda: [d.choice([None,d.int(-5,5)]),d.choice([None,d.int(-5,5)]),d.choice([None,1,2,-1])],1,3),"rows":d.int(1,8),"seed":d.seed()}
@prop.law(gen_parse, quick=120, rule="every generated case")
def parsing(c, t):
	"""Number lists, boxes, slices and tables are parsed as written"""
	words, exp = [], []
	for a,n,s,k in c["items"]:
		if k == 1: words.append("%d" % a); exp.append(a)
		elif k == 2: words.append("%d:%d" % (a,a+n)); exp += list(range(a,a+n))
		else: words.append("%d:%d:%d" % (a,a+n,s)); exp += list(range(a,a+n,s))
	g = utils.parse_ints(",".join(words)); t.eq(list(g),exp,"parse_ints %s" % words); t.true(g.dtype.kind=="i","integer type"); g = utils.parse_floats(",".join(words)); t.eq(list(g),[float(x) for x in exp],"parse_floats"); t.true(g.dtype.kind=="f","float type")
	b = np.array(c["box"]); t.eq(utils.parse_box(",".join("%r:%r" % (float(x),float(y)) for x,y in b)),b.T,"parse_box")
	sl = tuple(slice(*s) for s in c["sl"]); s = "["+",".join(":".join("" if v is None else str(v) for v in x) for x in c["sl"])+"]"; p = utils.parse_slice(s); t.eq(p if isinstance(p,tuple) else (p,),sl,"parse_slice "+s)
	r = rng(c); n = c["rows"]; fn = os.path.join(t.tmpdir,"t.txt"); x = r.standard_normal(n); k = r.integers(0,100,n)
	with open(fn,"w") as f:
		f.write("# comment\n")
		for i in range(n): f.write("name%d | %d %r\n" % (i,k[i],float(x[i])))
	T = np.atleast_1d(utils.load_ascii_table(fn,"name:U16 | k:i x:d")); t.eq(list(T["name"]),["name%d" % i for i in range(n)],"names"); t.eq(list(T["k"]),list(k),"integers"); t.eq(list(T["x"]),list(x),"floats")
	t.eq(utils.read_lines(fn),["name%d" % i for i in range(n)],"read_lines"); t.eq(utils.read_lines(fn,col=2),[str(v) for v in k],"column"); t.eq(utils.read_lines(fn+":[::2]"),["name%d" % i for i in range(n)][::2],"with slice"); t.eq([l for l in utils.lines(fn)],open(fn).readlines(),"lines"); t.eq(list(utils.lines(open(fn))),open(fn).readlines(),"lines of a file object")
	np.savetxt(fn,np.array([k,x]).T); t.eq(utils.loadtxt(fn+":[...,0]"),k.astype(float) if n>1 else float(k[0]),"loadtxt with slice")

def gen_split(d): return {"toks":d.list(lambda: d.text("ab,\\ ;",0,4),1,5),"s":d.text("ab,([)]{}",0,12),"path":d.list(lambda: d.choice(["a","bb",".","c.d"]),1,4),"abs":d.bool(),"list":d.list(lambda: d.int(0,3),0,8),"elem":d.int(0,3)}
@prop.law(gen_split, quick=300, rule="every generated case")
def splitting(c, t):
	"""Escaped and grouped splitting undo the corresponding joins"""
	esc = lambda s,d: "".join("\\"+x if x in (d,"\\") else x for x in s); toks = c["toks"]
	for dl in ",;": t.eq(list(utils.split_esc(dl.join(esc(x,dl) for x in toks),dl)),toks,"split_esc of the joined escaped tokens")
	t.eq(list(utils.split_esc("|".join(esc(x,"|").replace("\\\\","^^").replace("^","^") if False else x.replace("^","^^").replace("|","^|") for x in toks),"|",esc="^")),toks,"other escape character")
	# split_outside against a direct parser
	s = c["s"]; op = "([{"; cl = ")]}"; out = [""]; n = 0; cur = None
	for ch in s:
		if n == 0:
			if ch in op: cur = op.index(ch); n = 1; out[-1] += ch
			elif ch == ",": out.append("")
			else: out[-1] += ch
		else:
			if ch == op[cur]: n += 1
			elif ch == cl[cur]: n -= 1
			out[-1] += ch
	t.eq(utils.split_outside(s,","),out,"split_outside %r" % s); t.eq("".join(utils.split_by_group(s,op,cl)),s,"split_by_group keeps everything"); t.eq(",".join(utils.split_outside(s,",")),s,"joining")
	p = ("/" if c["abs"] else "")+"/".join(c["path"]); q = os.path.normpath(p); e = [x for x in q.split("/") if x]; t.eq([x for x in utils.pathsplit(p) if x],(["/"] if c["abs"] else [])+e,"pathsplit"); 
	L = c["list"]; e = [[]]
	for v in L:
		if v == c["elem"]: e.append([])
		else: e[-1].append(v)
	g = utils.listsplit(L,c["elem"]); t.true([list(x) for x in g]==e,"listsplit %s: %s" % (L,g))

def gen_fmt(d): return {"parts":d.list(lambda: {"lit":d.choice(["","a","map_","x.","%%","(1)","-"]),"type":d.choice("dsfegxXoEFG"),"flags":d.choice(["","0","-","+"," ","+0"]),"width":d.choice(["","3","8"]),"prec":d.choice(["",".0",".2"]),"v":d.float(-1e6,1e6),"e":d.int(-30,30),"name":d.bool()},1,3),"post":d.choice(["",".fits","%%"]),"named":d.bool()}
@prop.law(gen_fmt, quick=300, rule="every generated case")
def formats(c, t):
	"""format_to_glob and format_to_regex match whatever the format prints, and the regex extracts the values"""
	fmt = ""; vals = []; names = []
	for i,p in enumerate(c["parts"]):
		ty = p["type"]; fl = p["flags"] if ty!="s" or p["flags"]=="-" else ""; pr = p["prec"] if ty in "fegEFG" else ""
		nm = "n%d" % i; fmt += p["lit"]+"|"*(i>0)+"%"+("("+nm+")" if c["named"] else "")+fl+p["width"]+pr+ty
		v = int(p["v"]) if ty in "d" else abs(int(p["v"])) if ty in "oxX" else "ab" if ty=="s" else p["v"]*10.**(p["e"] if ty in "egEG" else 0); vals.append(v); names.append(nm)
	fmt += c["post"]; out = fmt % (dict(zip(names,vals)) if c["named"] else tuple(vals))
	t.true(fnmatch.fnmatchcase(out,utils.format_to_glob(fmt).replace("[","[[]")),"glob %r for %r" % (utils.format_to_glob(fmt),out))
	rx = utils.format_to_regex(fmt); m = re.fullmatch(rx,out); t.true(m is not None,"regex %r of %r for %r" % (rx,fmt,out))
	if c["named"]:
		for p,nm,v in zip(c["parts"],names,vals):
			s = m.group(nm); ty = p["type"]; raw = ("%"+(p["prec"] if ty in "fegEFG" else "")+ty) % v
			if ty == "s": t.eq(s.strip(),raw,"value of "+fmt)
			elif ty in "oxX": t.true(int(s,{"o":8}.get(ty,16))==v,"value %s of %s" % (s,fmt))
			else: t.true(float(s)==float(raw),"value %s of %s, expected %s" % (s,fmt,raw))
