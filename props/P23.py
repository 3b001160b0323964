import os
import numpy as np
from harness.core import Prop, rng
from pixell import powspec
prop = Prop("P23", assumptions=["text spectra keep 8 significant digits and, when scaled, no l=0 entry"])
SCH = ["stable","diag","row"]

def ref_order(n, scheme):
	"""The documented tables, generated from their description"""
	nc = 0
	while nc*(nc+1)//2 < n: nc += 1
	if scheme == "stable": full = [(c,c) if k==0 else (k-1,c) for c in range(nc) for k in range(c+1)]; return full[:n]
	if scheme == "diag": full = [(i,i+d) for d in range(nc) for i in range(nc-d)]; return full[:n]
	# row: all the diagonals, plus the first n-nc off-diagonals, in row order
	off = [(i,j) for i in range(nc) for j in range(i+1,nc)][:n-nc]
	return sorted([(i,i) for i in range(nc)]+off)
def sym(r, n, shape, kind="float"):
	a = r.integers(-9,9,size=(n,n)+tuple(shape)) if kind=="int" else r.standard_normal((n,n)+tuple(shape))
	if kind == "complex": a = a+1j*r.standard_normal(a.shape)
	return a+np.swapaxes(a,0,1)

@prop.law(lambda d: {"n":d.int(1,40),"scheme":d.choice(SCH+[None])}, quick=160, rule="more than one entry")
def order(c, t):
	"""compressed_order follows the documented tables for every number of entries"""
	n = c["n"]; t.mark_trivial(n==1); w = [tuple(int(v) for v in x) for x in powspec.compressed_order(n,c["scheme"])]
	t.eq(w,ref_order(n,c["scheme"] or "diag"),"entries for %s %d" % (c["scheme"],n)); t.true(len(set(w))==n and all(a<=b for a,b in w),"unique, upper triangle")
	if c["scheme"]=="stable": t.eq([tuple(x) for x in powspec.compressed_order(n+1,"stable")][:n],w,"truncation stable")

def gen_rt(d):
	return {"n":d.int(1,6),"pre":d.list(lambda: d.int(1,3),0,2),"post":d.list(lambda: d.int(1,3),0,2),"scheme":d.choice(SCH+[None]),"kind":d.choice(["float","int","complex","float32"]),"neg":d.bool(),"combined":d.bool(),"which":d.choice([None,None,"list","array"]),"seed":d.seed()}
@prop.law(gen_rt, quick=400, rule="at least two components")
def compress_expand(c, t):
	"""sym_compress picks each unique entry once, along any axes, and sym_expand inverts it"""
	r = rng(c); n = c["n"]; t.mark_trivial(n<2); na = len(c["pre"]); m0 = sym(r,n,c["pre"]+c["post"],c["kind"] if c["kind"]!="float32" else "float")
	if c["kind"]=="float32": m0 = m0.astype("float32")
	if c["combined"] and c["kind"]=="int": m0 = m0.astype(float)
	m = np.moveaxis(m0,[0,1],[na,na+1]); axes = [na,na+1]; axis = na
	if c["neg"]: axes = [na-m.ndim,na+1-m.ndim]; axis = na-(m.ndim-1)
	nu = n*(n+1)//2; w = ref_order(nu,c["scheme"] or "diag"); kw = {"scheme":c["scheme"]}
	if c["which"]: p = r.permutation(nu); w = [w[i] for i in p]; kw = {"which":[list(x) for x in w]}
	if c["which"]=="array": kw = {"which":np.array(w)}
	t.label("axis %d" % na); keep = m.copy()
	f = powspec.sym_compress(m,axes=axes,combined=c["combined"],**kw)
	ref = np.array([m0[i,j]*(2 if c["combined"] and i!=j else 1) for i,j in w]); t.true(f.shape==np.moveaxis(ref,0,na).shape,"compressed shape %s" % (f.shape,)); t.eq(f,np.moveaxis(ref,0,na),"compressed"); t.eq(m,keep,"input modified")
	back = powspec.sym_expand(f,axis=axis,combined=c["combined"],**kw); t.true(back.shape==m.shape,"expanded shape %s" % (back.shape,)); t.eq(back,m,"expand(compress)"); t.true(back.dtype==m.dtype,"dtype")
	back = powspec.sym_expand(f,axis=axis,combined=c["combined"],ncomp=n+1,**kw); x = np.moveaxis(back,[na,na+1],[0,1]); t.eq(x[:n,:n],m0,"ncomp given"); t.true(not np.any(x[n]) and not np.any(x[:,n]),"components without data are zero")
	t.eq(powspec.sym_compress(back if False else m,axes=axes[::-1],combined=c["combined"],**kw) if na==0 and not c["neg"] else f,f,"order of the axes")

def gen_part(d): return {"n":d.int(1,15),"nl":d.int(1,4),"scheme":d.choice(SCH),"seed":d.seed()}
@prop.law(gen_part, quick=200, rule="more than one entry")
def partial(c, t):
	"""A truncated set of entries expands to a matrix holding exactly these and compresses back to them"""
	r = rng(c); n = c["n"]; t.mark_trivial(n==1); v = r.standard_normal((n,c["nl"])); w = ref_order(n,c["scheme"]); nc = max(j for _,j in w)+1
	e = powspec.sym_expand(v,scheme=c["scheme"]); ref = np.zeros((nc,nc,c["nl"]))
	for (i,j),x in zip(w,v): ref[i,j] = x; ref[j,i] = x
	t.true(e.shape==ref.shape,"shape %s" % (e.shape,)); t.eq(e,ref,"expanded"); t.eq(powspec.sym_compress(e,scheme=c["scheme"],n=n),v,"compressed again")

def gen_scale(d): return {"shape":d.list(lambda: d.int(1,3),0,2),"nl":d.int(1,30),"dir":d.choice([-2,-1,1,2]),"extra":d.choice([0,0.5,1,-1]),"l":d.bool(),"seed":d.seed()}
@prop.law(gen_scale, quick=150, rule="more than two multipoles")
def scale(c, t):
	"""The l-factors are applied once per direction, never at l=0, and undone by the opposite direction"""
	r = rng(c); nl = c["nl"]; t.mark_trivial(nl<3); a = r.standard_normal(c["shape"]+[nl]); l = np.arange(nl); kw = {}; keep = a.copy()
	if c["l"]: l = np.cumsum(r.integers(1,4,size=nl))-1; l[0] = 0; kw["l"] = l
	f = np.zeros(nl); f[1:] = (2*np.pi/(l[1:]*(l[1:]+1.))**(1+c["extra"]))**c["dir"]
	s = powspec.scale_spectrum(a,c["dir"],c["extra"],**kw); t.close(s,a*f,"scale_spectrum",rtol=1e-12); b = powspec.scale_spectrum(s,-c["dir"],c["extra"],**kw); t.close(b[...,1:],a[...,1:],"undone",rtol=1e-12)
	f = np.zeros(nl); f[1:] = 1/(l[1:]**4.*2.726e6**2)**c["dir"]
	s = powspec.scale_camb_scalar_phi(a,c["dir"],**kw); t.close(s,a*f,"scale_camb_scalar_phi",rtol=1e-12); t.close(powspec.scale_camb_scalar_phi(s,-c["dir"],**kw)[...,1:],a[...,1:],"undone",rtol=1e-12); t.eq(a,keep,"input modified")

def gen_io(d): return {"n":d.int(1,4),"nl":d.int(1,30),"inds":d.bool(),"scale":d.bool(),"expand":d.choice(SCH+[None]),"mag":d.float(-12,6),"cut":d.int(0,5),"omit":d.bool(),"seed":d.seed()}
@prop.law(gen_io, quick=250, rule="more than one multipole")
def io(c, t):
	"""read_spectrum returns what write_spectrum wrote, from files with the documented columns"""
	r = rng(c); n, nl = c["n"], c["nl"]; t.mark_trivial(nl==1); fn = os.path.join(t.tmpdir,"s.txt"); w = ref_order(n*(n+1)//2,c["expand"] or "diag")
	ps = sym(r,n,(nl,))*10**c["mag"]; flat = np.array([ps[i,j] for i,j in w]); kw = {k:c[k] for k in ["inds","scale","expand"] if not (c.get("omit") and c[k] in (True,"diag"))}; arg = ps if c["expand"] else flat; keep = arg.copy()
	powspec.write_spectrum(fn,arg,**kw); t.eq(arg,keep,"spectrum modified"); l = np.arange(nl)
	rows = np.array([[float(x) for x in line.split()] for line in open(fn)]); t.true(rows.shape==(nl,len(w)+c["inds"]),"file shape %s" % (rows.shape,))
	f = np.ones(nl)
	if c["scale"]: f = l*(l+1)/2/np.pi
	col = rows.T
	if c["inds"]: t.eq(col[0],l,"index column"); col = col[1:]
	t.close(col,flat*f,"columns in the file",rtol=2e-7,atol=0)
	got = powspec.read_spectrum(fn,**kw); exp = arg.copy()
	if c["scale"]: exp[...,0] = 0
	t.true(got.shape==exp.shape,"shape %s vs %s" % (got.shape,exp.shape)); t.close(got,exp,"read back",rtol=2e-7,atol=0)
	raw = powspec.read_spectrum(fn,inds=c["inds"],scale=False,expand=None); t.close(raw,flat*f,"read raw",rtol=2e-7,atol=0)
	k = max(1,len(w)-1); t.close(powspec.read_spectrum(fn,inds=c["inds"],scale=False,expand=None,ncol=k),(flat*f)[:k],"ncol",rtol=2e-7,atol=0)
	if c["inds"] and nl > c["cut"]: # a table that does not start at l=0 and is in any order
		rows = rows[c["cut"]:]; rows = rows[r.permutation(len(rows))]; np.savetxt(fn,rows); g = powspec.read_spectrum(fn,inds=True,scale=False,expand=None); e = flat*f; e[:,:c["cut"]] = 0; t.close(g,e,"tables starting at higher l, in any order",rtol=2e-7,atol=0)

def gen_camb(d): return {"nl":d.int(1,20),"l0":d.int(0,3),"scale":d.bool(),"expand":d.bool(),"inds":d.bool(),"omit":d.bool(),"seed":d.seed()}
@prop.law(gen_camb, quick=150, rule="more than one row")
def camb(c, t):
	"""CAMB's scalar and lens-potential tables end up in the documented entries with the documented scalings"""
	r = rng(c); nl = c["nl"]; t.mark_trivial(nl==1); fn = os.path.join(t.tmpdir,"c.txt"); l0 = c["l0"] if c["inds"] else 0; L = np.arange(l0,l0+nl); lm = l0+nl; kw = {k:c[k] for k in ["scale","expand","inds"] if not (c.get("omit") and c[k])}
	def put(x): o = np.zeros(lm); o[L] = x; return o
	def fac(p): o = np.zeros(lm); l = np.arange(1,lm); o[1:] = 2*np.pi/(l*(l+1.))**p; return o if c["scale"] else np.ones(lm)
	a = r.standard_normal((6,nl)); np.savetxt(fn,np.concatenate([L[None],a]).T if c["inds"] else a.T)
	cmb, phi = powspec.read_camb_scalar(fn,**kw); TT, EE, TE, PP = [put(x) for x in a[:4]]; ff = fac(1); l = np.arange(lm)
	pf = np.ones(lm)
	if c["scale"]: pf = np.zeros(lm); pf[1:] = 1/(l[1:]**4.*2.726e6**2)
	if c["expand"]:
		ref = np.zeros((3,3,lm)); ref[0,0] = TT; ref[1,1] = EE; ref[0,1] = ref[1,0] = TE
		t.true(cmb.shape==ref.shape and phi.shape==(1,1,lm),"shapes"); t.close(cmb,ref*ff,"cmb",rtol=1e-10); t.close(phi[0,0],PP*pf,"phi",rtol=1e-10)
	else: t.close(cmb,np.array([TT,EE,TE])*ff,"cmb",rtol=1e-10); t.close(phi,PP*pf,"phi",rtol=1e-10)
	b = r.standard_normal((7,nl)); np.savetxt(fn,np.concatenate([L[None],b]).T if c["inds"] else b.T); g = powspec.read_camb_full_lens(fn,**kw); x = [put(v) for v in b]; f = [fac(1)]*4+[fac(2)]+[fac(1.5)]*2; x = [u*v for u,v in zip(x,f)]
	if c["expand"]:
		ref = np.zeros((4,4,lm)); ref[1,1],ref[2,2],ref[3,3] = x[:3]; ref[1,2] = ref[2,1] = x[3]; ref[0,0] = x[4]; ref[0,1] = ref[1,0] = x[5]; ref[0,2] = ref[2,0] = x[6]
	else: ref = np.array(x)
	t.true(g.shape==ref.shape,"shape"); t.close(g,ref,"lens potential table",rtol=1e-10)

def gen_corr(d): return {"n":d.int(1,3),"nl":d.int(1,20),"np":d.list(lambda: d.int(1,4),0,2),"iscos":d.bool(),"sym":d.bool(),"seed":d.seed()}
@prop.law(gen_corr, quick=150, rule="more than one multipole")
def corr(c, t):
	"""spec2corr is the Legendre sum, and integrating it against Legendre polynomials gives the spectrum back"""
	r = rng(c); n, nl = c["n"], c["nl"]; t.mark_trivial(nl==1); ps = sym(r,n,(nl,)); 
	if not c["sym"]: ps = r.standard_normal((n,n,nl))
	th = r.uniform(0,np.pi,c["np"]); l = np.arange(nl)
	def P(x): # by recurrence
		p = [np.ones_like(x),x]
		for k in range(2,nl): p.append(((2*k-1)*x*p[-1]-(k-1)*p[-2])/k)
		return np.array(p[:nl])
	got = powspec.spec2corr(ps,np.cos(th) if c["iscos"] else th,iscos=c["iscos"],symmetric=c["sym"]); ref = np.tensordot(ps*(2*l+1)/4/np.pi,P(np.cos(th)),1)
	t.true(got.size==ref.size,"size"); t.close(got.reshape(ref.shape),ref,"Legendre sum",rtol=1e-10)
	x, w = np.polynomial.legendre.leggauss(nl+1); C = powspec.spec2corr(ps,x,iscos=True,symmetric=c["sym"]).reshape(n,n,-1); t.close(2*np.pi*np.tensordot(C*w,P(x),[[2],[1]]),ps,"inverse",rtol=1e-9)
