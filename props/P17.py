import numpy as np
from harness.core import Prop, rng
from harness import geo, sht
from pixell import enmap, curvedsky, utils, powspec
prop = Prop("P17", assumptions=["statistical laws use thresholds of 7 standard deviations or more, for fixed seeds", "spectra are positive semi-definite"])
KNOWN = "rand_alm with several components: the low-l coefficients depend on lmax (only scalar spectra nest), see known_findings.txt"

def spec(r, n, nl, kind):
	"""A positive definite [n,n,nl] spectrum"""
	l = np.arange(nl); A = r.standard_normal((n,n)); C = A@A.T+0.1*np.eye(n)
	ps = C[:,:,None]*(1+l)**-r.uniform(0,2)*r.uniform(.1,10)
	if kind == "diag": ps = ps*np.eye(n)[:,:,None]
	if kind == "zero" and nl > 1: ps[:,:,r.integers(nl)] = 0
	return ps
def sqrtm(ps):
	w, v = np.linalg.eigh(np.moveaxis(ps,-1,0)); return np.einsum("lij,lj,lkj->ikl",v,np.sqrt(np.maximum(w,0)),v)
def history(r, k):
	"""Consume an arbitrary amount of global random numbers"""
	for _ in range(k):
		w = r.integers(3)
		if w == 0: np.random.standard_normal(int(r.integers(1,50)))
		elif w == 1: np.random.seed(int(r.integers(1000)))
		else: curvedsky.rand_alm(np.ones(3),seed=int(r.integers(100)))

def gen_alm(d):
	return {"n":d.int(1,3),"nl":d.int(1,12),"lmax":d.choice([None,-3,-1,2]),"form":d.choice(["full","full","diag","scalar"]),"kind":d.choice(["gen","diag","zero"]),"dtype":d.choice(["complex128","complex64"]),"mmaj":d.choice([True,True,False]),"mmax":d.choice([None,None,2]),"s":d.int(0,1000),"list":d.bool(),"hist":d.int(0,3),"seed":d.seed()}
@prop.law(gen_alm, quick=700, rule="more than one l")
def alm_draw(c, t):
	"""rand_alm is a deterministic function of its arguments: the symmetric square root of the spectrum times the white draw for the seed"""
	r = rng(c); n, nl = c["n"], c["nl"]; t.mark_trivial(nl==1); form = c["form"]
	if form == "scalar": n = 1
	ps = spec(r,n,nl,c["kind"]); L = nl-1 if c["lmax"] is None else max(0,nl-1+c["lmax"])
	arg = {"full":ps,"diag":powspec.sym_compress(ps,scheme="diag"),"scalar":ps[0,0]}[form]; keep = arg.copy()
	if form == "diag": # healpy's ordering: diagonal first
		ref = np.array([ps[i,i+k] for k in range(n) for i in range(n-k)]); t.close(arg,ref,"diagonal-first ordering",rtol=1e-14)
	kw = {"lmax":None if c["lmax"] is None else L}
	if c["mmax"] is not None and L >= c["mmax"]: kw = {"ainfo":curvedsky.alm_info(lmax=L,mmax=c["mmax"])}
	ai = kw.get("ainfo") or curvedsky.alm_info(lmax=L)
	given = arg.tolist() if c["list"] else arg
	history(r,c["hist"])
	a = curvedsky.rand_alm(given,seed=c["s"],dtype=c["dtype"],m_major=c["mmaj"],**kw)
	history(r,c["hist"])
	a2, ai2 = curvedsky.rand_alm(given,seed=c["s"],dtype=c["dtype"],m_major=c["mmaj"],return_ainfo=True,**kw)
	np.random.seed(c["s"]); a3 = curvedsky.rand_alm(given,dtype=c["dtype"],m_major=c["mmaj"],**kw)
	t.eq(a,a2,"same seed, different history"); t.eq(a,a3,"seed argument vs global seed"); t.eq(arg,keep,"spectrum modified")
	t.true((ai2.lmax,ai2.mmax,ai2.nelem)==(ai.lmax,ai.mmax,ai.nelem),"ainfo"); t.true(a.dtype==np.dtype(c["dtype"]),"dtype")
	t.true(a.shape==(() if form=="scalar" else (n,))+(ai.nelem,),"shape %s" % (a.shape,))
	if np.any(ps!=0): t.true(np.any(curvedsky.rand_alm(given,seed=c["s"]+1,dtype=c["dtype"],**kw)!=a) or L==0,"different seeds")
	# Reference
	np.random.seed(c["s"]); w = np.random.standard_normal(n*ai.nelem*2).astype(np.zeros(1,c["dtype"]).real.dtype).view(c["dtype"]).reshape(n,ai.nelem).astype(complex)
	pairs = [(l,m) for m in range(ai.mmax+1) for l in range(m,L+1)]; ind = {k:int(ai.lm2ind(*k)) for k in pairs}
	if c["mmaj"]:
		x = w.copy(); x[:,[ind[k] for k in sorted(pairs)]] = w[:,[ind[k] for k in pairs]]; w = x
	S = np.zeros((n,n,L+1)); k = min(L+1,nl); S[:,:,:k] = sqrtm(ps)[:,:,:k]
	ref = np.array([S[:,:,l]@(w[:,ind[(l,m)]].real if m==0 else w[:,ind[(l,m)]]/2**.5) for l,m in pairs]).T
	t.close(np.atleast_2d(a)[:,[ind[k] for k in pairs]],ref,"covariance applied to the white draw",rtol=2e-5 if c["dtype"]=="complex64" else 1e-6)

def gen_nest(d): return {"l1":d.int(0,20),"dl":d.int(1,20),"s":d.int(0,1000),"dtype":d.choice(["complex128","complex64"]),"seed":d.seed()}
@prop.law(gen_nest, quick=200, rule="every generated case")
def nesting(c, t):
	"""Scalar draws with a higher lmax extend the ones with a lower lmax"""
	r = rng(c); L1 = c["l1"]; L2 = L1+c["dl"]; ps = r.uniform(.1,2,L2+1)
	a, b = curvedsky.rand_alm(ps,lmax=L1,seed=c["s"],dtype=c["dtype"]), curvedsky.rand_alm(ps,lmax=L2,seed=c["s"],dtype=c["dtype"])
	i1, i2 = curvedsky.alm_info(L1), curvedsky.alm_info(L2)
	t.close(curvedsky.transfer_alm(i2,b,i1),a,"low-l part of the larger draw",rtol=1e-6)

def gen_stat(d): return {"n":d.int(1,3),"lmax":d.int(60,120),"how":d.choice(["alm","healpy","white"]),"dtype":d.choice(["complex128","complex64"]),"s":d.int(0,10**6),"seed":d.seed()}
@prop.law(gen_stat, quick=60, thorough=1000, rule="every generated case")
def alm_statistics(c, t):
	"""The whitened coefficients are independent standard normal numbers"""
	r = rng(c); n, L = c["n"], c["lmax"]; ps = spec(r,n,L+1,"gen"); ai = curvedsky.alm_info(L)
	if c["how"] == "alm": a = curvedsky.rand_alm(ps,seed=c["s"],dtype=c["dtype"])
	elif c["how"] == "healpy":
		a = curvedsky.rand_alm_healpy(ps,seed=c["s"],dtype=c["dtype"]); t.eq(a,curvedsky.rand_alm_healpy(ps,seed=c["s"],dtype=c["dtype"]),"same seed"); t.true(a.dtype==np.dtype(c["dtype"]),"dtype")
	else: a = curvedsky.rand_alm_white(ai,pre=(n,),seed=c["s"],dtype=c["dtype"])
	a = np.atleast_2d(a).astype(complex); lms = np.array(sht.lms(L,L)); m = lms[:,1]
	if c["how"] == "white": x = a; parts = [x.real,x.imag]
	else:
		t.eq(a[:,m==0].imag,np.zeros((n,L+1)),"m=0 is real")
		iS = np.moveaxis(np.linalg.inv(np.linalg.cholesky(np.moveaxis(ps,-1,0))),0,-1)
		x = np.einsum("ijk,jk->ik",iS[:,:,lms[:,0]],a); parts = [x[:,m==0].real,x[:,m>0].real*2**.5,x[:,m>0].imag*2**.5]
	for k, p in enumerate(parts):
		N = p.shape[1]; C = p@p.T/N
		t.close(C,np.eye(n),"covariance of part %d" % k,rtol=0,atol=8*(2./N)**.5)
		t.close(np.mean(p,1),np.zeros(n),"mean",rtol=0,atol=8./N**.5)
	if len(parts) == 3: t.close(np.mean(parts[1]*parts[2],1),np.zeros(n),"real-imaginary correlation",rtol=0,atol=8/parts[1].shape[1]**.5)
	g = np.concatenate([p.reshape(-1) for p in parts]); k4 = np.mean(g**4); t.close(k4,3.,"kurtosis",rtol=0,atol=8*(96./g.size)**.5)
	# no power depends on l or m
	for lo, hi in [(0,L//2),(L//2,L+1)]:
		s = (lms[:,0]>=lo)&(lms[:,0]<hi)&(m>0); v = np.mean(np.abs(x[:,s])**2)/(2 if c["how"]=="white" else 1); t.close(v,1.,"variance in l range",rtol=0,atol=8/(n*s.sum())**.5)

def gen_flat(d):
	return {"geo":geo.gen_cyl(d,4,12,projs=("car",),maxdec=40,res=(0.2,2)),"n":d.choice([0,1,2,3]),"cn":d.int(1,3),"form":d.choice(["1d","1d","2d","2dpix","scal"]),"scalar":d.bool(),"spin":d.choice([[0,2],[0],[0,0,0]]),"iau":d.bool(),"s":d.int(0,1000),"hist":d.int(0,2),"seed":d.seed()}
@prop.law(gen_flat, quick=500, rule="every generated case")
def flat_draw(c, t):
	"""enmap.rand_map is harm2map of the square root of the covariance times the white draw for the seed"""
	shape, wcs = geo.build(c["geo"]); r = rng(c); n = c["n"]; cn = n or c["cn"]
	if n == 2 and c["spin"] == [0,2]: n = 3; cn = 3
	full = shape if n == 0 else (n,)+shape; nl = int(np.max(np.asarray(enmap.modlmap(shape,wcs))))+3
	lm = np.asarray(enmap.modlmap(shape,wcs)); form = c["form"]; area = enmap.area(shape,wcs); npix = shape[0]*shape[1]
	if form in ["2d","2dpix"] and n == 0: form = "1d"
	if form in ["1d","scal"]:
		if form == "scal": cov = 1/(10.+np.arange(nl)); full_cov = cov[None,None]
		else: cov = full_cov = spec(r,cn,nl,"gen")
		k = max(n,1); C = np.zeros((k,k)+shape); q = min(k,full_cov.shape[0])
		if n == 0: q = 1
		# interpolation of the square root of the spectrum between integer l is linear in P08/P12; use a flat spectrum in l to be independent of it
		full_cov = full_cov[:,:,:1]+0*full_cov; cov = full_cov if form=="1d" else full_cov[0,0]
		C[:q,:q] = full_cov[:q,:q,0][:,:,None,None]*npix/area
		kw = {}
	else:
		base = spec(r,n,npix,"gen").reshape(n,n,*shape); cov = base
		C = base*(1 if form=="2dpix" else npix/area); kw = {"pixel_units":form=="2dpix"}
	keep = np.array(cov).copy()
	history(r,c["hist"]); m = enmap.rand_map(full,wcs,cov,scalar=c["scalar"],seed=c["s"],iau=c["iau"],spin=c["spin"],**kw)
	history(r,c["hist"]); m2 = enmap.rand_map(full,wcs,cov,scalar=c["scalar"],seed=c["s"],iau=c["iau"],spin=c["spin"],**kw)
	t.eq(m,m2,"same seed, different history"); t.eq(cov,keep,"cov modified"); t.true(m.shape==full and m.dtype==float,"shape and dtype"); t.label(form)
	np.random.seed(c["s"]); w = np.random.standard_normal(full)+1j*np.random.standard_normal(full)
	S = sqrtm(C.reshape(C.shape[0],C.shape[0],-1)).reshape(C.shape)
	h = np.einsum("ij...,j...->i...",S,w.reshape((-1,)+shape)).reshape(full)
	if c["scalar"]: ref = np.fft.ifft2(h).real*npix**.5
	else: ref = np.asarray(enmap.harm2map(enmap.ndmap(h,wcs),iau=c["iau"],spin=c["spin"]))
	t.close(np.asarray(m),ref,"rand_map",rtol=1e-6)

def gen_fstat(d): return {"n":d.int(1,3),"ny":d.int(6,12),"nx":d.int(6,12),"slope":d.float(0,2),"s":d.int(0,10**6),"seed":d.seed()}
@prop.law(gen_fstat, quick=40, thorough=500, rule="every generated case")
def flat_statistics(c, t):
	"""The power spectrum of the maps is the requested one, mode by mode"""
	r = rng(c); n = c["n"]; shape = (c["ny"],c["nx"]); wcs = geo.make_wcs("car",[0.,0.],[-1.,1.],[1.,1.]); lm = np.asarray(enmap.modlmap(shape,wcs)); nl = int(lm.max())+3
	A = r.standard_normal((n,n)); A = A@A.T+0.2*np.eye(n); l = np.arange(nl); p = (1+l/100.)**-c["slope"]; ps = A[:,:,None]*p; N = 150
	np.random.seed(c["s"]); P = np.zeros((n,n)+shape)
	for i in range(N):
		h = np.asarray(enmap.fft(enmap.rand_map((n,)+shape,wcs,ps,scalar=True),normalize="phys"))
		P += np.real(h[:,None]*np.conj(h[None]))/N
	Pl = np.interp(lm,l,p); iL = np.linalg.inv(np.linalg.cholesky(A)); W = np.einsum("ia,abyx,jb->ijyx",iL,P,iL)/Pl
	# every mode: variance 2/N for the real ones, 1/N for the complex ones. The spectrum is interpolated, so leave room for a small bias
	t.close(W,np.eye(n)[:,:,None,None]+np.zeros(W.shape),"whitened power per mode",rtol=0,atol=9*(2./N)**.5)
	t.close(np.mean(W,(-2,-1)),np.eye(n),"mean whitened power",rtol=0,atol=9*(2./N/lm.size)**.5+0.01)

def gen_curved(d): return {"n":d.choice([0,1,3]),"lmax":d.choice([None,4,7]),"grid":d.choice(["CC","F1"]),"ny":d.int(6,10),"dtype":d.choice(["float64","float32"]),"cut":d.bool(),"extra":d.int(0,1),"s":d.int(0,1000),"hist":d.int(0,2),"spin":d.choice([[0,2],[0]]),"ps1":d.bool(),"seed":d.seed()}
@prop.law(gen_curved, quick=200, rule="every generated case")
def curved_draw(c, t):
	r = rng(c); g = sht.ducc_wcs(c["grid"],c["ny"],2*c["ny"],[False,False],20.,0.)
	if c["cut"]: g = sht.cut(g,1,c["ny"]-2,2,c["ny"])
	shape, wcs = geo.build(g); n = c["n"]; full = shape if n==0 else (n,)+shape; k = max(n,1)
	ps = spec(r,k+c["extra"] if not c["ps1"] else 1,9,"gen")
	if c["ps1"] and k > 1: ps = spec(r,k,9,"gen")
	arg = ps[0,0] if c["ps1"] and k==1 else ps; keep = arg.copy()
	history(r,c["hist"]); m = curvedsky.rand_map(full,wcs,arg,lmax=c["lmax"],dtype=c["dtype"],seed=c["s"],spin=c["spin"])
	history(r,c["hist"]); m2 = curvedsky.rand_map(full,wcs,arg,lmax=c["lmax"],dtype=c["dtype"],seed=c["s"],spin=c["spin"])
	t.eq(m,m2,"same seed"); t.eq(arg,keep,"spectrum modified"); t.true(m.shape==full and m.dtype==np.dtype(c["dtype"]),"shape and dtype")
	alm = np.atleast_2d(curvedsky.rand_alm_healpy(ps[:k,:k],lmax=c["lmax"],seed=c["s"])); L = curvedsky.nalm2lmax(alm.shape[-1]); t.true(L==(8 if c["lmax"] is None else c["lmax"]),"lmax")
	pos = sht.posmap(g); ref = []; i = 0; j = 0
	while i < k:
		s = c["spin"][j%len(c["spin"])]; q = 1 if s==0 else 2; ref.append(sht.synth(alm[i:i+q],pos,L,spin=s)); i += q; j += 1
	ref = np.concatenate(ref).reshape((k,)+shape)
	t.close(np.asarray(m).reshape(ref.shape),ref,"map of the drawn coefficients",rtol=1e-4 if c["dtype"]=="float32" else 1e-8)

def gen_misc(d): return {"n":d.int(0,60),"bsize":d.int(1,40),"dtype":d.choice(["complex128","complex64","float64","float32"]),"s":d.int(0,1000),"pre":geo.gen_pre(d,2,3),"seed":d.seed()}
@prop.law(gen_misc, quick=300, rule="more than one number")
def white(c, t):
	n = c["n"]; t.mark_trivial(n<2); pre = tuple(c["pre"])
	a = np.full(pre+(n,),np.nan,c["dtype"]); np.random.seed(c["s"]); curvedsky.fill_gauss(a,bsize=c["bsize"]); b = np.full(pre+(n,),np.nan,c["dtype"]); np.random.seed(c["s"]); curvedsky.fill_gauss(b)
	t.true(np.all(np.isfinite(a)),"all elements filled"); t.eq(a,b,"independent of the block size")
	np.random.seed(c["s"]); ref = np.random.standard_normal(a.size*(2 if a.dtype.kind=="c" else 1)); rt = a.real.dtype; t.close(np.ascontiguousarray(a).reshape(-1).view(rt),ref,"the standard normal stream",rtol=1e-6)
	shape, wcs = (max(n,1),3), geo.make_wcs("car",[0.,0.],[-1.,1.],[1.,1.]); full = pre+shape
	np.random.seed(c["s"]); g = enmap.rand_gauss(full,wcs,dtype=rt); np.random.seed(c["s"]); t.close(np.asarray(g),np.random.standard_normal(full),"rand_gauss",rtol=1e-6); t.true(g.dtype==rt,"rand_gauss dtype")
	np.random.seed(c["s"]); g = enmap.rand_gauss_harm(full,wcs); np.random.seed(c["s"]); t.close(np.asarray(g),np.random.standard_normal(full)+1j*np.random.standard_normal(full),"rand_gauss_harm",rtol=1e-12)
