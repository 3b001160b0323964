import numpy as np, warnings
from harness.core import Prop, rng
from harness import methods as _methods, geo
from pixell import enmap, utils, powspec
warnings.simplefilter("ignore")
prop = Prop("P12", assumptions=["maps are real and at least 2x2", "pixels closer than 1e-9 of a bin width to a bin edge may fall on either side of it", "linbin is given at most as many bins as points"])

def binned_ok(t, v, a, x, nhit, r, bsize, n):
	"""Compare with the pixel-by-pixel loop. Ambiguous pixels have the value 0 in a"""
	q = r/bsize; k = np.floor(q).astype(int)
	amb = np.abs(q-np.round(q))<1e-9
	lo = np.bincount(k[~amb], minlength=n)[:n]
	ka = np.round(q[amb]).astype(int)
	hi = lo + np.bincount(ka,minlength=n)[:n] + np.bincount(np.maximum(ka-1,0),minlength=n)[:n]
	t.true((nhit >= lo)&(nhit <= hi), "number of pixels per bin is wrong: got %s, expected %s to %s" % (nhit[:8], lo[:8], hi[:8]))
	t.true(np.sum(nhit) <= r.size and np.sum(nhit) >= np.sum(q<n-1e-9), "pixels are not counted exactly once")
	ok = nhit>0
	for I in np.ndindex(*a.shape[:-2]):
		s = np.bincount(k[~amb],weights=a[I][~amb].astype(float),minlength=n)[:n]
		t.close((v[I]*nhit)[ok], s[ok], "sum of the pixels in each bin", rtol=1e-6 if a.dtype==np.float32 else 1e-10, atol=1e-10)
	t.true(np.all(np.isnan(v[...,~ok])), "an empty bin must be NaN")
	# mean radius
	sure = ok&(lo==hi)
	s = np.bincount(k[~amb],weights=r[~amb],minlength=n)[:n]
	t.close(x[sure], (s/np.maximum(lo,1))[sure], "bin position", rtol=1e-9, atol=1e-12)
	t.true((x[ok] >= (np.arange(n)*bsize)[ok]*(1-1e-9))&(x[ok] <= (np.arange(1,n+1)*bsize)[ok]*(1+1e-9)), "bin position outside its bin")

def gen_map(d):
	k = d.choice(["l","l","r"])
	return {"what":k, "geo":geo.gen_any(d,2,14), "pre":geo.gen_pre(d), "bsize":d.choice([None,"own","own"]), "rel":d.float(0.3,4), "brel":d.choice([1.0,1.0,2.0,1.37]), "op":d.choice([None,None,"sqrt","mul"]), "center":[d.float(-1.2,1.2),d.float(-3,3)], "ckind":d.choice(["map","any"]), "nhit":d.bool(), "bins":d.bool(), "method":d.bool(), "dtype":d.choice(["float64","float64","float32","int32"]), "seed":d.seed()}
@prop.law(gen_map, quick=1500, rule="at least two bins")
def map_bins(c, t):
	shape, wcs = geo.build(c["geo"]); pre = tuple(c["pre"])
	a = geo.data(c, pre+shape, c["dtype"])
	op = {None:None,"sqrt":np.sqrt,"mul":lambda x: x*3}[c["op"]]
	if c["what"] == "l":
		raw = np.asarray(enmap.modlmap(shape,wcs)); kw = {"lop":op}
		r = op(raw) if op else raw
		auto = min(abs(r[0,1]),abs(r[1,0])); fun = enmap.lbin
		ly, lx = enmap.laxes(shape,wcs)
		t.close(raw, (np.asarray(ly)[:,None]**2+np.asarray(lx)[None,:]**2)**0.5, "modlmap", rtol=1e-10)
	else:
		pos = geo.ref_posmap(shape,wcs)
		if not np.all(np.isfinite(pos)): t.mark_trivial(); return
		cen = np.array(c["center"])
		if c["ckind"] == "map": cen = pos[:,shape[0]//2,shape[1]//2]
		raw = geo.sky_dist(pos, cen[:,None,None])
		t.close(np.asarray(enmap.modrmap(shape,wcs,ref=cen)), raw, "modrmap", rtol=0, atol=1e-6)
		raw = np.asarray(enmap.modrmap(shape,wcs,ref=cen))
		r = op(raw) if op else raw
		auto = np.min(enmap.extent(shape,wcs)/shape); kw = {"center":cen, "rop":op}; fun = enmap.rbin
	if np.max(r) <= 0: t.mark_trivial(); return
	if c["bsize"] is None: bsize = auto
	else: bsize = auto*c["rel"]; kw["bsize"] = bsize
	bsize = bsize*c["brel"]
	n = int(np.max(r/bsize))
	if n < 1 or np.abs(np.max(r/bsize)-np.round(np.max(r/bsize)))<1e-9: t.mark_trivial(); return
	t.mark_trivial(n==1)
	q = r/bsize
	amb = np.abs(q-np.round(q))<1e-9
	a[...,amb] = 0
	m = enmap.ndmap(a.copy(), wcs)
	if c["method"]: fun = m.lbin if c["what"]=="l" else m.rbin
	args = [] if c["method"] else [m]
	v, x, nhit = fun(*args, brel=c["brel"], return_nhit=True, **kw)
	t.true(v.shape == pre+(n,) and x.shape == (n,), "shape %s %s" % (v.shape,x.shape))
	binned_ok(t, np.asarray(v), a, np.asarray(x), np.asarray(nhit), r, bsize, n)
	t.eq(np.asarray(m), a, "map modified")
	res = fun(*args, brel=c["brel"], return_nhit=c["nhit"], return_bins=c["bins"], **kw)
	t.true(len(res) == 2+c["nhit"], "number of outputs")
	t.eq(np.asarray(res[0]), np.asarray(v), "values depend on the outputs asked for")
	if c["nhit"]: t.eq(res[2], nhit, "nhit")
	if c["bins"]:
		t.eq(res[1][0], x, "return_bins position"); t.close(res[1][1], np.arange(n)*bsize, "return_bins from", rtol=1e-12); t.close(res[1][2], np.arange(1,n+1)*bsize, "return_bins to", rtol=1e-12)
	if c["what"] == "r" and op is None and c["bsize"] is None:
		v2, x2 = enmap.radial_average(m, center=cen, step=c["brel"]); t.eq(np.asarray(v2),np.asarray(v),"radial_average"); t.eq(x2,x,"radial_average r")

def gen_ps(d):
	n = d.int(1,3)
	return {"n":n, "shape":[d.int(1,6),d.int(1,6)], "kind":d.choice(["auto","cross","mat","matcross","pre","rc"]), "dtype":d.choice(["complex128","complex64","float64"]), "seed":d.seed()}
@prop.law(gen_ps, quick=500)
def ps2d(c, t):
	sh = tuple(c["shape"]); wcs = geo.make_wcs("car",[0,0],[-1,1],[1,1])
	n = c["n"]; k = c["kind"]
	a = enmap.ndmap(geo.data(c,(n,)+sh,c["dtype"]),wcs); b = enmap.ndmap(geo.data(c,(n,)+sh,c["dtype"],1),wcs)
	a0, b0 = np.array(a), np.array(b)
	if   k == "auto":  r = enmap.calc_ps2d(a[0]); w = np.abs(a0[0])**2
	elif k == "cross": r = enmap.calc_ps2d(a[0],b[0]); w = (a0[0]*b0[0].conj()).real
	elif k == "pre":   r = enmap.calc_ps2d(a,b); w = (a0*b0.conj()).real
	elif k == "mat":   r = enmap.calc_ps2d(a[:,None],a[None,:]); w = (a0[:,None]*a0[None].conj()).real
	elif k == "rc":    r = enmap.calc_ps2d(a,b[0]); w = (a0*b0[0].conj()).real
	else:              r = enmap.calc_ps2d(a[:,None],b[None,:]); w = (a0[:,None]*b0[None].conj()).real
	t.close(np.asarray(r), w, "calc_ps2d "+k, rtol=1e-5 if c["dtype"]=="complex64" else 1e-12)
	t.true(r.dtype == a0.real.dtype, "dtype")
	t.eq(np.asarray(a),a0,"input"); t.eq(np.asarray(b),b0,"input")

def gen_bins(d):
	n = d.int(1,300)
	return {"n":n, "nbin":d.choice([None,"own"]), "nb":d.int(1,40), "bsize":d.choice([None,None,d.int(1,20)]), "nmin":d.choice([8,8,1,3,20]), "nmax":d.choice([0,0,5,30]), "pre":geo.gen_pre(d), "seed":d.seed(), "op":d.choice(["mean","sum","max"])}
@prop.law(gen_bins, quick=1500, rule="more than one bin")
def bins(c, t):
	n = c["n"]; nb = None if c["nbin"] is None else min(c["nb"],n)
	for name in ["lin","exp"]:
		if name == "lin":
			kw = {} if nb is None else {"nbin":nb}
			if c["bsize"] is not None: kw = {"bsize":c["bsize"]}
			b = utils.linbin(n, **kw)
		else:
			b = utils.expbin(n, nbin=nb, nmin=c["nmin"], nmax=c["nmax"])
		b = np.asarray(b)
		t.true(b.ndim == 2 and b.shape[1] == 2 and b.dtype.kind == "i" and len(b) > 0, name+"bin format")
		t.true(b[0,0] == 0 and np.all(b[1:,0] == b[:-1,1]) and np.all(b[:,1]>b[:,0]), "%sbin must partition the points: %s" % (name, b.tolist()))
		sz = b[:,1]-b[:,0]
		if name == "lin" and c["bsize"] is not None:
			t.true(np.all(sz==c["bsize"]) and b[-1,0] < n <= b[-1,1], "linbin(bsize): %s" % b.tolist())
		else: t.true(b[-1,1] == n, "%sbin must end at n: %s" % (name, b[-3:].tolist()))
		if name == "lin" and c["bsize"] is None:
			t.true(np.max(sz)-np.min(sz) <= 1, "linbin sizes %s" % sz); t.true(len(b) == (nb or int(round(n**0.5)) or 1), "linbin count")
		if name == "exp":
			if not c["nmax"]:
				t.true(len(b) == 1 or np.min(sz) >= c["nmin"], "expbin nmin: %s" % sz)
				t.true(len(b) <= (nb or max(1,int(round(n**0.5)))), "expbin count")
			else: t.true(np.max(sz) <= c["nmax"], "expbin nmax: %s" % sz)
		t.mark_trivial(len(b)==1)
		e = utils.bins2edges(b); t.eq(e, np.concatenate([b[:,0],b[-1:,1]]), "bins2edges"); t.eq(utils.edges2bins(e), b, "edges2bins(bins2edges)")
		op = {"mean":np.mean,"sum":np.sum,"max":np.max}[c["op"]]
		dat = geo.data(c, tuple(c["pre"])+(n,))
		d0 = dat.copy()
		v = utils.bin_data(b, dat, op=op)
		want = np.stack([op(dat[...,i:j],-1) for i,j in b],-1)
		t.close(v, want, "bin_data", rtol=1e-11, atol=1e-12); t.eq(dat,d0,"bin_data input")
		x = utils.bin_expand(b, v)
		t.eq(x, np.repeat(v, sz, -1), "bin_expand")
		if c["op"] == "mean" and b[-1,1] == n: t.close(np.sum(x,-1), np.sum(dat,-1), "bin_expand(bin_data) conserves the sum", rtol=1e-9, atol=1e-9)

def gen_edges(d): return {"n":d.int(3,20), "seed":d.seed(), "ref":d.int(0,30)}
@prop.law(gen_edges, quick=200)
def edges(c, t):
	r = rng(c); n = c["n"]; ref = c["ref"]%(n-1)
	w = 0.5+r.random(n); w[ref+1 if ref+1<n else ref] = w[ref]
	e = np.concatenate([[0],np.cumsum(w)])+r.random()
	cen = 0.5*(e[1:]+e[:-1])
	t.close(utils.infer_bin_edges(cen, ref=ref), infer_ref(cen,ref), "infer_bin_edges", rtol=1e-8, atol=1e-8)
	v = np.asarray(utils.infer_bin_edges(cen,ref=ref)); t.close(0.5*(v[1:]+v[:-1]), cen, "bins of the inferred edges", rtol=0, atol=1e-8)
def infer_ref(cen, ref):
	"""Two consecutive bins starting at ref have equal width, so that edge is half way between their centres"""
	n = len(cen); e = np.zeros(n+1)
	# edges ref, ref+1, ref+2 equidistant -> e[ref+1]=(cen[ref]+cen[ref+1])/2
	e[ref+1] = (cen[ref]+cen[ref+1])/2
	for i in range(ref+1,n): e[i+1] = 2*cen[i]-e[i]
	for i in range(ref,-1,-1): e[i] = 2*cen[i]-e[i+1]
	return e

def gen_bc(d): return {"pre":geo.gen_pre(d,2), "n":d.int(1,20), "m":d.int(1,8), "minlen":d.int(0,12), "w":d.choice([None,"full","bcast"]), "seed":d.seed(), "nd":d.int(1,3)}
@prop.law(gen_bc, quick=300)
def counts(c, t):
	r = rng(c); pre = tuple(c["pre"]); pix = r.integers(0,c["m"],pre+(c["n"],))
	w = None if c["w"] is None else r.standard_normal(pre+(c["n"],) if c["w"]=="full" else (c["n"],))
	v = utils.bincount(pix, weights=w, minlength=c["minlen"])
	n = max(np.max(pix)+1,c["minlen"]); want = np.zeros(pre+(n,))
	wb = np.broadcast_to(1. if w is None else w, pix.shape)
	for I in np.ndindex(*pix.shape): want[I[:-1]+(pix[I],)] += wb[I]
	t.close(v, want, "bincount", rtol=1e-12, atol=1e-12)
	shape = tuple(int(x) for x in r.integers(1,5,c["nd"])); p = np.array([r.integers(-2,s+3,c["n"]) for s in shape]); praw = p; p = np.array([np.clip(x,0,s-1) for x,s in zip(p,shape)]) # samples outside count at the edge
	h = np.zeros(shape); ww = r.standard_normal(c["n"])
	for k in range(c["n"]): h[tuple(p[:,k])] += 1
	t.eq(np.asarray(utils.bin_multi(praw,shape)).astype(float), h, "bin_multi")
	h[:] = 0
	for k in range(c["n"]): h[tuple(p[:,k])] += ww[k]
	t.close(utils.bin_multi(praw,shape,weights=ww), h, "bin_multi weights", rtol=1e-12, atol=1e-12)

def smooth_ref(ps, K, W):
	"""Weighted even circular convolution over l, period 2(nl-1)"""
	nl = len(ps); N = max(1,2*(nl-1)); out = np.zeros(nl)
	ext = [i if i < nl else N-i for i in range(N)]
	Ke, We, Pe = K[ext], W[ext], ps[ext]
	j = np.arange(N)
	for i in range(nl):
		k = Ke[(i-j)%N]*We
		out[i] = np.sum(k*Pe)/np.sum(k)
	return out
def gen_spec(d): return {"nl":d.int(2,30), "pre":geo.gen_pre(d), "kernel":d.choice(["gauss","gauss","step","arr"]), "weight":d.choice(["mode","uniform","arr"]), "width":d.float(1,8,2), "nk":d.int(1,40), "seed":d.seed()}
@prop.law(gen_spec, quick=500, rule="more than two multipoles")
def smooth(c, t):
	r = rng(c); nl = c["nl"]; l = np.arange(nl)
	t.mark_trivial(nl==2)
	ps = r.random(tuple(c["pre"])+(nl,))+0.1; ps0 = ps.copy()
	kern = c["kernel"]; K = np.zeros(nl)
	if kern == "gauss": K[:] = np.exp(-0.5*(l/c["width"])**2)
	elif kern == "step": K[:int(c["width"])] = 1
	else:
		kern = 0.1+r.random(c["nk"]); K[:min(nl,c["nk"])] = kern[:nl]
	wt = c["weight"]
	W = l**2. if wt == "mode" else np.ones(nl)
	if wt == "arr": W = 0.5+r.random(nl); wt = W.copy()
	v = enmap.smooth_spectrum(ps, kernel=kern, weight=wt, width=c["width"])
	# Skip the values where the weights vanish
	den = smooth_den(K,W)
	for I in np.ndindex(*c["pre"]):
		ok = den>1e-9*np.max(den)
		with np.errstate(all="ignore"): ref = smooth_ref(ps[I],K,W)
		t.close(np.asarray(v)[I][ok], ref[ok], "smooth_spectrum", rtol=1e-6)
	t.eq(ps, ps0, "input")
	# A constant spectrum is unchanged
	t.close(np.asarray(enmap.smooth_spectrum(ps*0+3,kernel=kern,weight=wt,width=c["width"]))[...,den>1e-9*np.max(den)], (ps*0+3)[...,den>1e-9*np.max(den)], "constant spectrum", rtol=1e-6)
def smooth_den(K,W):
	nl = len(K); N = max(1,2*(nl-1)); ext = [i if i < nl else N-i for i in range(N)]; j = np.arange(N)
	return np.array([np.sum(K[ext][(i-j)%N]*W[ext]) for i in range(nl)])

def gen_flat(d): return {"geo":geo.gen_cyl(d,2,10,maxdec=70), "n":d.int(0,3), "nl":d.int(10,400), "exp":d.choice([1.0,1.0,0.5,-1.0,2.0]), "smooth":d.choice([0,0,"auto",3.0]), "over":d.choice([1,1,2]), "seed":d.seed(), "nan":d.bool(), "stokes":d.int(0,4)}
@prop.law(gen_flat, quick=500, rule="the spectrum reaches above the lowest multipole of the map")
def flat(c, t):
	shape, wcs = geo.build(c["geo"]); r = rng(c); n, nl = c["n"], c["nl"]
	if n == 0: cov = 0.1+r.random(nl)
	else:
		A = r.standard_normal((nl,n,n)); cov = np.moveaxis(np.einsum("lij,lkj->lik",A,A)+0.1*np.eye(n),0,-1)
	if c["nan"] and c["smooth"] == 0 and c["exp"] == 1.0: cov[...,0] = np.nan
	cov0 = cov.copy()
	over = c["over"] if min(shape) >= 3 else 1
	F = enmap.spec2flat(shape, wcs, cov, exp=c["exp"], smooth=c["smooth"], oversample=over)
	t.eq(cov, cov0, "spec2flat modified the spectrum")
	ls = np.asarray(enmap.modlmap(shape,wcs)) if over == 1 else np.sum(np.asarray(enmap.lmap(shape,wcs,oversample=over))**2,0)**0.5
	sm = c["smooth"]
	if sm == "auto": sm = 0.5*(ls[1,0]+ls[0,1])/3.41
	C = cov if n else cov[None,None]
	if sm > 0: C = np.asarray(enmap.smooth_spectrum(C,kernel="gauss",weight="mode",width=sm))
	C = C*(shape[0]*shape[1]/enmap.area(shape,wcs))
	if c["exp"] != 1:
		out = np.zeros(C.shape)
		for l in range(nl):
			if not np.all(np.isfinite(C[:,:,l])): t.mark_trivial(); return
			E, V = np.linalg.eigh(C[:,:,l]); out[:,:,l] = (V*E**c["exp"])@V.T
		C = out
	C = np.where(np.isfinite(C),C,0)
	res = np.zeros(C.shape[:2]+ls.shape)
	for i in range(C.shape[0]):
		for j in range(C.shape[1]): res[i,j] = np.where(ls>nl-1,0,np.interp(ls,np.arange(nl),C[i,j]))
	edge = np.abs(ls-(nl-1))<1e-6
	if over > 1:
		res = res.reshape(res.shape[:2]+(shape[0],over,shape[1],over)).mean((3,5)); edge = edge.reshape(shape[0],over,shape[1],over).any((1,3))
	if n == 0: res = res[0,0]
	t.mark_trivial(np.sum(ls<nl)<2)
	t.true(F.shape == res.shape, "shape %s %s" % (F.shape,res.shape))
	t.close(np.asarray(F)[...,~edge], res[...,~edge], "spec2flat", rtol=1e-6)
	# massage_spectrum
	s = c["stokes"]; full = ((s,) if s else ())+shape
	M = np.asarray(enmap.massage_spectrum(cov0,full))
	if s == 0: t.eq(M, cov0 if n==0 else cov0[0,0], "massage_spectrum scalar")
	else:
		w = np.zeros((s,s,nl)); C0 = cov0 if n else cov0[None,None]
		k = min(s,len(C0)); w[:k,:k] = C0[:k,:k]; t.eq(M, w, "massage_spectrum")
	# multi_pow on maps
	if n and not np.any(np.isnan(cov0)):
		P = enmap.multi_pow(F*0+np.eye(n)[:,:,None,None]*2+0.1, 0.5); t.close(np.einsum("ij...,jk...->ik...",P,P), np.asarray(F*0+np.eye(n)[:,:,None,None]*2+0.1), "multi_pow(0.5) squared", rtol=1e-9)
		t.true(isinstance(P,enmap.ndmap), "multi_pow must return a map")

def gen_corr(d): return {"n":[d.int(4,14),d.int(4,14)], "res":d.float(0.1,1,2), "nl":d.int(5,120), "seed":d.seed(), "ncomp":d.int(0,2)}
@prop.law(gen_corr, quick=80)
def flat_corr(c, t):
	ny, nx = c["n"]; wcs = geo.make_wcs("car",[0,0],[-c["res"],c["res"]],[nx//2+1,ny//2+1])
	r = rng(c); cl = 0.1+r.random(c["nl"])
	if c["ncomp"]:
		cl = np.array([[cl,0.3*cl**2],[0.3*cl**2,2*cl]])[:c["ncomp"],:c["ncomp"]]
	cl0 = cl.copy()
	F = np.asarray(enmap.spec2flat_corr((ny,nx),wcs,cl)); t.eq(cl,cl0,"spec2flat_corr modified its input")
	C = cl if c["ncomp"] else cl[None,None]
	F = F.reshape(C.shape[:2]+(ny,nx))
	# The value at zero lag is the total variance, exactly
	l = np.arange(c["nl"])
	cov = np.fft.ifft2(F).real
	# fft is unitary in pixell, so a correlation function c gives ps = N*fft(c)/sqrt(N)*...
	want = np.sum((2*l+1)/(4*np.pi)*C,-1)
	t.close(cov[...,0,0], want, "zero lag", rtol=1e-8)
	# nearest neighbours in all four directions: the correlation function at one pixel, by symmetry
	def P(x): return np.array([[np.polynomial.legendre.legval(np.cos(x),(2*l+1)/(4*np.pi)*C[i,j]) for j in range(len(C))] for i in range(len(C))])
	ext = enmap.extent((ny,nx),wcs); rmax = np.sum(ext**2)**0.5; nr = rmax/np.max(ext/np.array([ny,nx])); rr = np.arange(nr)*rmax/nr
	def interp(x):
		i = int(x*nr/rmax); f = x*nr/rmax-i; return P(rr[i])*(1-f)+P(rr[i+1])*f
	d1 = c["res"]*geo.DEG
	t.close(cov[...,1,0], interp(d1), "one pixel lag in y", rtol=1e-6, scale=np.max(np.abs(want))); t.close(cov[...,0,1], interp(d1), "one pixel lag in x", rtol=1e-6, scale=np.max(np.abs(want)))

_methods.add_law(prop)
