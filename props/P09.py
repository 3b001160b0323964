import numpy as np
from harness.core import Prop, rng
from harness import geo
from pixell import fft as enfft, utils
prop = Prop("P09", assumptions=["engines available here: numpy and ducc (pyfftw is not installed); cosine and sine transforms with ducc", "transformed axes are given in increasing order for the non-uniform transforms"])
ENGINES = ["numpy","ducc"]
def mat(n, sign): 
	k = np.arange(n); return np.exp(sign*2j*np.pi*((k[:,None]*k[None,:])%n)/n)
def apply(a, M, ax): return np.moveaxis(np.tensordot(M, np.moveaxis(a,ax,0), 1),0,ax)
def dft(a, axes, sign):
	a = np.asarray(a, complex)
	for ax in axes: a = apply(a, mat(a.shape[ax],sign), ax)
	return a
RT = {"float32":1e-4,"complex64":1e-4}
def tolof(dt): return RT.get(dt,1e-11)

def gen_axes(d, nd):
	axes = d.subset(range(nd)) or [nd-1]
	if d.int(0,3) == 0: axes = axes[::-1]
	return [a-nd*d.int(0,1) for a in axes]
def gen_fft(d):
	nd = d.int(1,3)
	return {"shape":[d.int(1,9) for _ in range(nd)], "axes":gen_axes(d,nd), "dtype":d.choice(["float64","float32","complex128","complex64","int32"]), "engine":d.choice(ENGINES+["auto"]), "nthread":d.choice([0,1,2,5]), "norm":d.bool(), "out":d.bool(), "seed":d.seed(), "layout":d.choice(["C","F","step"]), "single":d.bool()}
def mk(c, shape, dtype, extra=0):
	a = geo.data(c, shape, dtype, extra)
	if c["layout"] == "F": a = np.asfortranarray(a)
	elif c["layout"] == "step":
		b = np.zeros(a.shape[:-1]+(2*a.shape[-1],),a.dtype); b[...,::2] = a; a = b[...,::2]
	return a
def real(dt): return {"complex128":"float64","complex64":"float32","int32":"float64"}.get(dt,dt)
def cplx(dt): return {"float64":"complex128","float32":"complex64","int32":"complex128"}.get(dt,dt)

@prop.law(gen_fft, quick=2500, rule="every array")
def transforms(c, t):
	shape, axes, dt = tuple(c["shape"]), c["axes"], c["dtype"]
	kw = {"axes":axes, "engine":c["engine"], "nthread":c["nthread"]}
	if len(axes) == 1 and c["single"]: kw["axes"] = axes[0]
	if len(axes) == 1 and axes[0] in [-1,len(shape)-1] and c["single"]: del kw["axes"]
	a  = mk(c, shape, dt); a0 = a.copy()
	n  = np.prod([shape[ax] for ax in axes])
	tol= dict(rtol=tolof(dt), atol=1e-300)
	want = dft(a, axes, -1)
	# complex
	if c["out"]:
		o = np.zeros(shape, cplx(dt)); r = enfft.fft(a.astype(cplx(dt)), o, **kw)
		t.true(r is o, "fft did not return the output array")
	else: r = enfft.fft(a, **kw)
	t.eq(a, a0, "fft modified its input")
	t.true(r.dtype == np.dtype(cplx(dt)), "fft dtype")
	t.close(r, want, "fft", **tol)
	b  = mk(c, shape, cplx(dt), 1); b0 = b.copy()
	ib = dft(b, axes, 1)/(n if c["norm"] else 1)
	if c["out"]: r2 = enfft.ifft(b, np.zeros(shape, cplx(dt)), normalize=c["norm"], **kw)
	else:        r2 = enfft.ifft(b, normalize=c["norm"], **kw)
	t.eq(b, b0, "ifft modified its input")
	t.close(r2, ib, "ifft", **tol)
	t.close(enfft.ifft(r, normalize=True, **kw), np.asarray(a,complex), "ifft(fft)", rtol=10*tolof(dt), atol=1e-300)
	# real
	if np.dtype(dt).kind != "c":
		ax  = axes[-1]
		sel = tuple([slice(None)]*(ax%len(shape))+[slice(0,shape[ax]//2+1)])
		if c["out"]: rr = enfft.rfft(np.asarray(a,real(dt)), np.zeros(want[sel].shape,cplx(dt)), **kw)
		else:        rr = enfft.rfft(a, **kw)
		t.eq(a, a0, "rfft modified its input")
		t.close(rr, want[sel], "rfft", **tol); t.true(rr.dtype == np.dtype(cplx(dt)), "rfft dtype")
		rr0 = rr.copy()
		back = enfft.irfft(rr, n=shape[ax], normalize=c["norm"], **kw)
		t.eq(rr, rr0, "irfft modified its input")
		t.true(back.dtype == np.dtype(real(dt)), "irfft dtype")
		t.close(back, np.asarray(a,float)*(1 if c["norm"] else n), "irfft(rfft)", rtol=10*tolof(dt), atol=1e-300)
		if shape[ax]%2 == 0: t.close(enfft.irfft(rr, normalize=True, **kw), np.asarray(a,float), "irfft without n", rtol=10*tolof(dt), atol=1e-300)
		o = np.zeros(shape, real(dt)); enfft.irfft(rr, o, normalize=True, **kw)
		t.close(o, np.asarray(a,float), "irfft with output array", rtol=10*tolof(dt), atol=1e-300)

def trig(kind, n):
	"""FFTW's definitions"""
	k, j = np.arange(n)[:,None], np.arange(n)[None,:]
	if kind == "DCT-I":
		C = 2*np.cos(np.pi*k*j/(n-1)); C[:,[0,-1]] /= 2
	elif kind == "DCT-II": C = 2*np.cos(np.pi*k*(j+0.5)/n)
	elif kind == "DCT-III":
		C = 2*np.cos(np.pi*(k+0.5)*j/n); C[:,0] /= 2
	elif kind == "DCT-IV": C = 2*np.cos(np.pi*(k+0.5)*(j+0.5)/n)
	elif kind == "DST-I":  C = 2*np.sin(np.pi*(k+1)*(j+1)/(n+1))
	elif kind == "DST-II": C = 2*np.sin(np.pi*(k+1)*(j+0.5)/n)
	elif kind == "DST-III":
		C = 2*np.sin(np.pi*(k+0.5)*(j+1)/n); C[:,-1] /= 2
	elif kind == "DST-IV": C = 2*np.sin(np.pi*(k+0.5)*(j+0.5)/n)
	return C
INV = {"DCT-II":"DCT-III","DCT-III":"DCT-II","DST-II":"DST-III","DST-III":"DST-II"}
FFTWN = {"DCT-I":"FFTW_REDFT00","DCT-II":"FFTW_REDFT10","DCT-III":"FFTW_REDFT01","DCT-IV":"FFTW_REDFT11","DST-I":"FFTW_RODFT00","DST-II":"FFTW_RODFT10","DST-III":"FFTW_RODFT01","DST-IV":"FFTW_RODFT11"}
def gen_dct(d):
	nd = d.int(1,3)
	return {"shape":[d.int(2,8) for _ in range(nd)], "axes":gen_axes(d,nd), "dtype":d.choice(["float64","float32","int32"]), "kind":d.choice(sorted(FFTWN)), "fftw":d.bool(), "nthread":d.choice([0,2]), "norm":d.bool(), "out":d.bool(), "seed":d.seed(), "layout":d.choice(["C","F","step"])}
@prop.law(gen_dct, quick=1500, rule="every array")
def cosine_sine(c, t):
	shape, axes, dt = tuple(c["shape"]), c["axes"], c["dtype"]
	a = mk(c, shape, dt); a0 = a.copy()
	kind = c["kind"]
	kw = {"axes":axes, "nthread":c["nthread"], "type":FFTWN[kind] if c["fftw"] else kind}
	if kind == "DCT-I" and not c["fftw"]: del kw["type"]
	want, iwant, n = np.asarray(a,float), np.asarray(a,float), 1
	for ax in axes:
		N = shape[ax]
		want  = apply(want, trig(kind,N), ax)
		iwant = apply(iwant, trig(INV.get(kind,kind),N), ax)
		n *= 2*(N+{"DCT-I":-1,"DST-I":1}.get(kind,0))
	tol = dict(rtol=tolof(dt), atol=1e-300)
	kw2 = dict(kw)
	f = enfft.dct(a, **kw) if not c["out"] else enfft.dct(a, np.zeros(shape,real(dt)), **kw)
	t.eq(a, a0, "dct modified its input"); t.true(f.dtype == np.dtype(real(dt)), "dct dtype")
	t.close(f, want, "dct %s" % kind, **tol)
	g = enfft.idct(a, normalize=c["norm"], **kw) if not c["out"] else enfft.idct(a, np.zeros(shape,real(dt)), normalize=c["norm"], **kw)
	t.eq(a, a0, "idct modified its input")
	t.close(g, iwant/(n if c["norm"] else 1), "idct %s" % kind, **tol)
	t.close(enfft.idct(f, normalize=True, **kw), np.asarray(a,float), "idct(dct)", rtol=10*tolof(dt))

def gen_cheb(d):
	return {"shape":[d.int(1,4) for _ in range(d.int(0,2))]+[d.int(2,12)], "dtype":d.choice(["float64","float32"]), "seed":d.seed(), "engine":d.choice(ENGINES), "norm":d.bool()}
@prop.law(gen_cheb, quick=400, rule="every array")
def chebyshev(c, t):
	shape = tuple(c["shape"]); n = shape[-1]
	a = geo.data(c, shape, c["dtype"]); a0 = a.copy()
	tol = dict(rtol=tolof(c["dtype"]))
	C = trig("DCT-I", n)
	t.close(enfft.redft00(a, normalize=c["norm"], engine=c["engine"]), np.asarray(a,float)@C.T/(2*(n-1) if c["norm"] else 1), "redft00", **tol)
	# Chebyshev coefficients: f(cos(pi j/(n-1))) = sum_k c_k T_k
	x = np.cos(np.pi*np.arange(n)/(n-1))
	T = np.cos(np.arange(n)[:,None]*np.arccos(np.clip(x,-1,1))[None,:])
	vals = np.asarray(a,float)@T
	got = enfft.chebt(vals.astype(c["dtype"]), engine=c["engine"])
	t.close(got, np.asarray(a,float), "chebt", rtol=20*tolof(c["dtype"]))
	t.close(enfft.ichebt(a, engine=c["engine"]), vals, "ichebt", rtol=20*tolof(c["dtype"]))
	t.eq(a, a0, "input modified")

def gen_misc(d):
	nd = d.int(1,3)
	n = d.int(1,3)
	shape = [d.int(1,9) for _ in range(nd)]
	axes = gen_axes(d,nd)
	return {"n":d.int(1,3000), "direction":d.choice(["below","above"]), "factors":d.choice([None,[2],[2,3],[3,5],[2,3,5,7]]), "N":d.int(1,20), "d":d.float(0.1,3,3), "seed":d.seed(),
		"shape":shape, "axes":axes, "off":[d.float(-10,10,2) for _ in axes], "cplx":d.bool(), "deriv":d.int(0,len(axes)-1) if d.bool() else None, "engine":d.choice(ENGINES), "def":d.bool()}
@prop.law(gen_misc, quick=800, rule="every case")
def misc(c, t):
	# fft_len
	n, fac = c["n"], c["factors"] or [2,3,5,7,11,13]
	def smooth(k):
		for f in fac:
			while k%f == 0: k //= f
		return k == 1
	got = enfft.fft_len(n, c["direction"], c["factors"])
	# Only when at least one factor fits
	if (c["direction"] == "below" and n < min(fac)) or n < 2: got = k = 1
	else: k = n
	while not smooth(k): k += -1 if c["direction"] == "below" else 1
	t.eq(got, k, "fft_len(%d)" % n)
	# frequencies
	N, D = c["N"], c["d"]
	i = np.arange(N); ks = np.where(i < N/2., i, i-N)
	t.close(enfft.fftfreq(N,D), ks/(N*D), "fftfreq", rtol=1e-12, atol=1e-300)
	t.close(enfft.rfftfreq(N,D), np.arange(N//2+1)/(N*D), "rfftfreq", rtol=1e-12, atol=1e-300)
	t.close(enfft.ind2freq(N,i,D), ks/(N*D), "ind2freq", rtol=1e-12, atol=1e-300)
	t.close(enfft.freq2ind(N,ks/(N*D),D)%N, i*1.0, "freq2ind", rtol=1e-9, atol=1e-9) if N > 1 else None
	t.close(enfft.int2rfreq(N,i,D), i/(N*D), "int2rfreq", rtol=1e-12, atol=1e-300)
	t.close(enfft.rfreq2ind(N,i/(N*D),D), i*1.0, "rfreq2ind", rtol=1e-12, atol=1e-300)
	# shift
	shape, axes = tuple(c["shape"]), c["axes"]
	a = geo.data(c, shape, "complex128" if c["cplx"] else "float64"); a0 = a.copy()
	F = dft(a, axes, -1)
	for j, ax in enumerate(axes):
		m = shape[ax]; q = np.fft.fftfreq(m)
		ph = np.exp(-2j*np.pi*q*c["off"][j])
		if c["deriv"] == j: ph = ph*(-2j*np.pi*q)
		F = F*ph.reshape((-1,)+(1,)*(len(shape)-ax%len(shape)-1))
	want = dft(F, axes, 1)/np.prod([shape[ax] for ax in axes])
	if not c["cplx"]: want = want.real
	sc = np.max(np.abs(a))*10
	r = enfft.shift(a, c["off"], axes=axes, deriv=c["deriv"], engine=c["engine"])
	t.close(r, want, "shift", rtol=0, atol=1e-11*sc); t.eq(a, a0, "shift modified its input")
	t.close(enfft.shift(dft(a,axes,-1), c["off"], axes=axes, deriv=c["deriv"], nofft=True), F, "shift nofft", rtol=0, atol=1e-10*sc*a.size)
	if [x%len(shape) for x in axes] == list(range(len(shape)-len(axes),len(shape))):
		t.close(enfft.shift(a, c["off"], deriv=c["deriv"]), want, "shift, default axes", rtol=0, atol=1e-11*sc)
		if len(axes) == 1: t.close(enfft.shift(a, c["off"][0], deriv=c["deriv"]), want, "shift, scalar", rtol=0, atol=1e-11*sc)

def gen_nu(d):
	nd = d.int(1,3)
	dims = [d.int(1,7) for _ in range(nd)]
	pre = geo.gen_pre(d,2)
	return {"pre":pre, "dims":dims, "post":[d.int(1,5) for _ in range(d.int(1,2))], "dtype":d.choice(["float64","float64","float32"]), "seed":d.seed(), "forward":d.bool(), "norm":d.bool(), "period":d.choice([None,None,2]), "cplx":d.bool(), "out":d.bool(), "axpos":d.int(0,3), "nthread":d.choice([None,1,2]), "spread":d.choice([1,1,5])}

def nu_setup(c):
	r = rng(c)
	pre, dims, post = tuple(c["pre"]), tuple(c["dims"]), tuple(c["post"])
	nd = len(dims)
	inds = r.uniform(-0.2,1.2,(nd,)+post)*np.array(dims).reshape((-1,)+(1,)*len(post))*c["spread"]
	per  = tuple(np.array(dims)*c["period"]+1) if c["period"] else dims
	return r, pre, dims, post, inds, per

def direct(dims, inds, per, sign):
	"""matrix [npoint,ncoeff]"""
	nd = len(dims)
	flat = inds.reshape(nd,-1)
	E = np.ones((flat.shape[1],1),complex)
	for i in range(nd):
		n = dims[i]; k = np.arange(n); k = np.where(k < (n+1)//2, k, k-n)
		e = np.exp(sign*2j*np.pi*flat[i][:,None]*k[None,:]/per[i])
		E = (E[:,:,None]*e[:,None,:]).reshape(len(E),-1)
	return E

@prop.law(gen_nu, quick=900, rule="every set of points")
def nonuniform(c, t):
	r, pre, dims, post, inds, per = nu_setup(c)
	nd = len(dims); f32 = c["dtype"] == "float32"
	ct, rt = ("complex64","float32") if f32 else ("complex128","float64")
	inds = inds.astype(rt)
	sign = -1 if c["forward"] else 1
	E  = direct(dims, inds.astype(float), per, sign)
	fa = (r.standard_normal(pre+dims)+1j*r.standard_normal(pre+dims)).astype(ct)
	n  = np.prod(dims)
	kw = {"forward":c["forward"], "normalize":c["norm"], "nthread":c["nthread"], "periodicity":None if c["period"] is None else per}
	eps = 2e-3 if f32 else 1e-9
	want = np.einsum("pk,...k->...p", E, fa.reshape(pre+(-1,)).astype(complex)).reshape(pre+post)/(n if c["norm"] else 1)
	sc   = np.sqrt(n)*3*(1/n if c["norm"] else 1)
	cx   = c["cplx"]
	want1 = want if cx else want.real
	# put the transformed axes elsewhere
	def place(a):
		if not pre: return a, None
		k = c["axpos"]%(len(pre)+1)
		return np.moveaxis(a, range(len(pre),len(pre)+nd), range(k,k+nd)), tuple(range(k,k+nd))
	fa2, axes = place(fa)
	f0 = fa2.copy()
	out = np.zeros(pre+post, ct if cx else rt) if c["out"] else None
	o = enfft.u2nu(fa2, inds, out=out, axes=axes, complex=cx, **kw)
	t.eq(fa2, f0, "u2nu modified its input")
	t.true(np.iscomplexobj(o) == cx, "u2nu dtype")
	t.close(o, want1, "u2nu is not the Fourier sum", rtol=0, atol=eps*sc)
	if not c["forward"]: t.close(enfft.inufft(fa, inds, complex=cx, normalize=c["norm"], periodicity=kw["periodicity"]), want1, "inufft", rtol=0, atol=eps*sc)
	# plan
	plan = enfft.u2nu_plan(fa2, axes=axes if axes else tuple(range(-nd,0)), complex=cx, **kw)
	t.close(plan.eval(inds), want1, "u2nu_plan", rtol=0, atol=eps*sc)
	if not c["forward"]:
		half = plan.eval(inds[...,:1]); t.close(half, want1[...,:1], "u2nu_plan second use", rtol=0, atol=eps*sc)
	# adjoint
	y  = (r.standard_normal(pre+post)+1j*r.standard_normal(pre+post)).astype(ct)
	y0 = y.copy()
	A  = np.einsum("pk,...p->...k", E, y.reshape(pre+(-1,)).astype(complex)).reshape(pre+dims)/(n if c["norm"] else 1)
	out = np.zeros(pre+dims, ct) if c["out"] else None
	u  = enfft.nu2u(y, inds, out=out, oshape=pre+dims, **kw)
	t.eq(y, y0, "nu2u modified its input")
	sc2 = np.sqrt(np.prod(post))*3*(1/n if c["norm"] else 1)
	t.close(u, A, "nu2u is not the adjoint sum", rtol=0, atol=eps*sc2)
	ur = enfft.nu2u(y.real.copy(), inds, oshape=pre+dims, **kw)
	Ar = np.einsum("pk,...p->...k", E, y.real.reshape(pre+(-1,)).astype(complex)).reshape(pre+dims)/(n if c["norm"] else 1)
	t.close(ur, Ar, "nu2u of real samples", rtol=0, atol=eps*sc2)
	kw2 = dict(kw); del kw2["forward"]
	ad = enfft.nufft_adjoint(y, inds, oshape=pre+dims, flip=c["forward"], **kw2)
	t.close(np.sum(want*np.conj(y.astype(complex))), np.sum(fa.astype(complex)*np.conj(ad)), "nufft_adjoint", rtol=0, atol=eps*sc*np.sqrt(y.size)*10)
	# interpolation
	a  = r.standard_normal(pre+dims).astype(rt)
	F  = dft(a, range(-nd,0), -1)
	E1 = direct(dims, inds.astype(float), dims, 1)
	ip = np.einsum("pk,...k->...p", E1, F.reshape(pre+(-1,))).reshape(pre+post).real/n
	t.close(enfft.interpol_nufft(a, inds), ip, "interpol_nufft", rtol=0, atol=eps*5)
	a2, ax2 = place(a)
	t.close(enfft.interpol_nufft(a2, inds, axes=ax2, normalize=False), ip*n, "interpol_nufft with axes", rtol=0, atol=eps*5*n)
	grid = np.array(np.meshgrid(*[np.arange(k) for k in dims],indexing="ij"))
	t.close(enfft.interpol_nufft(a, grid.astype(rt)), a.astype(float), "interpol_nufft at samples", rtol=0, atol=eps*5)

def gen_inv(d):
	nd = d.int(1,2)
	return {"pre":geo.gen_pre(d,2), "dims":[d.int(1,5) for _ in range(nd)], "seed":d.seed(), "flip":d.bool(), "norm":d.bool(), "f32":False, "real":d.bool()}
@prop.law(gen_inv, quick=250, rule="every set of points")
def nonuniform_inverse(c, t):
	"""The least-squares inverses, on point sets near a regular grid so that the system is well conditioned"""
	r = rng(c); pre, dims = tuple(c["pre"]), tuple(c["dims"]); nd = len(dims)
	fine = tuple(2*k+1 for k in dims)
	grid = np.array(np.meshgrid(*[np.arange(k)*dims[i]/k for i,k in enumerate(fine)],indexing="ij"))
	inds = grid+r.uniform(-0.1,0.1,grid.shape)
	fa = r.standard_normal(pre+dims)+1j*r.standard_normal(pre+dims)
	E  = direct(dims, inds, dims, -1 if c["flip"] else 1)
	n  = np.prod(dims)
	a  = np.einsum("pk,...k->...p", E, fa.reshape(pre+(-1,))).reshape(pre+fine)/(n if c["norm"] else 1)
	back = enfft.iu2nu(a, inds, oshape=pre+dims, forward=c["flip"], normalize=c["norm"])
	t.close(back, fa, "iu2nu does not invert u2nu", rtol=0, atol=1e-4)
	back = enfft.nufft(a, inds, oshape=pre+dims, flip=c["flip"], normalize=c["norm"])
	t.close(back, fa, "nufft does not invert inufft", rtol=0, atol=1e-4)
	# Real samples
	b2 = enfft.iu2nu(a.real.copy(), inds, oshape=pre+dims, forward=c["flip"], normalize=c["norm"])
	b3 = enfft.iu2nu(a.real+0j, inds, oshape=pre+dims, forward=c["flip"], normalize=c["norm"])
	t.close(b2, b3, "iu2nu of real samples", rtol=0, atol=1e-6)
	# nu2u is inverted from points coarser than the grid
	few = tuple(max(1,k//2) for k in dims)
	g2  = np.array(np.meshgrid(*[np.arange(k)*dims[i]/k for i,k in enumerate(few)],indexing="ij"))
	i2  = g2+r.uniform(-0.1,0.1,g2.shape)
	y   = r.standard_normal(pre+few)+1j*r.standard_normal(pre+few)
	E2  = direct(dims, i2, dims, -1 if c["flip"] else 1)
	u   = np.einsum("pk,...p->...k", E2, y.reshape(pre+(-1,))).reshape(pre+dims)/(n if c["norm"] else 1)
	t.close(enfft.inu2u(u, i2, forward=c["flip"], normalize=c["norm"]), y, "inu2u does not invert nu2u", rtol=0, atol=1e-4)
	t.close(enfft.inufft_adjoint(u, i2, flip=not c["flip"], normalize=c["norm"]), y, "inufft_adjoint", rtol=0, atol=1e-4)
	t.close(enfft.inufft_adjoint(u, i2, flip=not c["flip"], normalize=c["norm"], complex=False), y.real, "real inufft_adjoint", rtol=0, atol=1e-4)
	t.close(enfft.inu2u(u, i2, forward=c["flip"], normalize=c["norm"], complex=False), y.real, "real inu2u", rtol=0, atol=1e-4)

def gen_def(d): return {"shape":[d.int(2,6) for _ in range(d.int(1,4))],"dtype":d.choice(["float64","float32"]),"nd":d.int(1,2),"npt":d.int(1,6),"mix":d.choice(["same","f64inds","f32inds","ints"]),"eps":d.choice([None,1e-3,1e-5]),"seed":d.seed()}
@prop.law(gen_def, quick=300, rule="more than one axis")
def defaults(c, t):
	"""Transforms run along the last axis, unnormalized, unless told otherwise; nonuniform transforms accept points of any type, output arrays, and a target accuracy"""
	r = rng(c); shape = tuple(c["shape"]); t.mark_trivial(len(shape)<2); dt = c["dtype"]; a = r.standard_normal(shape).astype(dt); n = shape[-1]; tol = dict(rtol=10*tolof(dt),atol=1e-300); F = dft(a.astype(float),[-1],-1); f32 = dt == "float32"
	for ax in ({},{"axes":None}):
		f = enfft.fft(a,**ax); t.close(f,F,"fft",**tol); t.close(enfft.ifft(f,**ax),a.astype(float)*n,"ifft",**tol); h = enfft.rfft(a,**ax); t.close(h,F[...,:n//2+1],"rfft",**tol); t.close(enfft.irfft(h,n=n,**ax),a.astype(float)*n,"irfft",**tol)
		D = enfft.dct(a,**ax); t.close(D,a.astype(float)@trig("DCT-I",n).T,"dct",**tol); t.close(enfft.idct(D,**ax),a.astype(float)*2*(n-1),"idct",**tol)
	nd = min(c["nd"],len(shape)); pre, dims = shape[:-nd], shape[-nd:]; ct = "complex64" if f32 else "complex128"; fa = (a+1j*r.standard_normal(shape)).astype(ct); inds = r.uniform(0,1,(nd,c["npt"]))*np.array(dims)[:,None]; N = int(np.prod(dims))
	inds = {"same":inds.astype(dt),"f64inds":inds,"f32inds":inds.astype("float32"),"ints":np.floor(inds).astype(int)}[c["mix"]]; E = direct(dims,inds.astype(float),dims,1); sc = N**.5*3; e = {"epsilon":c["eps"]} if c["eps"] else {}; acc = max(5*(c["eps"] or 0),2e-3 if f32 or c["mix"]=="f32inds" else 1e-9)
	want = np.einsum("pk,...k->...p",E,fa.reshape(pre+(-1,)).astype(complex)).reshape(pre+(c["npt"],)); g = enfft.u2nu(fa,inds,**e); t.close(g,want/1,"u2nu",rtol=0,atol=acc*sc)
	plan = enfft.u2nu_plan(fa,tuple(range(-nd,0)),**e); o = np.full(pre+(c["npt"],),7,ct); g = plan.eval(inds,out=o); t.true(g is o,"plan output"); t.close(o,want,"plan with output",rtol=0,atol=acc*sc); k = plan.eval(inds[:,:1]); t.close(k,want[...,:1],"plan again",rtol=0,atol=acc*sc)
	pr = enfft.u2nu_plan(fa,tuple(range(-nd,0)),complex=False,normalize=True,**e); g = pr.eval(inds); t.true(not np.iscomplexobj(g) and g.dtype==np.dtype(dt),"real plan"); t.close(g,want.real/N,"real plan",rtol=0,atol=acc*sc)
	y = (r.standard_normal(pre+(c["npt"],))+1j*r.standard_normal(pre+(c["npt"],))).astype(ct); A = np.einsum("pk,...p->...k",direct(dims,inds.astype(float),dims,1),y.astype(complex)).reshape(shape); t.close(enfft.nu2u(y,inds,oshape=shape,**e),A,"nu2u",rtol=0,atol=acc*c["npt"]*3)
	t.eq(enfft.get_engine("auto") in enfft.engines or enfft.get_engine("auto")=="intel",True,"engine"); t.eq(enfft.get_engine("numpy"),"numpy","engine")
