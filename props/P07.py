import numpy as np
from harness.core import Prop, rng
from harness import methods as _methods, geo
from pixell import enmap
prop = Prop("P07", assumptions=["dct needs at least two pixels along each axis", "physical pixel scales come from extent, which P04 checks", "DCT adjoints are with respect to the inner product in which the DCT-I is self-adjoint (half weight for the first and last samples)"])

RT = {"float32":2e-5, "complex64":2e-5, "float64":1e-11, "complex128":1e-11, "int32":1e-11}
def dft(n, sign): 
	k = np.arange(n)
	return np.exp(sign*2j*np.pi*((k[:,None]*k[None,:])%n)/n)
def dft2(a, sign): return dft(a.shape[-2],sign) @ a @ dft(a.shape[-1],sign).T
def dct1(n):
	k = np.arange(n)
	C = 2*np.cos(np.pi*k[:,None]*k[None,:]/(n-1)); C[:,[0,-1]] /= 2
	return C
PHYS = ["phy","phys","physical"]
def inner(a, b): return np.sum(np.asarray(a,np.complex128)*np.conj(np.asarray(b,np.complex128)))

def gen_fft(d):
	return {"geo":geo.gen_any(d, 1, 11), "pre":geo.gen_pre(d), "dtype":d.choice(["float64","float32","complex128","complex64","int32"]), "norm":d.choice([True,False]+PHYS), "seed":d.seed(), "nthread":d.choice([0,1,3]), "omap":d.bool(), "layout":d.choice(["C","T","rev"])}

def mk(c, shape, wcs, dtype, extra=0):
	a = geo.data(c, shape, dtype, extra)
	if c.get("layout") == "rev": a = a[...,::-1]
	elif c.get("layout") == "T": a = np.ascontiguousarray(np.moveaxis(a,-1,0)); a = np.moveaxis(a,0,-1)
	return enmap.ndmap(a, wcs)

@prop.law(gen_fft, quick=900, rule="maps with more than one pixel")
def fourier(c, t):
	shape, wcs = geo.build(c["geo"])
	full = tuple(c["pre"])+shape
	t.mark_trivial(shape[0]*shape[1] == 1)
	m   = mk(c, full, wcs, c["dtype"]); m0 = np.array(m)
	n   = shape[0]*shape[1]
	norm= c["norm"]
	N   = n**-0.5 if norm else 1
	P   = m.pixsize()**0.5 if norm in PHYS else 1
	kw  = {"normalize":norm, "nthread":c["nthread"]}
	tol = RT[c["dtype"]]
	a   = np.asarray(m, np.complex128)
	F   = enmap.fft(m, **kw)
	t.eq(np.asarray(m), m0, "fft modified its input")
	ctype = np.result_type(np.dtype(c["dtype"]), np.complex64) if c["dtype"] != "int32" else np.complex128
	t.true(isinstance(F, enmap.ndmap) and F.dtype == ctype and F.wcs is not None, "fft type")
	t.eq(F.wcs.wcs.crpix, wcs.wcs.crpix, "fft wcs")
	want = dft2(a,-1)*N*P
	t.close(np.asarray(F), want, "fft is not the Fourier sum", rtol=tol, atol=1e-300)
	if c["omap"]:
		o = enmap.zeros(full, wcs, ctype)
		r = enmap.fft(m.astype(ctype), omap=o, **kw)
		t.close(np.asarray(r), want, "fft with omap", rtol=tol, atol=1e-300)
		t.eq(np.asarray(r), np.asarray(o), "omap was not filled")
	# Inverse
	F0 = np.array(F)
	back = enmap.ifft(F, **kw)
	t.eq(np.asarray(F), F0, "ifft modified its input")
	t.close(np.asarray(back), dft2(np.asarray(F,np.complex128),1)*N/P, "ifft is not the inverse Fourier sum", rtol=10*tol, atol=1e-300)
	if norm: t.close(np.asarray(back), a, "ifft(fft(m)) != m", rtol=10*tol, atol=1e-300)
	else:    t.close(np.asarray(back), a*n, "unnormalized ifft(fft(m))", rtol=10*tol, atol=1e-300)
	if norm is True: t.close(np.sum(np.abs(np.asarray(F,np.complex128))**2), np.sum(np.abs(a)**2), "not unitary", rtol=10*tol)
	if norm in PHYS: t.close(np.sum(np.abs(np.asarray(F,np.complex128))**2)/m.pixsize(), np.sum(np.abs(a)**2), "phys normalization", rtol=10*tol)
	# Adjoints
	y = mk(c, full, wcs, ctype, 1)
	s = np.sqrt(np.sum(np.abs(a)**2)*np.sum(np.abs(np.asarray(y,np.complex128))**2))
	t.close(inner(F,y), inner(a, enmap.fft_adjoint(y, **kw)), "fft_adjoint", rtol=0, atol=10*tol*s*(P if norm else n**0.5)+1e-300)
	t.close(inner(enmap.ifft(y, **kw), a), inner(y, enmap.ifft_adjoint(m, **kw)), "ifft_adjoint", rtol=0, atol=10*tol*s*(1/P if norm else n**0.5)+1e-300)

def gen_dct(d):
	return {"geo":geo.gen_any(d, 2, 10), "pre":geo.gen_pre(d), "dtype":d.choice(["float64","float32"]), "norm":d.choice([True,False]+PHYS), "seed":d.seed(), "nthread":d.choice([0,2])}
@prop.law(gen_dct, quick=500, rule="every map")
def cosine(c, t):
	shape, wcs = geo.build(c["geo"])
	full = tuple(c["pre"])+shape
	m, y = mk(c, full, wcs, c["dtype"]), mk(c, full, wcs, c["dtype"],1)
	a, b = np.asarray(m,float), np.asarray(y,float)
	kw   = {"normalize":c["norm"], "nthread":c["nthread"]}
	tol  = RT[c["dtype"]]*5
	C1, C2 = dct1(shape[0]), dct1(shape[1])
	n    = 4*(shape[0]-1)*(shape[1]-1)
	N    = n**-0.5 if c["norm"] else 1
	P    = m.pixsize()**0.5 if c["norm"] in PHYS else 1
	F    = enmap.dct(m, **kw)
	t.true(F.dtype == m.dtype, "dct dtype")
	t.close(np.asarray(F), C1@a@C2.T*N*P, "dct is not the cosine sum", rtol=tol)
	G = enmap.idct(m, **kw)
	t.close(np.asarray(G), C1@a@C2.T*N/P, "idct is not the cosine sum", rtol=tol)
	t.close(np.asarray(enmap.idct(F, **kw)), a*(1 if c["norm"] else n), "idct(dct(m))", rtol=tol)
	W = np.ones(shape); W[[0,-1]] /= 2; W[:,[0,-1]] /= 2
	s = np.sqrt(np.sum(a**2)*np.sum(b**2))*np.linalg.norm(C1)*np.linalg.norm(C2)*N
	t.close(np.sum(W*np.asarray(F)*b), np.sum(W*a*np.asarray(enmap.dct_adjoint(y,**kw))), "dct_adjoint", rtol=0, atol=tol*s*P)
	t.close(np.sum(W*np.asarray(G)*b), np.sum(W*a*np.asarray(enmap.idct_adjoint(y,**kw))), "idct_adjoint", rtol=0, atol=tol*s/P)

SPINS = [[0,2],[0],[2],[1],[0,0,3],[2,0],[1,2],2,0]
def ncomps(d, spin):
	"""A component count the spin list can be laid out on"""
	s = np.array(spin).reshape(-1); n = 0
	for i in range(d.int(1,4)): n += 1 if s[i%len(s)]==0 else 2
	return n
def gen_harm(d):
	spin = d.choice(SPINS)
	return {"geo":geo.gen_any(d, 1, 9), "spin":spin, "pre":geo.gen_pre(d,2), "ncomp":ncomps(d,spin) if d.int(0,5) else 0, "dtype":d.choice(["float64","float64","float32"]), "norm":d.choice([True,False,"phys"]), "seed":d.seed(), "iau":d.bool(), "keep":d.bool()}

def layout(spin, n):
	s = np.array(spin).reshape(-1); i, k, res = 0, 0, []
	while i < n:
		v = s[k%len(s)]; w = 1 if v==0 else 2
		res.append((int(v),i)); i += w; k += 1
	return res

@prop.law(gen_harm, quick=1200, rule="polarized maps")
def harmonic(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	full = (tuple(c["pre"])+(c["ncomp"],) if c["ncomp"] else ())+shape
	m, y = mk(c, full, wcs, c["dtype"]), None
	a    = np.asarray(m, float)
	kw   = {"normalize":c["norm"], "iau":c["iau"], "spin":c["spin"], "nthread":1}
	tol  = RT[c["dtype"]]*20
	n    = shape[0]*shape[1]
	N    = n**-0.5 if c["norm"] else 1
	P    = m.pixsize()**0.5 if c["norm"] == "phys" else 1
	H    = enmap.map2harm(m, **kw)
	t.eq(np.asarray(m), a.astype(m.dtype), "map2harm modified its input")
	# Reference: Fourier transform, then rotate each pair by spin times the angle of the wavenumber
	f    = dft2(a.astype(complex),-1)*N*P
	sy, sx = np.sign(g["cdelt"][1]), np.sign(g["cdelt"][0])
	ext  = enmap.extent(shape, wcs)
	ly   = np.fft.fftfreq(shape[0])*shape[0]*2*np.pi/ext[0]*sy
	lx   = np.fft.fftfreq(shape[1])*shape[1]*2*np.pi/ext[1]*sx
	ang  = np.arctan2(lx[None,:],ly[:,None])*(-1 if c["iau"] else 1)
	pairs = [p for p in layout(c["spin"],c["ncomp"]) if p[0] != 0] if c["ncomp"] else []
	t.mark_trivial(not pairs)
	want = f.copy()
	for s, i in pairs:
		q, u = f[...,i,:,:], f[...,i+1,:,:]
		want[...,i,:,:]   = np.cos(s*ang)*q-np.sin(s*ang)*u
		want[...,i+1,:,:] = np.sin(s*ang)*q+np.cos(s*ang)*u
	t.close(np.asarray(H), want, "map2harm", rtol=tol, atol=1e-300)
	t.true(H.dtype == np.result_type(m.dtype,np.complex64), "map2harm dtype")
	H0 = np.array(H)
	back = enmap.harm2map(H, keep_imag=c["keep"], **kw)
	t.eq(np.asarray(H), H0, "harm2map modified its input")
	t.true(np.iscomplexobj(back) == c["keep"], "keep_imag")
	t.close(np.asarray(back), a*(1 if c["norm"] else n), "harm2map(map2harm(m))", rtol=tol, atol=1e-300)
	# harm2map on its own
	y = mk(c, full, wcs, "complex64" if c["dtype"] == "float32" else "complex128", 1)
	b = np.asarray(y, complex)
	w2 = b.copy()
	for s, i in pairs:
		e, v = b[...,i,:,:], b[...,i+1,:,:]
		w2[...,i,:,:]   =  np.cos(s*ang)*e+np.sin(s*ang)*v
		w2[...,i+1,:,:] = -np.sin(s*ang)*e+np.cos(s*ang)*v
	w2 = dft2(w2,1)*N/P
	if not c["keep"]: w2 = w2.real
	r2 = enmap.harm2map(y, keep_imag=c["keep"], **kw)
	t.close(np.asarray(r2), w2, "harm2map", rtol=tol, atol=1e-300)
	# adjoints with respect to the real inner product
	s = np.sqrt(np.sum(np.abs(a)**2)*np.sum(np.abs(b)**2))*(1 if c["norm"] else n**0.5)
	t.close(inner(want,b).real, inner(a, enmap.map2harm_adjoint(y, **kw)).real, "map2harm_adjoint", rtol=0, atol=tol*s*P+1e-300)
	t.close(inner(enmap.harm2map(y,**kw),a).real, inner(b, enmap.harm2map_adjoint(m, **kw)).real, "harm2map_adjoint", rtol=0, atol=tol*s/P+1e-300)

def gen_rot(d):
	return {"shape":[d.int(1,3) for _ in range(d.int(0,2))]+[d.int(2,4),d.int(1,4),d.int(1,4)], "spin":d.choice([0,1,2,3]), "angmap":d.bool(), "seed":d.seed(), "comps":d.choice([None,[0,1],[1,0]]), "axis":d.choice([-3,None]), "pre2":d.int(0,2)}
@prop.law(gen_rot, quick=400, rule="spin is not zero")
def rotation(c, t):
	"""rotate_pol and map_mul"""
	r = rng(c); sh = tuple(c["shape"])
	a = r.standard_normal(sh); w = geo.make_wcs("car",[0,0],[-1,1],[1,1])
	ang = r.uniform(-4,4, sh[-2:]) if c["angmap"] else float(r.uniform(-4,4))
	comps = c["comps"] or [-2,-1]
	t.mark_trivial(c["spin"] == 0)
	m = enmap.ndmap(a.copy(),w)
	kw = {} if c["comps"] is None else {"comps":comps}
	o = enmap.rotate_pol(m, ang, spin=c["spin"], **kw)
	want = a.copy(); q, u = a[...,comps[0],:,:], a[...,comps[1],:,:]
	co, si = np.cos(c["spin"]*np.asarray(ang)), np.sin(c["spin"]*np.asarray(ang))
	want[...,comps[0],:,:] = co*q-si*u; want[...,comps[1],:,:] = si*q+co*u
	t.close(np.asarray(o), want, "rotate_pol", rtol=1e-12); t.eq(np.asarray(m), a, "rotate_pol modified its input")
	t.close(np.asarray(enmap.rotate_pol(o, -np.asarray(ang), spin=c["spin"], **kw)), a, "rotate_pol back", rtol=1e-12)
	ax0 = enmap.rotate_pol(np.moveaxis(a,-3,0), ang, spin=c["spin"], axis=0, **kw) if sh[:-3] == () or not c["angmap"] else None
	if ax0 is not None: t.close(np.moveaxis(ax0,0,-3), want, "rotate_pol with axis", rtol=1e-12)
	n = sh[-3]; k = c["pre2"]+1
	mat = r.standard_normal((k,n)+sh[-2:])
	prod = enmap.map_mul(enmap.ndmap(mat,w), m)
	t.close(np.asarray(prod), np.sum(mat[(None,)*0]*a[...,None,:,:,:],-3) if True else 0, "map_mul", rtol=1e-12)
	sc = r.standard_normal(sh[-2:])
	t.close(np.asarray(enmap.map_mul(enmap.ndmap(sc,w), m)), sc*a, "scalar map_mul", rtol=1e-12)

def gen_l(d):
	return {"geo":geo.gen_any(d, 1, 12), "os":d.choice([1,1,2,3]), "min":d.choice([0,5,500]), "pre":geo.gen_pre(d,2), "method":d.choice(["auto","subgrid","intermediate"]), "seed":d.seed()}
@prop.law(gen_l, quick=800, rule="every geometry")
def multipoles(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	full = tuple(c["pre"])+shape
	os = c["os"] if min(shape) >= 3 else 1
	try: ext = enmap.extent(full, wcs, method=c["method"])
	except ValueError: t.mark_trivial(); return
	step = ext/np.array(shape)*np.sign(g["cdelt"][::-1])
	ref = []
	for n, s in zip(shape, step):
		N = n*os; k = np.arange(N); k = np.where(k < (N+1)//2, k, k-N)
		l = 2*np.pi*k/(N*s); a = 2*np.pi/(n*s)
		if os > 1: l = l + a/2*(-1+1./os)
		ref.append(l)
	tol = dict(rtol=1e-10)
	ly, lx = enmap.laxes(full, wcs, oversample=os, method=c["method"])
	t.close(ly, ref[0], "laxes y", **tol); t.close(lx, ref[1], "laxes x", **tol)
	by, bx = enmap.laxes(full, wcs, oversample=os, method=c["method"], broadcastable=True)
	t.eq(by, ly[:,None], "broadcastable laxes y"); t.eq(bx, lx[None,:], "broadcastable laxes x")
	L = enmap.lmap(full, wcs, oversample=os, method=c["method"])
	want = np.array(np.broadcast_arrays(ref[0][:,None],ref[1][None,:]))
	t.close(np.asarray(L), want, "lmap", **tol)
	ml = enmap.modlmap(full, wcs, oversample=os, method=c["method"], min=c["min"])
	t.close(np.asarray(ml), np.maximum(np.hypot(*want),c["min"]), "modlmap", **tol)
	m = enmap.zeros(full, wcs)
	t.close(np.asarray(m.lmap()), np.asarray(enmap.lmap(full,wcs)), "ndmap.lmap", rtol=0)
	t.close(np.asarray(m.modlmap()), np.hypot(*np.asarray(enmap.lmap(full,wcs))), "ndmap.modlmap", rtol=1e-10)
	t.close(np.asarray(enmap.lrmap(full,wcs)), np.asarray(enmap.lmap(full,wcs))[...,:shape[1]//2+1], "lrmap", rtol=0)
	sgn = np.sign(g["cdelt"][::-1])
	t.close(enmap.lpixshape(full,wcs), 2*np.pi/enmap.extent(full,wcs), "lpixshape", **tol)
	t.close(enmap.lpixshape(full,wcs,signed=True), 2*np.pi/enmap.extent(full,wcs)*sgn, "signed lpixshape", **tol)
	t.close(enmap.lpixsize(full,wcs), np.prod(2*np.pi/enmap.extent(full,wcs)), "lpixsize", **tol)
	# pixel numbers and multipoles
	L1 = np.asarray(enmap.lmap(full,wcs))
	pix = np.array(np.mgrid[:shape[0],:shape[1]])
	t.close(enmap.pix2l(full,wcs,pix), L1, "pix2l", rtol=1e-9, atol=1e-300)
	back = enmap.l2pix(full,wcs,L1)
	t.close((back-pix+0.5)%np.array(shape)[:,None,None]-0.5, pix*0.0, "l2pix", rtol=0, atol=1e-6)
	# The fourier transform of a plane wave with multipole l ends up where lmap is l
	r = rng(c); i, j = int(r.integers(shape[0])), int(r.integers(shape[1]))
	st  = enmap.extent(full,wcs,signed=True)/np.array(shape)
	wave= np.exp(1j*(L1[0,i,j]*pix[0]*st[0]+L1[1,i,j]*pix[1]*st[1]))
	F   = enmap.fft(enmap.ndmap(wave,wcs))
	e   = np.zeros(shape); e[i,j] = (shape[0]*shape[1])**0.5
	t.close(np.asarray(F), e+0j, "plane wave", rtol=0, atol=1e-9*e[i,j])

_methods.add_law(prop)
