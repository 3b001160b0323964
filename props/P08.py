import numpy as np
from harness.core import Prop, rng
from harness import methods as _methods, geo
from pixell import enmap, fft as enfft, resample, utils
prop = Prop("P08", assumptions=["resampling is checked on maps without power at or above the Nyquist frequency of the coarser grid", "physical pixel scales come from extent, which P04 checks"])

def ks(n): 
	k = np.arange(n); return np.where(k < (n+1)//2, k, k-n)
def dft(a, sign=-1, axes=(-2,-1)):
	a = np.asarray(a, complex)
	for ax in axes:
		n = a.shape[ax]; k = np.arange(n)
		M = np.exp(sign*2j*np.pi*((k[:,None]*k[None,:])%n)/n)
		if sign > 0: M /= n
		a = np.moveaxis(np.tensordot(M, np.moveaxis(a,ax,0), 1),0,ax)
	return a
def lphys(g, shape, wcs):
	ext = enmap.extent(shape, wcs)*np.sign(g["cdelt"][::-1])
	return ks(shape[0])[:,None]*2*np.pi/ext[0], ks(shape[1])[None,:]*2*np.pi/ext[1]
def op(a, fact): return dft(dft(a)*fact, 1).real

def gen(d):
	return {"geo":geo.gen_any(d, 1, 10), "pre":geo.gen_pre(d), "dtype":d.choice(["float64","float64","float32"]), "seed":d.seed(), "wave":d.bool(), "sigma":d.choice([0,0.5,1,3,-1,-0.3]), "order":d.choice([0,1]), "pow":d.choice([1.0,-1.0,2.0,0.5]), "wscale":d.choice([1,1,2]), "off":[d.float(-20,20,2),d.float(-20,20,2)], "ioff":[d.int(-20,20),d.int(-20,20)]}

def mk(c, full, wcs):
	if c["wave"]:
		r = rng(c,4); i, j, ph = int(r.integers(full[-2])), int(r.integers(full[-1])), r.uniform(0,7)
		y, x = np.mgrid[:full[-2],:full[-1]]
		a = np.cos(2*np.pi*(i*y/full[-2]+j*x/full[-1])+ph)*np.ones(full)
	else: a = geo.data(c, full)
	return enmap.ndmap(a.astype(c["dtype"]), wcs)

@prop.law(gen, quick=1000, rule="maps with more than one pixel")
def operators(c, t):
	g = c["geo"]; shape, wcs = geo.build(g)
	full = tuple(c["pre"])+shape
	t.mark_trivial(shape[0]*shape[1] == 1)
	m = mk(c, full, wcs); a = np.asarray(m,float); m0 = np.array(m)
	ly, lx = lphys(g, shape, wcs)
	l2  = ly**2+lx**2
	tol = dict(rtol=1e-9 if c["dtype"]=="float64" else 1e-4)
	amp = np.max(np.abs(a))+1e-30
	L   = np.max(np.sqrt(l2))+1e-30
	# derivatives
	G = enmap.grad(m)
	t.true(G.shape == (2,)+full, "grad shape")
	want = np.array([op(a,1j*ly),op(a,1j*lx)])
	t.close(np.asarray(G), want, "grad", scale=amp*L, **tol)
	step = enmap.extent(shape,wcs)/np.array(shape)*np.sign(g["cdelt"][::-1])
	t.close(np.asarray(enmap.grad_pix(m)), np.array([want[0]/step[0],want[1]/step[1]]), "grad_pix", scale=amp*L/np.min(np.abs(step)), **tol)
	v = enmap.ndmap(np.array([a,geo.data(c,full,extra=8)]).astype(m.dtype), wcs)
	t.close(np.asarray(enmap.div(v)), op(np.asarray(v[0]),1j*ly)+op(np.asarray(v[1]),1j*lx), "div", scale=(amp+5)*L, **tol)
	t.close(np.asarray(enmap.laplace(m)), op(a,-l2), "laplace", scale=amp*L**2, **tol)
	# smoothing
	sigma = c["sigma"]/L*2
	beam  = np.exp(-0.5*l2*sigma**2)
	if sigma < 0: beam = 1-beam
	if sigma == 0: beam = 1
	t.close(np.asarray(enmap.smooth_gauss(m,sigma)), op(a,beam), "smooth_gauss", scale=amp, **tol)
	# pixel window
	wy, wx = enmap.calc_window(full, order=c["order"], scale=c["wscale"])
	def win(n):
		f = ks(n)/n/c["wscale"]
		w = np.where(f==0,1,np.sin(np.pi*f)/np.where(f==0,1,np.pi*f))
		return w if c["order"]==0 else w**2/((2+np.cos(2*np.pi*f))/3)
	t.close(wy, win(shape[0]), "calc_window y", rtol=1e-12); t.close(wx, win(shape[1]), "calc_window x", rtol=1e-12)
	W = win(shape[0])[:,None]*win(shape[1])[None,:]
	kw = {"order":c["order"], "scale":c["wscale"]}
	r = enmap.apply_window(m, pow=c["pow"], **kw)
	t.close(np.asarray(r), op(a,W**c["pow"]), "apply_window", scale=amp*10, **tol)
	t.close(np.asarray(enmap.unapply_window(r, pow=c["pow"], **kw)), a, "unapply_window", scale=amp*100, **tol)
	F = enmap.fft(m)
	t.close(np.asarray(enmap.apply_window(F, pow=c["pow"], nofft=True, **kw)), dft(a)/np.sqrt(shape[0]*shape[1])*W**c["pow"], "apply_window nofft", scale=amp*10*np.sqrt(shape[0]*shape[1]), **tol)
	# shifts
	for keep in [False, True]:
		io = c["ioff"]
		s = enmap.shift(m, io, keepwcs=keep)
		y, x = np.mgrid[:shape[0],:shape[1]]
		want = a[...,(y-io[0])%shape[0],(x-io[1])%shape[1]]
		t.eq(np.asarray(s), want.astype(m.dtype), "shift")
		t.close(s.wcs.wcs.crpix, wcs.wcs.crpix+(0 if keep else np.array(io[::-1])), "shift wcs", rtol=0, atol=1e-9)
		off = c["off"]
		fs = enmap.fractional_shift(m, off, keepwcs=keep)
		want = op(a, np.exp(-2j*np.pi*(off[0]*ks(shape[0])[:,None]/shape[0]+off[1]*ks(shape[1])[None,:]/shape[1])))
		t.close(np.asarray(fs), want, "fractional_shift", scale=amp, **tol)
		t.close(fs.wcs.wcs.crpix, wcs.wcs.crpix+(0 if keep else np.array(off[::-1])), "fractional_shift wcs", rtol=0, atol=1e-9)
		t.close(np.asarray(enmap.fractional_shift(m, io)), np.asarray(enmap.shift(m, io)), "integer fractional_shift", scale=amp, **tol)
		nf = enmap.fractional_shift(enmap.fft(m.astype(np.complex128)), off, nofft=True)
		t.close(np.asarray(enmap.ifft(nf)).real, want, "fractional_shift nofft", scale=amp, **tol)
	y0, x0 = shape[0]//2, shape[1]//2
	sh = enmap.fftshift(m)
	y, x = np.mgrid[:shape[0],:shape[1]]
	t.eq(np.asarray(sh)[...,(y+y0)%shape[0],(x+x0)%shape[1]], m0, "fftshift")
	t.eq(np.asarray(enmap.ifftshift(sh)), m0, "ifftshift")
	t.eq(np.asarray(m), m0, "input modified"); t.eq(m.wcs.wcs.crpix, wcs.wcs.crpix, "input wcs modified")
	m2 = m.copy(); r = enmap.fftshift(m2, inplace=True); t.eq(np.asarray(m2), np.asarray(sh), "fftshift in place")
	m2 = m.copy(); r = enmap.shift(m2, c["ioff"], inplace=True); t.eq(np.asarray(m2), np.asarray(enmap.shift(m,c["ioff"])), "shift in place")

def gen_res(d):
	g = geo.gen_any(d, 1, 10)
	return {"geo":g, "pre":geo.gen_pre(d,2), "oshape":[d.int(1,22),d.int(1,22)], "corner":d.bool(), "seed":d.seed(), "off":d.choice([[0,0],[0,0],[1.5,-0.3],[2,0]]), "dtype":d.choice(["float64","float64","float32"]), "fact":d.choice([1,2,3]), "usefac":d.bool()}

def band(shape, oshape):
	"""Modes below the Nyquist frequency of both"""
	def ok(n,m): 
		c = min(n,m); return np.abs(ks(n)) < c/2.
	return ok(shape[0],oshape[0])[:,None]&ok(shape[1],oshape[1])[None,:]
def trig_eval(F, y, x):
	"""Evaluate the function with the given Fourier coefficients at pixel coordinates y[:], x[:]"""
	ny, nx = F.shape[-2:]
	Y = np.exp(2j*np.pi*np.asarray(y)[:,None]*ks(ny)[None,:]/ny); X = np.exp(2j*np.pi*np.asarray(x)[:,None]*ks(nx)[None,:]/nx)
	return Y@F@X.T/(ny*nx)

@prop.law(gen_res, quick=1200, rule="the number of pixels changes")
def resampling(c, t):
	g = c["geo"]; shape, wcs = geo.build(g)
	osh = tuple(c["oshape"])
	if c["usefac"]: osh = (shape[0]*c["fact"],shape[1]*c["fact"])
	t.mark_trivial(osh == shape)
	full = tuple(c["pre"])+shape
	F = dft(geo.data(c,full))*band(shape,osh)
	a = dft(F,1).real
	m = enmap.ndmap(a.astype(c["dtype"]),wcs)
	off = np.array(c["off"])
	tol = dict(rtol=0, atol=(1e-10 if c["dtype"]=="float64" else 1e-4)*(np.max(np.abs(a))+1e-3))
	o = enmap.resample(m, osh, off=off, corner=c["corner"])
	t.true(o.shape == tuple(c["pre"])+osh, "resample shape")
	r = np.array(shape)/np.array(osh)
	e = 0.5 if c["corner"] else 0
	y, x = (np.arange(osh[0])-off[0]+e)*r[0]-e, (np.arange(osh[1])-off[1]+e)*r[1]-e
	want = trig_eval(F,y,x).real
	t.close(np.asarray(o), want, "resample is not the same function at the new pixels", **tol)
	# The geometry: same sky for the pixel coordinates
	w2, cd = o.wcs, np.array(g["cdelt"])
	t.close(w2.wcs.cdelt, cd*r[::-1], "resample cdelt", rtol=1e-10)
	# output pixel i (0-based) has input pixel coordinate (i+e)*r-e
	pix = np.array([[0,osh[0]-1.],[0,osh[1]-1.]])
	ipx = (pix+e)*r[:,None]-e
	for i in range(2):
		t.close((pix[1-i]+1-w2.wcs.crpix[i])*w2.wcs.cdelt[i], (ipx[1-i]+1-wcs.wcs.crpix[i])*cd[i], "resample crpix %d" % i, rtol=0, atol=1e-8)
	t.eq(w2.wcs.crval, wcs.wcs.crval, "resample crval")
	# and back
	if not np.any(off):
		b = enmap.resample(o, shape, corner=c["corner"])
		t.close(np.asarray(b), a, "resample there and back", **tol)
		t.close(b.wcs.wcs.crpix, wcs.wcs.crpix, "resample there and back wcs", rtol=0, atol=1e-8)
	if c["usefac"]:
		u = enmap.upgrade_fft(m, c["fact"])
		if c["corner"] and not np.any(off): t.close(np.asarray(u), want, "upgrade_fft", **tol)
		dn = enmap.downgrade_fft(u, c["fact"])
		t.close(np.asarray(dn), a, "downgrade_fft(upgrade_fft)", **tol)
		t.close(dn.wcs.wcs.crpix, wcs.wcs.crpix, "downgrade_fft(upgrade_fft) wcs", rtol=0, atol=1e-8)
	# In harmonic space, with the various units
	for norm, unit in [(True,"pix"),(False,"plain"),("phys","phys")]:
		f = enmap.fft(m, normalize=norm)
		f2 = enmap.resample_fft(f, osh, off=off, corner=c["corner"], norm=unit)
		o2 = enmap.ifft(f2, normalize=norm).real/(1 if norm else osh[0]*osh[1])
		if unit == "phys":
			# Same area, so the phys units only differ by rounding of pixsize
			t.close(np.asarray(o2)*(o2.pixsize()*o2.npix/(m.pixsize()*m.npix))**0.5, want, "resample_fft phys", rtol=0, atol=tol["atol"]*100)
		else: t.close(np.asarray(o2), want, "resample_fft %s" % unit, **tol)
		acc = enmap.ndmap(np.ones(f2.shape, f2.dtype), f2.wcs)
		enmap.resample_fft(f, osh, fomap=acc, corner=False, norm=unit, op=lambda a,b:a+b)
		ref = enmap.resample_fft(f, osh, corner=False, norm=unit)
		t.close(np.asarray(acc), np.asarray(ref)+1, "resample_fft with fomap and op", rtol=0, atol=tol["atol"]*shape[0]*shape[1]+tol["atol"])
	sh2, w3 = enmap.resample_fft(enmap.ndmap(m+0j,wcs), osh, corner=c["corner"], dummy=True)
	t.eq(sh2, o.shape, "resample_fft dummy"); t.eq(w3.wcs.crpix, w2.wcs.crpix, "resample_fft dummy wcs")
	# spline: what scipy gives at the corresponding positions, for every order
	import scipy.ndimage
	for bord in ["mirror"]:
		n = 1+c["seed"]%5; off2 = np.zeros(2)+off; e2 = 0.5*c["corner"]; rr = np.array(shape)/np.array(osh)
		py, px = [(np.arange(osh[i])-off2[i]+e2)*rr[i]-e2 for i in range(2)]
		want2 = np.array([scipy.ndimage.map_coordinates(x, np.array(np.meshgrid(py,px,indexing="ij")), order=n, mode=bord) for x in np.asarray(a,float).reshape((-1,)+tuple(shape))]).reshape(np.shape(a)[:-2]+tuple(osh))
		got2  = enmap.resample(m, osh, off=off, method="spline", corner=c["corner"], order=n, border=bord)
		t.close(np.asarray(got2), want2, "spline resampling of order %d" % n, rtol=0, atol=(1e-4 if c["dtype"] == "float32" else 1e-8)*(np.max(np.abs(a))+1e-3))
	# spline: values at shared points
	if c["fact"] > 1:
		up = enmap.resample(m, (shape[0]*c["fact"],shape[1]*c["fact"]), method="spline", corner=False, order=c["fact"]*2-3, border="wrap")
		t.close(np.asarray(up)[...,::c["fact"],::c["fact"]], a, "spline resampling moved the samples", rtol=0, atol=1e-4*(np.max(np.abs(a))+1e-3) if c["dtype"] == "float32" else 1e-8*(np.max(np.abs(a))+1e-3))
		up = enmap.resample(enmap.ndmap(np.arange(shape[0])[:,None]+2.0*np.arange(shape[1]),wcs), osh, method="spline", corner=c["corner"], order=1, border="nearest")
		yy, xx = (np.arange(osh[0])+e)*r[0]-e, (np.arange(osh[1])+e)*r[1]-e
		t.close(np.asarray(up), np.clip(yy,0,shape[0]-1)[:,None]+2*np.clip(xx,0,shape[1]-1)[None,:], "linear resampling", rtol=0, atol=1e-9*(shape[0]+shape[1])*10)

def gen_arr(d):
	nd = d.int(1,3)
	shape = [d.int(1,9) for _ in range(nd)]
	axes = d.subset(range(nd)) or [nd-1]
	return {"shape":shape, "axes":[a-nd*d.int(0,1) for a in axes], "n":[d.int(1,12) for _ in axes], "dtype":d.choice(["float64","float32","complex128","int32"]), "seed":d.seed(), "same":d.bool()}
@prop.law(gen_arr, quick=1200, rule="some length changes")
def array_resampling(c, t):
	"""fft.resample, fft.resample_fft and resample.resample_fft"""
	shape, axes, n = tuple(c["shape"]), c["axes"], c["n"]
	nd = len(shape)
	r = rng(c)
	a = geo.data(c, shape, "complex128" if c["dtype"] == "complex128" else "float64")
	if c["dtype"] == "int32":
		# Only the sizes where nothing is lost
		a = np.round(a*20)
	F = dft(a, axes=axes)
	want = F
	t.mark_trivial(all(shape[ax]==k for ax,k in zip(axes,n)))
	for ax, k in zip(axes,n):
		ax %= nd
		m = np.abs(ks(shape[ax])) < min(k,shape[ax])/2.
		if c["dtype"] == "int32" and not np.all(m): t.mark_trivial(); return
		want = want*m.reshape((-1,)+(1,)*(nd-ax-1))
	src = dft(want, 1, axes=axes)
	if c["dtype"] != "complex128": src = src.real
	for ax, k in zip(axes,n):
		ax %= nd
		N = shape[ax]
		E = np.exp(2j*np.pi*(np.arange(k)*N/k)[:,None]*ks(N)[None,:]/N)/N
		want = np.moveaxis(np.tensordot(E, np.moveaxis(want,ax,0), 1),0,ax)
	if c["dtype"] != "complex128": want = want.real
	if c["dtype"] == "int32": src = np.round(src)
	src = src.astype(c["dtype"]); s0 = src.copy()
	tol = dict(rtol=0, atol=(1e-9 if c["dtype"]!="float32" else 1e-4)*(np.max(np.abs(a))+1))
	def check(o, name):
		t.close(o, want, name, **tol)
		t.true(np.iscomplexobj(o) == (c["dtype"]=="complex128"), name+" type")
	check(enfft.resample(src, tuple(n), axes=tuple(axes)), "fft.resample")
	check(resample.resample_fft(src, n, axes=axes), "resample.resample_fft")
	t.eq(src, s0, "input modified")
	if sorted(a%nd for a in axes) == list(range(nd-len(axes),nd)) and [a%nd for a in axes] == sorted(a%nd for a in axes):
		check(resample.resample_fft(src, n), "resample.resample_fft, default axes")
		check(enfft.resample(src, tuple(n)), "fft.resample, default axes")
	o = resample.resample(src, np.array(n)/np.array([shape[ax] for ax in axes]), axes=axes)
	check(o, "resample.resample")
	# directly in fourier space
	fa = dft(src, axes=axes)
	norm = np.prod([k/shape[ax] for k,ax in zip(n,axes)])
	fo = enfft.resample_fft(fa, n, axes=tuple(axes), norm=norm)
	t.close(dft(fo,1,axes=axes), want+0j, "fft.resample_fft", **tol)
	out = np.ones(fo.shape, complex)
	enfft.resample_fft(fa, n, out=out, axes=tuple(axes), norm=norm, op=lambda a,b:a+b)
	t.close(out, fo+1, "fft.resample_fft with out and op", rtol=1e-9, atol=1e-9)

def gen_eq(d): return {"n":d.int(5,40), "seed":d.seed(), "order":d.choice([1,3]), "q":d.choice([0.1,0.5,1.0]), "pre":geo.gen_pre(d,2)}
@prop.law(gen_eq, quick=200, rule="every time series")
def equispaced(c, t):
	r = rng(c); n = c["n"]
	tt = np.cumsum(r.uniform(0.5,1.5,n))-3
	f = lambda x: np.multiply.outer(np.arange(1,np.prod(c["pre"],dtype=int)+1).reshape(c["pre"]), x)+1.0
	o, to = resample.make_equispaced(f(tt), tt, quantile=c["q"], order=c["order"])
	t.true(o.shape == tuple(c["pre"])+to.shape, "shape")
	t.close(to[[0,-1]], tt[[0,-1]], "time range", rtol=1e-10)
	t.close(np.diff(to), np.full(len(to)-1,(tt[-1]-tt[0])/(len(to)-1)), "not equispaced", rtol=1e-6)
	dt = np.percentile(np.abs(np.diff(tt)), c["q"]*100)
	t.true(abs(abs(tt[-1]-tt[0])/dt-(len(to)-1)) <= 0.5001, "sampling rate")
	tol = dict(rtol=0, atol=1e-8*100) if c["order"] == 1 else dict(rtol=0, atol=0.3*np.prod([1]+c["pre"])*2)
	t.close(o, f(to), "values", **tol)

_methods.add_law(prop)
