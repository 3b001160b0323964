import numpy as np, scipy.ndimage
from harness.core import Prop, rng
from harness import methods as _methods, geo
from pixell import enmap, utils, fft
prop = Prop("P11", assumptions=["spline 'wrap' follows scipy.ndimage's definition at the seam", "positions handed to project are on the projection's domain (finite pixel coordinates)"])
MODES = [("spline",0),("spline",1),("spline",2),("spline",3),("spline",4),("spline",5),("nn",3),("nearest",3),("lin",3),("linear",0),("cub",1),("cubic",0)]
FOUR  = ["fourier","nufft","fft"]
BORDERS = ["nearest","constant","mirror","wrap"]
def effective(mode, order): return {"nn":0,"nearest":0,"lin":1,"linear":1,"cub":3,"cubic":3}.get(mode,order)

def gen_arr(d):
	nd = d.int(1,3)
	mode, order = d.choice(MODES)
	return {"pre":geo.gen_pre(d), "shape":[d.int(1,9) for _ in range(nd)], "mode":mode, "order":order, "border":d.choice(BORDERS), "cval":d.choice([0.0,3.25,-7.5]), "post":d.choice([[5],[2,3],[1]]), "dtype":d.choice(["float64","float64","float32","complex128","int32"]), "seed":d.seed(), "far":d.bool(), "call":d.choice(["interpol","ip","ip","out"])}

def reference(f, pos, order, border, cval):
	"""scipy given the whole job. With border nearest and order > 1 scipy would extend the array before filtering, which
	pixell does not promise. Then the spline is taken to be the one scipy uses for reflect, evaluated at the clipped position"""
	if border == "nearest" and order > 1:
		pos = np.array([np.clip(p,0,n-1) for p,n in zip(pos,f.shape)]); border = "reflect"
	return scipy.ndimage.map_coordinates(f, pos, order=order, mode=border, cval=cval)

def naive(a, pos, order, border, cval):
	"""Order 0 and 1 for a single field and positions [nd,npos], straight from the definition"""
	nd, npos = pos.shape
	out = np.zeros(npos, a.dtype if a.dtype.kind=="c" else float)
	for k in range(npos):
		p = pos[:,k].copy(); bad = False
		for i in range(nd):
			n = a.shape[i]
			if   border == "constant":
				if p[i] < 0 or p[i] > n-1: bad = True
			elif border == "nearest": p[i] = min(max(p[i],0),n-1)
			elif border == "mirror":
				if n == 1: p[i] = 0
				else:
					q = p[i]%(2*(n-1)); p[i] = q if q <= n-1 else 2*(n-1)-q
		if bad: out[k] = cval; continue
		if order == 0: out[k] = a[tuple(np.floor(p+0.5).astype(int))]
		else:
			i0 = np.floor(p).astype(int); f = p-i0
			for corner in np.ndindex((2,)*nd):
				w = 1.; I = []
				for i,cc in enumerate(corner):
					w *= f[i] if cc else 1-f[i]; I.append(min(i0[i]+cc,a.shape[i]-1))
				out[k] += w*a[tuple(I)]
	return out

@prop.law(gen_arr, quick=2500, rule="more than one sample")
def splines(c, t):
	r = rng(c); nd = len(c["shape"]); pre = tuple(c["pre"])
	order = effective(c["mode"],c["order"]); dt = c["dtype"]
	if dt == "int32" and order != 0: dt = "float64"
	a = geo.data(c, pre+tuple(c["shape"]), dt); a0 = a.copy()
	t.mark_trivial(np.prod(c["shape"])==1)
	npos = int(np.prod(c["post"]))
	n = np.array(c["shape"],float)[:,None]
	lo, hi = (-2*n-1, 3*n+1) if c["far"] else (-0.0*n,n-1)
	pos = lo + (hi-lo)*r.random((nd,npos))
	# avoid half-way ties
	if order == 0: pos = np.where(np.abs(pos%1-0.5)<1e-6, pos+0.01, pos)
	border, cval = c["border"], c["cval"] if dt != "int32" else int(c["cval"])
	kw = dict(mode=c["mode"], order=c["order"], border=border, cval=cval)
	inds = pos.reshape([nd]+c["post"]); i0 = inds.copy()
	if   c["call"] == "interpol": v = utils.interpol(a, inds, **kw)
	elif c["call"] == "out":
		v = np.zeros(pre+tuple(c["post"]), a.dtype)
		t.true(utils.interpol(a, inds, out=v, **kw) is v, "out not returned")
	else:
		ip = utils.interpolator(a, len(pre), **kw)
		v  = ip(inds)
		t.eq(ip(inds), v, "second evaluation of the interpolator"); t.eq(utils.interpol(a, inds, ip=ip), v, "interpol(ip=)")
	t.eq(a, a0, "input modified"); t.eq(inds, i0, "inds modified")
	t.true(v.shape == pre+tuple(c["post"]) and v.dtype == a.dtype, "output shape %s dtype %s" % (v.shape, v.dtype))
	tol = 1e-4 if dt == "float32" else 1e-9
	# each component against scipy, which is given the whole job
	af, vf = a.reshape((-1,)+tuple(c["shape"])), v.reshape(len(a.reshape((-1,)+tuple(c["shape"]))),-1)
	for i in range(len(af)):
		ref = reference(af[i], pos, order, border, cval)
		t.close(vf[i], ref.astype(a.dtype), "component %d vs scipy" % i, rtol=tol, atol=tol)
		if order <= 1 and border != "wrap": t.close(vf[i], naive(af[i], pos, order, border, cval).astype(a.dtype), "component %d vs definition" % i, rtol=tol, atol=tol)
	# constant border
	if border == "constant":
		out = np.any((pos<0)|(pos>n-1),0)
		t.eq(vf[:,out], np.full(vf[:,out].shape,cval).astype(a.dtype), "outside must be cval")
	# the map's own values at pixel centres
	if border != "wrap" or c["far"]:
		pix = np.array([r.integers(0,m,npos) for m in c["shape"]])
		own = np.array([f[tuple(pix)] for f in af]).reshape(pre+(npos,))
		t.close(utils.interpol(a, pix.astype(float), **kw) if border != "wrap" else utils.interpol(a,pix.astype(float),mode=c["mode"],order=c["order"]), own, "pixel centres", rtol=tol, atol=tol)
	# linearity
	if a.dtype.kind in "fc":
		b = geo.data(c, a.shape, dt, 1)
		kw0 = dict(kw,cval=0)
		t.close(utils.interpol(2*a-3*b,inds,**kw0), 2*utils.interpol(a,inds,**kw0)-3*utils.interpol(b,inds,**kw0), "linearity", rtol=10*tol, atol=10*tol)
	# symmetry: reversing an axis
	if border in ["nearest","mirror","constant"]:
		ax = int(r.integers(0,nd)); q = inds.copy(); q[ax] = c["shape"][ax]-1-q[ax]
		t.close(utils.interpol(np.flip(a,ax-nd), q, **kw), v, "reversed axis", rtol=10*tol, atol=10*tol)

def gen_poly(d):
	return {"order":d.int(1,5), "n":d.int(60,90), "deg":d.int(0,5), "seed":d.seed(), "border":d.choice(BORDERS)}
@prop.law(gen_poly, quick=150, rule="polynomial of degree at least one")
def polynomials(c, t):
	deg = min(c["deg"],c["order"]); t.mark_trivial(deg==0)
	r = rng(c); co = r.standard_normal(deg+1); n = c["n"]
	f = lambda x: np.polyval(co,(x-n/2)/n*2)
	x = n/2+(r.random(10)-0.5)*4
	# the spline prefilter decays by a factor of 0.27-0.45 per pixel
	t.close(utils.interpol(f(np.arange(n)),x[None],order=c["order"],border=c["border"]), f(x), "polynomial of degree %d with order %d" % (deg,c["order"]), rtol=0, atol=1e-7)

def gen_four(d):
	nd = d.int(1,2)
	return {"pre":geo.gen_pre(d,2), "shape":[d.int(1,10) for _ in range(nd)], "mode":d.choice(FOUR), "pc":d.choice(["plan","fft","none",None]), "dtype":d.choice(["float64","float64","float32","complex128"]), "seed":d.seed(), "npos":d.int(1,6)}
@prop.law(gen_four, quick=400, rule="more than one sample")
def fourier(c, t):
	r = rng(c); nd = len(c["shape"]); pre = tuple(c["pre"]); npos = c["npos"]
	t.mark_trivial(np.prod(c["shape"])==1)
	a = geo.data(c, pre+tuple(c["shape"]), c["dtype"]); a0 = a.copy()
	ev = (lambda a,x: utils.interpol(a,x,mode=c["mode"])) if c["pc"] is None else (lambda a,x: utils.FourierInterpolator(a,npre=len(pre),precompute=c["pc"])(x))
	tol = 1e-4 if c["dtype"]=="float32" else 1e-9
	pix = np.array([r.integers(-m,2*m,npos) for m in c["shape"]])
	own = a[(Ellipsis,)+tuple(pix%np.array(c["shape"])[:,None])]
	v = ev(a, pix.astype(float))
	t.eq(a, a0, "input modified")
	t.true(v.dtype == a.dtype, "dtype")
	t.close(v, own, "pixel centres, periodically continued", rtol=tol, atol=tol)
	# A sum of waves below Nyquist is evaluated exactly
	x = np.array([(r.random(npos)*3-1)*m for m in c["shape"]])
	grid = np.array(np.meshgrid(*[np.arange(m) for m in c["shape"]],indexing="ij")).astype(float)
	k = np.array([r.integers(-((m-1)//2),(m-1)//2+1,3) for m in c["shape"]]); ph = r.random(3)*7; amp = r.standard_normal(pre+(3,))
	def field(x):
		arg = 2*np.pi*np.einsum("ik,i...->k...", k/np.array(c["shape"])[:,None], x)
		e = np.exp(1j*(arg+ph.reshape((3,)+(1,)*(x.ndim-1))))
		if np.dtype(c["dtype"]).kind != "c": e = e.real
		return np.einsum("...k,kn->...n", amp, e.reshape(3,-1)).reshape(pre+x.shape[1:])
	t.close(ev(field(grid).astype(c["dtype"]), x), field(x), "plane waves", rtol=10*tol, atol=10*tol)

def gen_at(d):
	mode, order = d.choice(MODES+[("fourier",3)])
	return {"geo":geo.gen_any(d,2,10), "pre":geo.gen_pre(d,2), "mode":mode, "order":order, "border":d.choice(["constant","nearest"]), "cval":d.choice([0.0,2.5]), "unit":d.choice(["coord","pix"]), "seed":d.seed(), "ext":d.choice([0,3]), "turn":d.int(-1,1), "dtype":d.choice(["float64","float32"])}
@prop.law(gen_at, quick=1200, rule="every generated case")
def at(c, t):
	g = c["geo"]; shape, wcs = geo.build(g); r = rng(c); pre = tuple(c["pre"])
	a = geo.data(c, pre+shape, c["dtype"]); m = enmap.ndmap(a.copy(), wcs)
	order = effective(c["mode"],c["order"]); tol = 1e-3 if c["dtype"]=="float32" else 1e-6
	e = c["ext"] if g["kind"] == "cyl" and g["proj"] == "car" else 0
	pix = np.array([-e+r.random(6)*(n-1+2*e) for n in shape])
	if order == 0 and c["mode"]!="fourier": pix = np.where(np.abs(pix%1-0.5)<1e-3, pix+0.01, pix)
	pix[:,:2] = np.round(pix[:,:2])
	# don't sit within rounding error of the border
	pix = np.where(pix<1e-4, np.where(pix<-1e-4,pix,pix+1e-4), pix); pix = np.array([np.where(np.abs(p-(n-1))<1e-4,n-1-1e-4,p) for p,n in zip(pix,shape)]); near = 1e-3
	pos = np.array(geo.ref_pix2sky(wcs, pix[0], pix[1]))
	if g["kind"] == "full":
		pix = np.clip(pix,0,np.array(shape)[:,None]-1)
		if g["variant"] == "cc": pix[0] = np.clip(pix[0],0.01,shape[0]-1.01)
		pos = np.array(geo.ref_pix2sky(wcs,pix[0],pix[1]))
	elif abs(np.max(np.abs(pos[0]))) > 1.55: t.mark_trivial(); return
	elif g["kind"] == "cyl" and (shape[1]+2*e+2)*abs(g["cdelt"][0]) > 350: t.mark_trivial(); return
	pos[1] += 2*np.pi*c["turn"]
	kw = dict(mode=c["mode"],order=c["order"],border=c["border"],cval=c["cval"])
	v = m.at(pos,**kw) if c["unit"] == "coord" else m.at(pix,unit="pix",**kw)
	t.eq(np.asarray(m), a, "map modified")
	v2 = enmap.at(m, pos if c["unit"]=="coord" else pix, unit=c["unit"], **kw); t.eq(np.asarray(v2),np.asarray(v),"method and function")
	if c["mode"] == "fourier": ref = np.array([fourier_ref(f,pix) for f in a.reshape((-1,)+shape)])
	else: ref = np.array([reference(f,pix,order,c["border"],c["cval"]) for f in a.reshape((-1,)+shape)])
	t.close(np.asarray(v), ref.reshape(pre+(6,)), "at", rtol=tol*10, atol=tol*10)

def fourier_ref(f, pix):
	ny, nx = f.shape; F = np.fft.fft2(f)/f.size
	ky, kx = np.fft.fftfreq(ny), np.fft.fftfreq(nx)
	ph = np.exp(2j*np.pi*(pix[0][:,None,None]*ky[:,None]+pix[1][:,None,None]*kx))
	return np.sum(F*ph,(-2,-1)).real

def gen_proj(d):
	mode, order = d.choice(MODES)
	k = d.choice(["same","sub","shift","other","zen"])
	g = geo.gen_cyl(d, 3, 12, projs=["car"], maxdec=60, res=(0.2,2))
	return {"geo":g, "pre":geo.gen_pre(d,2), "kind":k, "mode":mode, "order":order, "border":d.choice(["constant","nearest"]), "cval":d.choice([0.0,2.5]), "bsize":d.choice([1000,1,2,5]), "context":d.choice([50,50,60]), "force":d.bool(), "sel":[d.int(0,5),d.int(1,6),d.int(0,5),d.int(1,6),d.choice([1,1,-1]),d.choice([1,1,-1])], "off":[d.int(-20,20),d.int(-20,20)], "n":[d.int(1,9),d.int(1,9)], "frac":[d.float(0.05,0.45,3),d.float(0.05,0.45,3)], "ip":d.bool(), "seed":d.seed(), "res":d.choice([0.5,1.0,0.8])}
@prop.law(gen_proj, quick=1000, rule="the output geometry differs from the input")
def project(c, t):
	g = c["geo"]; shape, wcs = geo.build(g); pre = tuple(c["pre"])
	a = geo.data(c, pre+shape); m = enmap.ndmap(a.copy(), wcs)
	kw = dict(mode=c["mode"],order=c["order"],border=c["border"],cval=c["cval"])
	order = effective(c["mode"],c["order"]); k = c["kind"]
	t.mark_trivial(k=="same"); t.label(k)
	if k in ["same","sub"]:
		y, h, x, w, sy, sx = c["sel"]
		sel = (Ellipsis,slice(None),slice(None)) if k == "same" else (Ellipsis,slice(y,y+h),slice(x,x+w)); flip = (Ellipsis,slice(None,None,sy),slice(None,None,sx))
		o = m[sel][flip] if k == "sub" else m
		if o.size == 0: t.mark_trivial(); return
		p = enmap.project(m, o.shape, o.wcs, force=c["force"], bsize=c["bsize"], **kw)
		t.true(p.shape == o.shape, "shape %s, expected %s" % (p.shape,o.shape))
		if not c["force"]: t.eq(np.asarray(m.project(o.shape, o.wcs, **kw)), np.asarray(enmap.project(m, o.shape, o.wcs, **kw)), "ndmap.project")
		if k == "sub" and c["border"] == "constant" and not c["force"] and sy*sx == 1 and sy == 1:
			# Aligned pixels outside the map are filled with cval
			w3 = wcs.deepcopy(); w3.wcs.crpix += [2,1]; n3 = (shape[0]+2,shape[1]+4)
			want = np.full(pre+n3, c["cval"]); want[...,1:-1,2:-2] = a
			t.close(np.asarray(enmap.project(m, n3, w3, **kw)), want, "aligned projection to a larger map", rtol=1e-6, atol=1e-6)
		# Only the rounding of the coordinates separates us from the pixel centres, but with a constant border
		# the outermost pixels can fall on either side of the border
		want, got = np.asarray(o), np.asarray(p)
		if c["border"] == "constant" and (k != "same" or c["force"]):
			yy, xx = np.mgrid[:shape[0],:shape[1]]
			edge = ((yy==0)|(yy==shape[0]-1)|(xx==0)|(xx==shape[1]-1))[sel[1:]]
			edge = edge[flip[1:]] if k == "sub" else edge
			want, got = want[...,~edge], got[...,~edge]
		t.close(got, want, "projecting on a slice of itself", rtol=1e-6, atol=1e-6)
		t.eq(p.wcs.wcs.crpix, o.wcs.wcs.crpix, "wcs")
		if k == "same": t.true(not np.shares_memory(p,m), "project must not return the input")
	else:
		# Arbitrary offset with fractional pixel shift, or other resolution, or another projection
		cd = np.array(g["cdelt"]); n = c["n"]
		if k == "zen":
			dec, ra = geo.cyl_pix2sky(g, (shape[0]-1)/2., (shape[1]-1)/2.)
			w2 = geo.make_wcs("tan",[ra/geo.DEG,dec/geo.DEG],[-abs(cd[0])*c["res"],abs(cd[1])*c["res"]],[(n[1]+1)/2.+c["frac"][1],(n[0]+1)/2.+c["frac"][0]])
		else:
			sc = 1.0 if k == "shift" else c["res"]
			p0 = np.array(c["off"])*0.7+c["frac"]
			if k == "shift": p0 = np.round(p0-c["frac"])+c["frac"]
			# output pixel (0,0) is at input pixel p0
			w2 = geo.make_wcs("car",g["crval"],list(cd*sc),[1-(p0[1]+1-g["crpix"][0])/sc, 1-(p0[0]+1-g["crpix"][1])/sc])
		pos = geo.ref_posmap(n,w2)
		if not np.all(np.isfinite(pos)) or np.max(np.abs(pos[0])) > 1.5: t.mark_trivial(); return
		py, px = geo.cyl_sky2pix(g, pos[0], pos[1])
		# the turn closest to the map
		nphi = 360/abs(cd[0]); mid = (shape[1]-1)/2.
		px = (px-mid+nphi/2)%nphi-nphi/2+mid
		if np.max(np.abs(px-mid)) > nphi/2-2: t.mark_trivial(); return
		# Avoid undefined cases: half way for order 0, and the border
		bad = np.zeros(px.shape,bool)
		if order == 0: bad |= (np.abs(py%1-0.5)<1e-5)|(np.abs(px%1-0.5)<1e-5)
		for q,m_ in ((py,shape[0]),(px,shape[1])): bad |= (np.abs(q)<1e-6)|(np.abs(q-(m_-1))<1e-6)
		ip = utils.interpolator(m, len(pre), **kw) if c["ip"] else None
		p = enmap.project(m, tuple(n), w2, bsize=c["bsize"], context=c["context"], ip=ip, **kw)
		t.true(p.shape == pre+tuple(n), "shape")
		t.close(np.asarray(m.project(tuple(n), w2, **kw)), np.asarray(enmap.project(m, tuple(n), w2, **kw)), "ndmap.project", rtol=1e-12)
		kw0 = {k_:v_ for k_,v_ in kw.items() if k_ != "cval"}
		t.close(np.asarray(m.project(tuple(n), w2, **kw0)), np.asarray(enmap.project(m, tuple(n), w2, cval=0, **kw0)), "default cval", rtol=1e-12)
		pf = np.asarray(p).reshape((-1,)+tuple(n))
		for i,f in enumerate(a.reshape((-1,)+shape)):
			ref = reference(f,[py,px],order,c["border"],c["cval"])
			t.close(pf[i][~bad], ref[~bad], "project component %d" % i, rtol=1e-5, atol=1e-5)
	t.eq(np.asarray(m), a, "map modified")

def gen_1d(d): return {"pre":geo.gen_pre(d), "n":d.int(2,9), "period":d.bool(), "post":geo.gen_pre(d), "lr":d.bool(), "seed":d.seed()}
@prop.law(gen_1d, quick=200)
def interp1d(c, t):
	r = rng(c); xp = np.cumsum(0.1+r.random(c["n"])); fp = r.standard_normal(tuple(c["pre"])+(c["n"],)); x = r.random(tuple(c["post"]))*10-2
	kw = {"period":float(xp[-1]+1)} if c["period"] else ({"left":-1.,"right":7.} if c["lr"] else {})
	v = utils.interp(x,xp,fp,**kw)
	t.true(v.shape == tuple(c["pre"])+x.shape, "shape")
	for I in np.ndindex(*c["pre"]): t.eq(v[I], np.interp(x,xp,fp[I],**kw), "interp")

def gen_arg(d): return {"geo":geo.gen_any(d), "pre":geo.gen_pre(d), "seed":d.seed(), "unit":d.choice(["coord","pix"])}
@prop.law(gen_arg, quick=300)
def argminmax(c, t):
	shape, wcs = geo.build(c["geo"]); m = enmap.ndmap(geo.data(c,tuple(c["pre"])+shape),wcs)
	pre = tuple(c["pre"])
	for name, f in (("argmax",np.argmax),("argmin",np.argmin)):
		v = np.asarray(getattr(enmap,name)(m,unit=c["unit"])); t.true(v.shape == pre+(2,), name+" shape %s" % (v.shape,))
		for I in np.ndindex(*pre):
			y, x = np.unravel_index(f(np.asarray(m)[I]), shape)
			if c["unit"] == "pix": t.eq(v[I], np.array([y,x]), name)
			else:
				p = np.array(geo.ref_pix2sky(wcs,y,x))
				if not np.all(np.isfinite(p)): continue
				t.close(v[I][0],p[0],name+" dec",rtol=0,atol=1e-9); t.close_ang(v[I][1],p[1],name+" ra",atol=1e-7)

_methods.add_law(prop)
