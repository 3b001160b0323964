import numpy as np
from harness.core import Prop, rng
from harness import methods as _methods, geo
from pixell import enmap, wcsutils
prop = Prop("P02", assumptions=["positions with |dec| < 90 deg; sky2pix in zenithal projections only on the visible side"])
DEG = np.pi/180

def gen(d):
	g = geo.gen_any(d, 1, 10)
	return {"geo":g, "seed":d.seed(), "npt":d.int(1,12), "spread":d.choice([0.0,0.5,3.0]), "corner":d.bool(), "safe":d.choice([True,True,False]),
		"turns":d.int(-3,3), "dim":d.choice([1,1,2]), "pre":geo.gen_pre(d,2)}

def points(c, shape, g):
	"""Random pixel coordinates in and around the map with legal positions"""
	r = rng(c)
	ny, nx = shape
	n = c["npt"]
	pix = np.array([r.uniform(-0.5,ny-0.5,n), r.uniform(-0.5,nx-0.5,n)])
	if c["spread"] == 0: pix = np.round(pix)
	k = r.random(n) < 0.3
	if c["spread"] >= 3:
		# outside the map
		pix[1,k] += r.uniform(-1,1,np.sum(k))*nx
	pix[0] = np.clip(pix[0], -0.5, ny-0.5); 
	if g["kind"] == "full": pix[0] = np.clip(pix[0], 0, ny-1)
	if g["kind"] == "zen": pix[1] = np.clip(pix[1], -0.5, nx-0.5)
	if c["dim"] == 2: pix = pix.reshape(2,1,-1)
	return pix

def ref_sky(g, wcs, y, x):
	return geo.cyl_pix2sky(g, y, x) if g["kind"] != "zen" else geo.ref_pix2sky(wcs, y, x)

@prop.law(gen, quick=3000, rule="every generated set of positions")
def pix_sky(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	pix  = points(c, shape, g)
	off  = 0.5 if c["corner"] else 0
	want = np.array(ref_sky(g, wcs, pix[0], pix[1]))
	pin  = pix.copy()+off
	full = tuple(c["pre"])+shape
	got  = enmap.pix2sky(full, wcs, pin, safe=c["safe"], corner=c["corner"])
	t.eq(pin, pix+off, "pix2sky modified its input")
	t.true(got.shape == pix.shape, "pix2sky shape")
	t.close(got[0], want[0], "pix2sky dec", rtol=0, atol=1e-8)
	t.close(geo.sky_dist(got, want), np.zeros(pix.shape[1:]), "pix2sky position", rtol=0, atol=1e-8)
	m = enmap.zeros(full, wcs, np.int8)
	t.eq(m.pix2sky(pin, safe=c["safe"], corner=c["corner"]), got, "ndmap.pix2sky")
	t.eq(enmap.Geometry(full, wcs).pix2sky(pin, safe=c["safe"], corner=c["corner"]), got, "Geometry.pix2sky")
	# sky2pix inverts it. Whole turns in ra don't matter
	sky = want.copy(); sky[1] += 2*np.pi*c["turns"]
	sin = sky.copy()
	back = enmap.sky2pix(full, wcs, sin, safe=True, corner=c["corner"])
	t.eq(sin, sky, "sky2pix modified its input")
	back = back-off
	wn   = abs(360/g["cdelt"][0])
	dpix = back-pix
	if g["kind"] != "zen":
		# The x coordinate is only defined modulo the circumference; safe picks the copy closest to the middle of the map
		t.close(dpix[1]-wn*np.round(dpix[1]/wn), dpix[1]*0, "sky2pix x", rtol=0, atol=1e-6+1e-11*wn)
		t.true(np.all(np.abs(back[1]+0.5-shape[1]/2.) <= wn/2+1.01), "sky2pix x is not the copy closest to the map")
		inside = np.abs(pix[1]-(shape[1]-1)/2.) < wn/2-1.5
		t.close(back[1][inside], pix[1][inside], "sky2pix x inside", rtol=0, atol=1e-6+1e-11*wn)
	else: t.close(back[1], pix[1], "sky2pix x", rtol=0, atol=1e-6)
	t.close(back[0], pix[0], "sky2pix y", rtol=0, atol=1e-6+1e-9*abs(360/g["cdelt"][1]))
	t.eq(m.sky2pix(sin, corner=c["corner"]), back+off, "ndmap.sky2pix")
	t.eq(enmap.Geometry(full, wcs).sky2pix(sin, corner=c["corner"]), back+off, "Geometry.sky2pix")
	# safe=False: equal up to whole turns
	raw = enmap.sky2pix(full, wcs, want, safe=False, corner=c["corner"])-off
	dr  = raw[1]-pix[1]
	if g["kind"] != "zen": dr = dr-wn*np.round(dr/wn)
	t.close(dr, dr*0, "sky2pix unsafe", rtol=0, atol=1e-6+1e-11*wn)
	t.close(raw[0], pix[0], "sky2pix unsafe y", rtol=0, atol=1e-6+1e-9*abs(360/g["cdelt"][1]))
	# single points work like arrays
	p0 = pix.reshape(2,-1)[:,0]
	one = enmap.pix2sky(shape, wcs, p0)
	t.true(one.shape == (2,), "pix2sky of one point")
	t.close(geo.sky_dist(one, want.reshape(2,-1)[:,0]), 0.0, "pix2sky of one point", rtol=0, atol=1e-8)
	# contains. Only decided clear of the edges
	inside = np.all((pix > 0.01)&(pix.T < np.array(shape)-1.01).T, 0) 
	outside= np.any((pix < -1)|(pix.T > np.array(shape)+1).T, 0) & ((np.abs(pix[1]-(shape[1]-1)/2.) < wn/2-2)|(g["kind"]=="zen"))
	con = enmap.contains(full, wcs, sky)
	t.true(np.all(con[inside]), "contains misses points inside the map")
	t.true(not np.any(con[outside]), "contains accepts points outside the map")
	conp = enmap.contains(full, wcs, pix, unit="pix")
	t.true(np.all(conp[inside]) and not np.any(conp[outside]), "contains pix")

def gen_far(d):
	return {"geo":geo.gen_any(d, 1, 10), "seed":d.seed(), "npt":d.int(1,12), "turns":d.int(-3,3), "corner":d.bool(), "safe":d.choice([True,True,False])}

@prop.law(gen_far, quick=1500, rule="positions anywhere on the sky")
def far_positions(c, t):
	"""sky2pix for positions anywhere on the sky, not just near the map"""
	g = c["geo"]
	shape, wcs = geo.build(g)
	r = rng(c, 5)
	off = 0.5 if c["corner"] else 0
	if g["kind"] != "zen":
		dmax = 80 if g["proj"] == "mer" else 89.9
		dec, ra = r.uniform(-dmax,dmax,c["npt"])*DEG, r.uniform(-180,180,c["npt"])*DEG
		wy, wx  = geo.cyl_sky2pix(g, dec, ra)
		# Known finding: y is wrapped too, which in Mercator can be reached
		if g["proj"] == "mer":
			ok = np.abs(wy-shape[0]/2.)*abs(g["cdelt"][1]) < 179
			if not np.any(ok): t.mark_trivial(); return
			dec, ra, wy, wx = dec[ok], ra[ok], wy[ok], wx[ok]
	else:
		# Up to 50 degrees from the reference point
		a, R = r.uniform(0,2*np.pi,c["npt"]), r.uniform(0,50,c["npt"])*DEG
		d0, r0 = g["crval"][1]*DEG, g["crval"][0]*DEG
		dec = np.arcsin(np.clip(np.sin(d0)*np.cos(R)+np.cos(d0)*np.sin(R)*np.cos(a),-1,1))
		ra  = r0+np.arctan2(np.sin(R)*np.sin(a), np.cos(R)*np.cos(d0)-np.sin(R)*np.sin(d0)*np.cos(a))
		# Standard definition of the projections
		rho = {"tan":np.tan(R), "sin":np.sin(R), "arc":R, "zea":2*np.sin(R/2)}[g["proj"]]/DEG
		wx, wy = rho*np.sin(a)/g["cdelt"][0]+g["crpix"][0]-1, rho*np.cos(a)/g["cdelt"][1]+g["crpix"][1]-1
	got = enmap.sky2pix(shape, wcs, [dec, ra+2*np.pi*c["turns"]], safe=c["safe"], corner=c["corner"])-off
	tol = 1e-6*np.maximum(1,1/np.min(np.abs(g["cdelt"])))
	t.close(got[0], wy, "y", rtol=0, atol=tol)
	wn, dx = abs(360/g["cdelt"][0]), got[1]-wx
	if g["kind"] != "zen": dx -= wn*np.round(dx/wn)
	t.close(dx, dx*0, "x", rtol=0, atol=tol)
	sky = enmap.pix2sky(shape, wcs, got+off, safe=c["safe"], corner=c["corner"])
	t.close(geo.sky_dist(sky, [dec,ra]), dec*0, "round trip", rtol=0, atol=1e-6)

def gen_pos(d):
	g = geo.gen_any(d, 1, 14)
	return {"geo":g, "corner":d.bool(), "safe":d.choice([True,True,False]), "dtype":d.choice(["float64","float32"]), "pre":geo.gen_pre(d,2),
		"sep":d.choice(["auto",True,False]), "bsize":d.choice([1,5,30,1e6]), "seed":d.seed()}

@prop.law(gen_pos, quick=2000, rule="every geometry")
def positions(c, t):
	"""posmap, posaxes, pixmap, corners, box, center, extremum positions"""
	g = c["geo"]
	shape, wcs = geo.build(g)
	full = tuple(c["pre"])+shape
	off = -0.5 if c["corner"] else 0
	y, x = np.mgrid[:shape[0],:shape[1]]
	want = np.array(ref_sky(g, wcs, y+off, x+off))
	legal= np.abs(want[0]) <= np.pi/2
	sep = c["sep"] if (c["sep"] != True or g["kind"] != "zen") else "auto"
	tol = 1e-8 if c["dtype"] == "float64" else 2e-6
	pos = enmap.posmap(full, wcs, safe=c["safe"], corner=c["corner"], separable=sep, dtype=np.dtype(c["dtype"]), bsize=c["bsize"])
	t.true(pos.dtype == np.dtype(c["dtype"]), "posmap dtype")
	t.true(pos.shape == (2,)+shape, "posmap shape")
	t.eq(pos.wcs.wcs.crpix, wcs.wcs.crpix, "posmap wcs")
	t.close(geo.sky_dist(np.asarray(pos,float), want)[legal], np.zeros(np.sum(legal)), "posmap", rtol=0, atol=tol)
	if g["kind"] != "zen":
		t.close(np.asarray(pos[0])[legal], want[0][legal], "posmap dec", rtol=0, atol=tol)
		if c["safe"]:
			# continuous over the whole map
			t.close(np.diff(pos[1].astype(float),axis=1), np.diff(want[1],axis=1), "posmap ra continuous", rtol=0, atol=10*tol)
			t.close(np.asarray(pos[1],float), np.broadcast_to(np.asarray(pos[1,:1],float),shape), "ra depends on y", rtol=0, atol=10*tol)
		dec, ra = enmap.posaxes(full, wcs, safe=c["safe"], corner=c["corner"])
		t.true(dec.shape == shape[:1] and ra.shape == shape[1:], "posaxes shape")
		t.close(dec[legal[:,0]], want[0,:,0][legal[:,0]], "posaxes dec", rtol=0, atol=1e-8)
		t.close_ang(ra, want[1,0], "posaxes ra", atol=1e-8)
		if c["safe"]: t.close(np.diff(ra), np.diff(want[1,0]), "posaxes ra continuous", rtol=0, atol=1e-8)
	elif c["safe"] and shape[1] > 1:
		# no jumps along rows
		t.true(np.all(np.abs(np.diff(np.asarray(pos[1],float),axis=1)) < np.pi+1e-3), "posmap jumps along a row")
	px = enmap.pixmap(full, wcs)
	t.eq(np.asarray(px), np.array([y,x]), "pixmap")
	t.eq(np.asarray(enmap.pixmap(full)), np.array([y,x]), "pixmap without wcs")
	# corners
	e = 0.5 if c["corner"] else 0
	cpix = np.array([[-e,-e],[shape[0]-1+e,shape[1]-1+e]])
	wc = np.array(ref_sky(g, wcs, cpix[:,0], cpix[:,1])).T
	cor= enmap.corners(full, wcs, corner=c["corner"])
	t.true(cor.shape == (2,2), "corners shape")
	t.eq(enmap.box(full, wcs, corner=c["corner"]), cor, "box")
	if np.all(np.abs(wc[:,0]) <= np.pi/2):
		t.close(geo.sky_dist(cor.T, wc.T), np.zeros(2), "corners", rtol=0, atol=1e-8)
	if g["kind"] != "zen":
		t.close(cor[1,1]-cor[0,1], wc[1,1]-wc[0,1], "corners ra range", rtol=0, atol=1e-8)
	# center
	cen = enmap.center(full, wcs)
	t.close(geo.sky_dist(cen, np.array(ref_sky(g, wcs, (shape[0]-1)/2., (shape[1]-1)/2.))), 0.0, "center", rtol=0, atol=1e-8)
	# position of extrema
	vals = rng(c).permutation(int(np.prod(full))).reshape(full).astype(float)
	m = enmap.ndmap(vals, wcs)
	for name, fun, ref in [("argmax",enmap.argmax,np.argmax),("argmin",enmap.argmin,np.argmin)]:
		want = np.array([np.unravel_index(ref(v), shape) for v in vals.reshape((-1,)+shape)]).reshape(full[:-2]+(2,))
		t.eq(fun(m, unit="pix"), want, name+" pix")
		got  = fun(m)
		wsky = ref_sky(g, wcs, want[...,0], want[...,1])
		t.close(geo.sky_dist(np.moveaxis(got,-1,0), wsky), np.zeros(full[:-2]), name+" coord", rtol=0, atol=1e-8)

def gen_box(d):
	g = d.choice([geo.gen_cyl, geo.gen_full])(d, 4, 12, flips=True)
	ny, nx = g["n"]
	def pair(n, ext): 
		a = d.int(-2,n); b = a+d.choice([1,-1])*d.int(1,max(1,ext))
		return a, b
	y1,y2 = d.int(0,ny-1), d.int(0,ny-1)
	if y1 == y2: y2 = y1+1 if y1+1 < ny else y1-1
	x1,x2 = pair(nx, int(nx*1.2))
	return {"geo":g, "pixbox":[[y1,x1],[y2,x2]], "frac":d.choice([0,0.25]), "turns":d.int(-2,2), "corner":d.bool()}

@prop.law(gen_box, quick=1500, rule="every box of nonzero size")
def boxes(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	pb = np.array(c["pixbox"],float); pb[:,1] += c["frac"]
	sky = np.array(geo.cyl_pix2sky(g, pb[:,0], pb[:,1])).T
	wn  = abs(360/g["cdelt"][0])
	sb  = sky.copy(); sb[:,1] += 2*np.pi*c["turns"]
	sin = sb.copy()
	got = enmap.skybox2pixbox(shape, wcs, sin, corner=c["corner"])
	t.eq(sin, sb, "skybox2pixbox modified its input")
	got = got-(0.5 if c["corner"] else 0)
	tol = 1e-6+1e-9*abs(360/g["cdelt"][1])
	t.close(got[:,0], pb[:,0], "skybox2pixbox y", rtol=0, atol=tol)
	t.close(got[1,1]-got[0,1], pb[1,1]-pb[0,1], "skybox2pixbox x extent", rtol=0, atol=tol)
	k = (got[0,1]-pb[0,1])/wn
	t.true(abs(k-np.round(k))*wn < tol, "skybox2pixbox x start")
	wd = enmap.skybox2pixbox(shape, wcs, sin, include_direction=True)
	t.eq(np.sign(wd[2]), np.sign(pb[1]-pb[0]), "skybox2pixbox direction")
	back = enmap.pixbox2skybox(shape, wcs, pb)
	t.close(geo.sky_dist(back.T, sky.T), np.zeros(2), "pixbox2skybox", rtol=0, atol=1e-8)

_methods.add_law(prop)
