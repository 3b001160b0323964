import numpy as np
from harness.core import Prop, rng
from harness import geo
from pixell import enmap, wcsutils, utils
prop = Prop("P03", assumptions=["box corners away from the poles; cylindrical boxes narrower than the full circle"])
DEG = np.pi/180

def lin(g):
	"""Pixel -> linear coordinates"""
	return g

# ---- Full sky and bands ----
def gen_full(d):
	ny = d.int(4,40)
	variant = d.choice(["cc","fejer1","fejer1"])
	same = d.choice([True,True,False])
	nx = 2*ny if same else d.int(4,60)
	return {"ny":ny, "nx":nx, "variant":variant, "form":d.choice(["res","res2","shape"]), "pre":geo.gen_pre(d,2), "lo":d.float(0,1), "hi":d.float(0,1), "sym":d.bool(), "bad":d.float(0.1,0.9)}

def fullsky_expect(ny, nx, variant, y=None, x=None):
	y = np.arange(ny) if y is None else np.asarray(y)
	x = np.arange(nx) if x is None else np.asarray(x)
	if variant == "cc": dec = -90+y*180./(ny-1)
	else:               dec = -90+(y+0.5)*180./ny
	return dec*DEG, -(x-nx//2)*360./nx*DEG

@prop.law(gen_full, quick=800, rule="every resolution/shape")
def fullsky(c, t):
	v  = c["variant"]; yo = 1 if v == "cc" else 0
	ny = c["ny"]+yo; nx = c["nx"]; pre = tuple(c["pre"])
	ry, rx = np.pi/(ny-yo), 2*np.pi/nx
	if   c["form"] == "shape": kw = {"shape":(ny,nx)}
	elif c["form"] == "res":
		nx = 2*c["ny"]; rx = ry; kw = {"res":ry}
	else: kw = {"res":[ry,rx]}
	shape, wcs = enmap.fullsky_geometry(dims=pre, variant=v, **kw)
	t.eq(shape, pre+(ny,nx), "fullsky shape")
	dec, ra = fullsky_expect(ny, nx, v)
	def check(geo_, rows, what):
		sh, w = geo_
		pos = enmap.posmap(sh[-2:], w)
		t.eq(pos.shape[-2:], (len(rows),nx), what+" shape")
		t.close(np.asarray(pos[0]), np.broadcast_to(dec[rows,None],pos[0].shape), what+" dec", rtol=0, atol=1e-9)
		t.close_ang(np.asarray(pos[1]), np.broadcast_to(ra[None],pos[1].shape), what+" ra", atol=1e-9)
	check((shape,wcs), np.arange(ny), "fullsky")
	t.true(wcsutils.is_cyl(wcs) and wcsutils.is_separable(wcs) and not wcsutils.is_plain(wcs) and not wcsutils.is_azimuthal("car") and wcsutils.is_azimuthal("tan"), "fullsky classification")
	# covers the whole sky: total area 4pi for fejer1
	if v == "fejer1": t.close(np.sum(np.asarray(enmap.pixsizemap(shape[-2:],wcs))), 4*np.pi, "fullsky area", rtol=1e-9)
	t.raises(AssertionError, lambda: enmap.fullsky_geometry(res=np.pi/(c["ny"]+c["bad"]), variant=v), "resolution that does not divide the sky")
	# geometry2 agrees
	if c["form"] == "res":
		s2, w2 = enmap.geometry2(res=ry, variant=v, pre=pre)
		t.eq(s2, shape, "geometry2 shape"); check((s2,w2), np.arange(ny), "geometry2")
		s2, w2 = enmap.fullsky_geometry2(res=ry/DEG, deg=True, variant=v, pre=pre)
		t.eq(s2, shape, "fullsky_geometry2 shape"); check((s2,w2), np.arange(ny), "fullsky_geometry2")
	elif c["form"] == "shape" and nx%2 == 0:
		s2, w2 = enmap.geometry2(shape=(ny,nx), variant=v, pre=pre)
		t.eq(s2, shape, "geometry2 shape"); check((s2,w2), np.arange(ny), "geometry2 from shape")
	# bands: dec cut to the nearest rows
	res = 180./(ny-yo)
	lim = 90-1.6*res
	if lim < res: return
	if c["sym"]: cut = res+(lim-res)*c["hi"]; cuts = [-cut,cut]; arg = cut*DEG
	else:
		cuts = sorted([-lim+2*lim*c["lo"], -lim+2*lim*c["hi"]]); arg = np.array(cuts)*DEG
		if cuts[1]-cuts[0] < 1.01*res: return
	yc = (np.array(cuts)+90)/res-(0 if v == "cc" else 0.5)
	if np.any(np.abs(yc%1-0.5) < 1e-6): return
	r1, r2 = np.round(yc).astype(int)
	t.label("band")
	bs, bw = enmap.band_geometry(arg, dims=pre, variant=v, **kw)
	t.eq(bs, pre+(r2-r1,nx), "band shape")
	check((bs,bw), np.arange(r1,r2), "band")
	t.true(wcsutils.is_compatible(bw, wcs), "band is not compatible with the full sky")
	if c["form"] == "res" and np.all(np.abs((yc+1e-4)%1-0.5) > 1e-3):
		b2, bw2 = enmap.band_geometry2(arg, res=ry, variant=v, pre=pre)
		t.eq(b2, bs, "band_geometry2 shape"); check((b2,bw2), np.arange(r1,r2), "band_geometry2")

# ---- geometry() ----
def gen_geometry(d):
	proj = d.choice(["car","car","cea","mer","tan","zea","arc","sin"])
	cyl  = proj in ["car","cea","mer"]
	h = d.logfloat(0.5, 40 if cyl else 8); w = d.logfloat(0.5, 120 if cyl else 8)
	dec0 = d.float(-70+h/2,70-h/2,3) if cyl else d.float(-60,60,3)
	return {"proj":proj, "h":h, "w":w, "dec0":dec0, "ra0":d.float(-300,400,3), "form":d.choice(["box_res","box_shape","center"]), "ydir":d.choice([1,1,-1]), "xdir":d.choice([-1,-1,1]),
		"n":[d.int(2,30),d.int(2,30)], "deg":d.bool(), "force":d.bool(), "pre":geo.gen_pre(d,2), "aniso":d.choice([1,1,2.5]), "ref":d.choice([None,None,None,[10.0,20.0]])}

@prop.law(gen_geometry, quick=1500, rule="every combination of box/center, res and shape")
def geometry(c, t):
	cyl = c["proj"] in ["car","cea","mer"]
	u = 1 if c["deg"] else DEG
	kw = {"proj":c["proj"], "deg":c["deg"], "pre":tuple(c["pre"]), "force":c["force"]}
	if c["ref"] is not None and cyl: kw["ref"] = [c["ref"][0]*u,c["ref"][1]*u]
	b1 = np.array([c["dec0"]-c["ydir"]*c["h"]/2, c["ra0"]-c["xdir"]*c["w"]/2])
	b2 = np.array([c["dec0"]+c["ydir"]*c["h"]/2, c["ra0"]+c["xdir"]*c["w"]/2])
	box = np.array([b1,b2])
	n = np.array(c["n"])
	res = np.array([c["h"]/n[0], c["w"]/n[1]*c["aniso"]])
	if c["form"] == "center": res = res*[1,1]
	boxin = box*u
	bcopy = boxin.copy()
	if   c["form"] == "box_res":   shape, wcs = enmap.geometry(boxin, res=res*u, **kw)
	elif c["form"] == "box_shape": shape, wcs = enmap.geometry(boxin, shape=tuple(n), **kw)
	else:
		rin = min(res) if c["aniso"] == 1 else res*[1,-1]
		if n[1]*abs(np.atleast_1d(rin)[-1]) > 170: rin = 0.5
		shape, wcs = enmap.geometry(np.array([c["dec0"],c["ra0"]])*u, res=rin*u, shape=tuple(n), **kw)
	t.eq(boxin, bcopy, "geometry modified its input")
	t.label(c["form"], c["proj"])
	t.eq(shape[:-2], tuple(c["pre"]), "pre")
	t.true(len(shape) == len(c["pre"])+2, "number of dimensions")
	ny, nx = shape[-2:]
	t.true(wcsutils.get_proj(wcs) == c["proj"], "projection")
	cy, cx = wcs.wcs.cdelt[::-1]
	exact = c["force"] and "ref" not in kw
	# The reference transform
	def topix(dec, ra):
		w = wcs.deepcopy(); w.wcs.bounds_check(False,False)
		# choose the ra within half a circle of crval
		ra = (ra-w.wcs.crval[0]+180)%360-180+w.wcs.crval[0]
		x, y = w.wcs_world2pix([ra],[dec],0)
		return np.array([y[0],x[0]])
	if c["form"] == "center":
		t.eq((ny,nx), tuple(n), "shape")
		rr = np.zeros(2)+rin if np.ndim(rin) else np.array([rin,-rin])
		t.close([cy,cx], rr, "cdelt", rtol=1e-9)
		p = topix(c["dec0"],c["ra0"])
		want = (n-1)/2.
		t.close(p, want, "center position", rtol=0, atol=1e-6 if exact and cyl else 0.5001)
	else:
		t.true(np.sign(cy)==c["ydir"] and np.sign(cx)==c["xdir"] , "axis directions don't follow the box")
		p1, p2 = topix(*b1), topix(*b2)
		if c["form"] == "box_res":
			t.close([cy,cx], res*[c["ydir"],c["xdir"]], "resolution", rtol=1e-9)
			t.true(np.all(np.abs(np.abs(p2-p1)-[ny,nx]) <= 0.5001), "size %s does not match the box (%s,%s)" % ((ny,nx),*np.abs(p2-p1)))
		else:
			t.eq((ny,nx), tuple(n), "shape")
			t.close(np.abs(p2-p1), n, "the box is not spanned exactly", rtol=1e-6)
		tol = 1e-6 if exact and cyl else 0.5001
		t.close(p1, np.array([-0.5,-0.5]), "first corner", rtol=0, atol=tol)
	# The reference point is at an integer pixel
	if cyl and not exact:
		refp = c["ref"] if "ref" in kw else [0,0]
		p = topix(*refp)
		t.close((p+0.5)%1-0.5, np.zeros(2), "reference point is not a pixel center", rtol=0, atol=1e-6)
	if not cyl and not "ref" in kw: 
		t.close_ang(np.array([wcs.wcs.crval[1],wcs.wcs.crval[0]])*DEG, np.array([c["dec0"],c["ra0"]])*DEG, "zenithal reference point", atol=1e-9)

# ---- geometry2 cropping ----
def gen_geo2(d):
	ny = d.int(10,60)
	r = 180./ny
	variant = d.choice(["safe","fejer1","cc"])
	y1 = d.int(2,ny-4); y2 = d.int(y1+1,ny-2)
	x1 = d.int(-ny,2*ny); w = d.int(1,2*ny-1)
	return {"ny":ny, "variant":variant, "rows":[y1,y2], "cols":[x1,w], "fy":d.float(0.02,0.95), "fx":d.float(0.02,0.95), "form":d.choice(["box","center"]), "deg":d.bool(), "n":[d.int(1,12),d.int(1,12)], "pre":geo.gen_pre(d,2)}

@prop.law(gen_geo2, quick=800, rule="every crop")
def geometry2(c, t):
	"""geometry2 with pos gives a window into the full-sky geometry, to within a pixel"""
	ny, v = c["ny"], c["variant"]
	r = 180./ny; nx = 2*ny; u = 1 if c["deg"] else DEG
	nyf = ny+1 if v == "cc" else ny
	# full-sky pixel -> dec, ra
	ydec = lambda y: -90+(y+(0.5 if v!="cc" else 0))*r
	xra  = lambda x: -(x-(nx//2-0.5 if v == "safe" else nx//2))*r
	y1,y2 = c["rows"]; x1 = c["cols"][0]; x2 = x1+c["cols"][1]
	if c["form"] == "box":
		pos = np.array([[ydec(y1-0.5+c["fy"]),xra(x1-0.5+c["fx"])],[ydec(y2-0.5+c["fy"]),xra(x2-0.5+c["fx"])]])
		shape, wcs = enmap.geometry2(pos*u, res=r*u, variant=v, deg=c["deg"], pre=tuple(c["pre"]))
		n = (y2-y1, x2-x1)
	else:
		pos = np.array([ydec(y1-0.5+c["fy"]),xra(x1-0.5+c["fx"])])
		shape, wcs = enmap.geometry2(pos*u, res=r*u, shape=tuple(c["n"]), variant=v, deg=c["deg"], pre=tuple(c["pre"]))
		n = tuple(c["n"])
		y1, x1 = y1-n[0]//2, x1-n[1]//2
	t.eq(shape[:-2], tuple(c["pre"]), "pre")
	yy = np.arange(n[0])+y1; xx = np.arange(n[1])+x1
	if c["form"] == "box":
		if x1%nx+n[1] > nx: t.label("wraps")
	t.eq(shape[-2:], n, "geometry2 shape")
	ok = (np.abs(ydec(yy)) <= 90)
	pos = np.array(geo.ref_pix2sky(wcs, *np.meshgrid(np.arange(n[0]),np.arange(n[1]),indexing="ij")))
	want = np.array(np.broadcast_arrays(ydec(yy)[:,None]*DEG, xra(xx)[None]*DEG))
	t.close(geo.sky_dist(pos[:,ok], want[:,ok]), np.zeros(pos[:,ok].shape[1:]), "geometry2 positions", rtol=0, atol=1e-8)

# ---- Thumbnails ----
def gen_thumb(d):
	return {"proj":d.choice(["tan","car","cea","zea","arc","sin"]), "form":d.choice(["r_res","res_shape","r_shape"]), "r":d.logfloat(0.05,3), "npix":d.int(1,20), "n":[d.int(2,25),d.int(2,25)], "pre":geo.gen_pre(d,2), "aniso":d.bool()}

@prop.law(gen_thumb, quick=500, rule="every combination of r, res and shape")
def thumbnail(c, t):
	r   = c["r"]*DEG
	res = r/c["npix"]
	pre = tuple(c["pre"])
	rr = np.array([res,res])
	if   c["form"] == "r_res":
		shape, wcs = enmap.thumbnail_geometry(r=r, res=res, proj=c["proj"], dims=pre)
		t.close(np.array(shape[-2:],float), np.full(2,2*c["npix"]+1.), "thumbnail size", rtol=0, atol=2.001 if c["npix"] > 15 else 0.001)
	elif c["form"] == "res_shape":
		rin = [res,-2*res] if c["aniso"] else res
		if c["aniso"]: rr = np.array([res,2*res])
		shape, wcs = enmap.thumbnail_geometry(res=rin, shape=tuple(c["n"]), proj=c["proj"], dims=pre)
		t.eq(shape[-2:], [n//2*2+1 for n in c["n"]], "thumbnail shape")
	else:
		shape, wcs = enmap.thumbnail_geometry(r=r, shape=tuple(c["n"]), proj=c["proj"], dims=pre)
		t.eq(shape[-2:], [n//2*2+1 for n in c["n"]], "thumbnail shape")
		rr = 2*r/(np.array(shape[-2:])-1)
	t.eq(shape[:-2], pre, "pre")
	t.true(shape[-2]%2 == 1 and shape[-1]%2 == 1, "thumbnail size must be odd")
	cy, cx = shape[-2]//2, shape[-1]//2
	dec, ra = geo.ref_pix2sky(wcs, cy, cx)
	t.close(geo.sky_dist((dec,ra),(0.,0.)), 0.0, "center pixel", rtol=0, atol=1e-12)
	# neighbors of the center are one resolution away in the right direction
	d1, a1 = geo.ref_pix2sky(wcs, cy+1, cx); d2, a2 = geo.ref_pix2sky(wcs, cy, cx+1)
	a1, a2 = (a1+np.pi)%(2*np.pi)-np.pi, (a2+np.pi)%(2*np.pi)-np.pi
	t.close([d1,-a2], rr, "thumbnail resolution", rtol=6e-3)
	t.close([a1,d2], [0,0], "thumbnail axes", rtol=0, atol=1e-9)

# ---- Derived geometries ----
def gen_derived(d):
	g = geo.gen_any(d, 3, 14)
	ny,nx = g["n"]
	def sub():
		y1 = d.int(-3,ny-1); x1 = d.int(-3,nx-1)
		return [[y1,x1],[y1+d.int(1,ny),x1+d.int(1,nx)]]
	return {"geo":g, "boxes":d.list(sub,1,4), "scale":d.choice([1,2,3,0.5,1.5,0.25,"xy"]), "f":[d.int(1,3),d.int(1,3)], "pre":geo.gen_pre(d,2), "frac":d.choice([0,0.3,0.49,0.51]), "flip":d.choice([False,False,True]),
		"mode":d.choice([None,"round","floor","ceil","inclusive","exclusive"]), "seed":d.seed(), "fc":[d.float(0,1),d.float(0,1),d.float(0,1),d.float(0,1)]}

def same_pixels(t, w1, off, w2, g, n, msg, atol=1e-7):
	"""Pixel p of w2 is pixel p+off of w1"""
	y, x = np.array([0,n[0]-1,0,n[0]-1]), np.array([0,0,n[1]-1,n[1]-1])
	yy, xx = y+off[0], x+off[1]
	if g["kind"] == "zen": 
		want = np.array(geo.ref_pix2sky(w1, yy, xx))
	else:
		gg = dict(g, crpix=[float(v) for v in w1.wcs.crpix], crval=[float(v) for v in w1.wcs.crval], cdelt=[float(v) for v in w1.wcs.cdelt])
		want = np.array(geo.cyl_pix2sky(gg, yy, xx))
	g2  = dict(g, crpix=[float(v) for v in w2.wcs.crpix], crval=[float(v) for v in w2.wcs.crval], cdelt=[float(v) for v in w2.wcs.cdelt])
	got = np.array(geo.cyl_pix2sky(g2, y, x)) if g["kind"] != "zen" else np.array(geo.ref_pix2sky(w2, y, x))
	ok = np.abs(want[0]) <= np.pi/2
	ok &= np.isfinite(want[0])&np.isfinite(got[0])
	if g["kind"] != "zen": t.close(got[0], want[0], msg, rtol=0, atol=atol)
	t.close(geo.sky_dist(got[:,ok], want[:,ok]), np.zeros(np.sum(ok)), msg, rtol=0, atol=atol)

@prop.law(gen_derived, quick=1500, rule="every set of sub-boxes")
def derived(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	pre = tuple(c["pre"])
	h0 = wcs.to_header_string()
	geos = []
	for b in c["boxes"]:
		b = np.array(b)
		# crop to a pixel box
		s, w = enmap.crop_geometry(pre+shape, wcs, pixbox=b)
		t.eq(s, pre+tuple(b[1]-b[0]), "crop_geometry shape")
		same_pixels(t, wcs, b[0], w, g, s[-2:], "crop_geometry")
		s2, w2 = enmap.subgeo(pre+shape, wcs, pixbox=np.array([b[0],b[1],[1,1]]))
		t.eq(s2, s, "subgeo shape"); same_pixels(t, wcs, b[0], w2, g, s[-2:], "subgeo")
		G = enmap.Geometry(pre+shape, wcs).submap(pixbox=np.array([b[0],b[1],[1,1]]))
		t.eq(G.shape, s, "Geometry.submap shape"); same_pixels(t, wcs, b[0], G.wcs, g, s[-2:], "Geometry.submap")
		# Crop around a point
		mid = b[0]
		s3, w3 = enmap.crop_geometry(shape, wcs, pixbox=mid, oshape=(3,4))
		t.eq(s3, (3,4), "crop around point shape"); same_pixels(t, wcs, mid-[1,2], w3, g, s3, "crop around a point")
		t.true(wcsutils.is_compatible(w, wcs) and wcsutils.is_compatible(wcs, w), "cropped geometry is compatible")
		t.eq(enmap.pixbox_of(wcs, s, w), b, "pixbox_of")
		geos.append((s[-2:],w))
		# not compatible after a fractional shift
		wf = w.deepcopy(); wf.wcs.crpix += [c["frac"],0]
		t.true(wcsutils.is_compatible(wf, wcs) == (c["frac"] == 0), "is_compatible with shift of %g" % c["frac"])
		wd = w.deepcopy(); wd.wcs.cdelt *= [1,-1]
		t.true(not wcsutils.is_compatible(wd, wcs), "is_compatible with a flipped axis")
		wd = w.deepcopy(); wd.wcs.cdelt *= 1.01
		t.true(not wcsutils.is_compatible(wd, wcs), "is_compatible with a different resolution")
	# The union is the bounding box
	us, uw = enmap.union_geometry(geos)
	bs = np.array(c["boxes"])
	lo, hi = np.min(bs[:,0],0), np.max(bs[:,1],0)
	t.eq(us, hi-lo, "union shape"); same_pixels(t, wcs, lo, uw, g, us, "union")
	# Recentering does not move pixels
	if g["kind"] != "zen":
		for name, fun in [("recenter_cyl",enmap.recenter_cyl),("recenter_geo",enmap.recenter_geo)]:
			s, w = fun(pre+shape, wcs)
			t.eq(s, pre+shape, name+" shape"); same_pixels(t, wcs, (0,0), w, g, shape, name)
		t.close(w.wcs.crpix[0], (shape[1]+1)/2., "recenter puts crpix in the middle", rtol=1e-12)
		w = wcsutils.recenter_cyl_ra(wcs, 33.0)
		same_pixels(t, wcs, (0,0), w, g, shape, "recenter_cyl_ra"); t.close(w.wcs.crval[0], 33.0, "recenter_cyl_ra crval")
		same_pixels(t, wcs, (0,0), wcsutils.fix_wcs(wcs), g, shape, "fix_wcs")
	else:
		s, w = enmap.recenter_geo(pre+shape, wcs, mode="auto")
		t.eq(s, pre+shape, "recenter_geo shape"); same_pixels(t, wcs, (0,0), w, g, shape, "recenter_geo")
		t.raises(ValueError, lambda: enmap.recenter_geo(shape, wcs, mode=True), "recentering a zenithal geometry")
	# Scaling keeps the corner of the map in place
	f = np.array(c["f"]) if c["scale"] == "xy" else np.zeros(2)+c["scale"]
	arg = f if c["scale"] == "xy" else c["scale"]
	def edge(w, p): return np.array(geo.ref_pix2sky(w, p[0]-0.5, p[1]-0.5))
	for name, (s, w) in [("scale_geometry",enmap.scale_geometry(pre+shape, wcs, arg)), ("Geometry.scale",enmap.Geometry(pre+shape, wcs).scale(arg))]:
		t.eq(s, pre+tuple(np.round(np.array(shape)*f).astype(int)), name+" shape")
		t.close(w.wcs.cdelt[::-1], wcs.wcs.cdelt[::-1]/f, name+" cdelt", rtol=1e-12)
		t.close((w.wcs.crpix-0.5)*w.wcs.cdelt, (wcs.wcs.crpix-0.5)*wcs.wcs.cdelt, name+" corner", rtol=1e-9)
	for name, (s, w) in [("downgrade_geometry",enmap.downgrade_geometry(pre+shape, wcs, c["f"])), ("Geometry.downgrade",enmap.Geometry(pre+shape, wcs).downgrade(c["f"]))]:
		t.eq(s, pre+tuple(np.array(shape)//c["f"]), name+" shape")
		t.close(w.wcs.cdelt[::-1], wcs.wcs.cdelt[::-1]*c["f"], name+" cdelt", rtol=1e-12)
		t.close((w.wcs.crpix-0.5)*w.wcs.cdelt, (wcs.wcs.crpix-0.5)*wcs.wcs.cdelt, name+" corner", rtol=1e-9)
	t.true(wcs.to_header_string() == h0, "input wcs was modified")
	t.true(wcsutils.equal(wcs, wcs.deepcopy()), "equal")
	G = enmap.Geometry(enmap.Geometry(pre+shape, wcs))
	t.true(G.shape == pre+shape and G.npix == shape[0]*shape[1] and G.nopre.shape == shape and G.with_pre((2,)).shape == (2,)+shape, "Geometry basics")

ROUND = {None:(np.round,np.round), "round":(np.round,np.round), "floor":(np.floor,np.floor), "ceil":(np.ceil,np.ceil), "inclusive":(np.floor,np.ceil), "exclusive":(np.ceil,np.floor)}
@prop.law(gen_derived, quick=1200, rule="the selected box is not empty")
def submaps_of_boxes(c, t):
	"""submap/subgeo/subinds by sky box select the pixels given by rounding the pixel coordinates of the corners"""
	g = c["geo"]
	if g["kind"] == "zen": g = dict(g, kind="cyl", proj="car", crval=[g["crval"][0],0.0])
	shape, wcs = geo.build(g)
	ny, nx = shape
	f = c["fc"]
	# pixel box in exclusive coordinates, kept away from rounding points
	def coord(v): 
		v = round(v*20)/20. # multiples of 0.05
		return v+0.01
	p1 = np.array([coord(f[0]*(ny-1)), coord(f[1]*(nx-1))])
	p2 = np.array([coord(f[2]*(ny-1)), coord(f[3]*(nx-1))])
	if np.any(np.abs(p2-p1) < 1.5): t.mark_trivial(); return
	if g["kind"] == "full" and abs(p2[1]-p1[1]) > nx*0.9: t.mark_trivial(); return
	sgn = np.sign(p2-p1).astype(int)
	box = np.array(geo.cyl_pix2sky(g, np.array([p1[0],p2[0]]), np.array([p1[1],p2[1]]))).T
	fa, fb = ROUND[c["mode"]]
	want = np.array([fa(p1+1e-4), fb(p2+1e-4)]).astype(int)
	inds = enmap.subinds(shape, wcs, box, mode=c["mode"], cap=False)
	t.eq(inds[2], sgn, "subinds direction")
	t.eq(inds[:2], want, "subinds")
	m = enmap.ndmap(geo.data(c, tuple(c["pre"])+shape), wcs)
	# Pixels from..to, going backwards if the box does
	ysel = np.arange(want[0,0],want[1,0],sgn[0]); xsel = np.arange(want[0,1],want[1,1],sgn[1])
	if len(ysel) == 0 or len(xsel) == 0: t.mark_trivial(); return
	sub = enmap.submap(m, box, mode=c["mode"])
	t.label("flip" if np.any(sgn<0) else "noflip")
	okx = (xsel >= 0)&(xsel < nx); oky = (ysel >= 0)&(ysel < ny)
	t.eq(sub.shape[-2:], (len(ysel),len(xsel)), "submap shape")
	if np.all(okx) and np.all(oky):
		t.eq(np.asarray(sub), np.asarray(m)[...,ysel,:][...,xsel], "submap values")
	swcs = sub.wcs.deepcopy(); swcs.wcs.bounds_check(False,False) # columns more than 180 degrees from crval are fine
	pos  = np.array(geo.ref_pix2sky(swcs, *np.mgrid[:len(ysel),:len(xsel)]))
	wpos = np.array(geo.cyl_pix2sky(g, *np.meshgrid(ysel,xsel,indexing="ij")))
	# rows past a pole have no position, and a row on the pole may be rounded to past it
	oky &= np.abs(wpos[0][:,0]) < np.pi/2-1e-8
	t.close(geo.sky_dist(pos, wpos)[oky], np.zeros(pos.shape[1:])[oky], "submap positions", rtol=0, atol=1e-7)
	if np.all(sgn > 0):
		s2, w2 = enmap.subgeo(m.shape, wcs, box, mode=c["mode"])
		t.eq(s2, sub.shape, "subgeo shape"); t.close(w2.wcs.crpix, sub.wcs.wcs.crpix, "subgeo wcs", rtol=1e-10)

def gen_out(d):
	g = geo.gen_cyl(d, 2, 12, maxdec=40, res=(0.1,2))
	return {"geo":g, "p":[d.int(-20,40)/20.,d.int(-20,40)/20.,d.int(-20,40)/20.,d.int(-20,40)/20.], "mode":d.choice([None,"round","floor","ceil","inclusive","exclusive"]), "rec":d.choice([False,False,True,"auto"]), "pre":geo.gen_pre(d,2), "turn":d.choice([0,0,0,1,-1]), "seed":d.seed(), "call":d.choice(["fun","method","iwcs"])}
@prop.law(gen_out, quick=1500, rule="the box reaches outside the map")
def submaps_outside(c, t):
	"""Boxes that are partly or completely outside the map: same pixel grid, zero where there is no data"""
	g = c["geo"]; shape, wcs = geo.build(g); ny, nx = shape
	nphi = 360/abs(g["cdelt"][0])
	Y = lambda y: (y+1-g["crpix"][1])*g["cdelt"][1]
	def coord(v): return round(v*20)/20.+0.01
	p1 = np.array([coord(c["p"][0]*ny), coord(c["p"][1]*nx)]); p2 = np.array([coord(c["p"][2]*ny), coord(c["p"][3]*nx)])
	# stay on the sky, and inside half a turn of the middle of the map, where there is no ambiguity
	lim = {"car":85, "cea":np.sin(85*DEG)/DEG, "mer":150}[g["proj"]]
	if np.any(np.abs(p2-p1) < 1.5) or max(abs(Y(p1[0])),abs(Y(p2[0]))) > lim: t.mark_trivial(); return
	if max(abs(p1[1]-(nx-1)/2.),abs(p2[1]-(nx-1)/2.)) > nphi/2-2: t.mark_trivial(); return
	sgn = np.sign(p2-p1).astype(int)
	box = np.array(geo.cyl_pix2sky(g, np.array([p1[0],p2[0]]), np.array([p1[1],p2[1]]))).T
	box[:,1] += 2*np.pi*c["turn"]
	fa, fb = ROUND[c["mode"]]
	want = np.array([fa(p1+1e-4), fb(p2+1e-4)]).astype(int)
	b0 = box.copy()
	t.eq(enmap.subinds(shape, wcs, box, mode=c["mode"], cap=False), np.array([want[0],want[1],sgn]), "subinds without cap")
	# Capped to the map
	capped = want.copy()
	for a, n in enumerate(shape):
		capped[:,a] = [max(want[0,a],0),min(want[1,a],n)] if sgn[a] > 0 else [min(want[0,a],n-1),max(want[1,a],-1)]
	m = enmap.ndmap(geo.data(c, tuple(c["pre"])+shape), wcs); m0 = np.array(m)
	t.eq(enmap.subinds(m.shape, wcs, box, mode=c["mode"]), np.array([capped[0],capped[1],sgn]), "subinds")
	t.eq(m.subinds(box, mode=c["mode"]), np.array([capped[0],capped[1],sgn]), "ndmap.subinds")
	t.eq(m.subinds(box, mode=c["mode"], cap=False), np.array([want[0],want[1],sgn]), "ndmap.subinds without cap")
	lo, hi = np.minimum(p1,p2), np.maximum(p1,p2)
	t.eq(enmap.subinds(m.shape, wcs, box, mode=c["mode"], cap=False, noflip=True), np.array([fa(lo+1e-4),fb(hi+1e-4),[1,1]]).astype(int), "subinds noflip")
	ysel = np.arange(want[0,0],want[1,0],sgn[0]); xsel = np.arange(want[0,1],want[1,1],sgn[1])
	if len(ysel) == 0 or len(xsel) == 0: t.mark_trivial(); return
	okx = (xsel >= 0)&(xsel < nx); oky = (ysel >= 0)&(ysel < ny)
	t.mark_trivial(np.all(okx) and np.all(oky)); t.label("partial" if np.any(okx) and np.any(oky) else "outside")
	val = np.zeros(tuple(c["pre"])+(len(ysel),len(xsel)))
	val[...,oky[:,None]&okx[None]] = m0[...,ysel[oky],:][...,xsel[okx]].reshape(m0.shape[:-2]+(-1,))
	if   c["call"] == "method": sub = m.submap(box, mode=c["mode"], recenter=c["rec"])
	elif c["call"] == "iwcs":
		other = wcs.deepcopy(); other.wcs.crpix += 3
		sub = enmap.submap(enmap.ndmap(m0.copy(),other), box, mode=c["mode"], recenter=c["rec"], iwcs=wcs)
	else: sub = enmap.submap(m, box, mode=c["mode"], recenter=c["rec"])
	t.eq(np.asarray(sub), val, "submap values")
	t.eq(np.asarray(m), m0, "submap modified the map"); t.eq(box, b0, "submap modified the box")
	go = dict(g, crpix=[float(v) for v in sub.wcs.wcs.crpix], cdelt=[float(v) for v in sub.wcs.wcs.cdelt], crval=[float(v) for v in sub.wcs.wcs.crval])
	t.close(geo.sky_dist(np.array(geo.cyl_pix2sky(go,*np.mgrid[:len(ysel),:len(xsel)])), np.array(geo.cyl_pix2sky(g,*np.meshgrid(ysel,xsel,indexing="ij")))), np.zeros(val.shape[-2:]), "submap positions", rtol=0, atol=1e-7)
	if c["rec"] is False: t.close(sub.wcs.wcs.crval, wcs.wcs.crval, "submap moved crval", rtol=1e-12)
	else: t.close(sub.wcs.wcs.crpix[0], (len(xsel)+1)/2., "submap recenter", rtol=1e-9)

def gen_ref(d):
	return {"proj":d.choice(["car","cea","tan","zea","arc"]), "dec":d.int(-60,60), "ra":d.int(-180,180), "ref":d.choice(["mid","pos","midbox"]), "deg":d.bool(), "n":[d.int(2,12),d.int(2,12)], "res":d.choice([0.25,0.5,1.0,2.0])}
@prop.law(gen_ref, quick=300, rule="every generated case")
def geometry2_ref(c, t):
	"""The reference point of geometry2 is the requested one, and is the center of the projection"""
	u = 1 if c["deg"] else DEG
	p = np.array([c["dec"],c["ra"]],float); r = c["res"]; n = np.array(c["n"])
	cyl = c["proj"] in ("car","cea")
	if cyl: p[0] = 0
	if c["ref"] == "midbox":
		# n pixels of size r on each side
		h = n*r*np.array([1,1])
		pos = np.array([p-[h[0],-h[1]],p+[h[0],-h[1]]]); kw = dict(ref="mid")
	elif c["ref"] == "mid": pos = p; kw = dict(ref="mid", shape=tuple(int(v) for v in n))
	else: pos = p; kw = dict(ref=p*u, shape=tuple(int(v) for v in n))
	shape, wcs = enmap.geometry2(pos*u, res=r*u, proj=c["proj"], deg=c["deg"], variant="any", **kw)
	if c["ref"] != "midbox": t.eq(shape[-2:], tuple(n), "shape")
	elif cyl and c["proj"] == "car": t.true(np.all(np.abs(np.array(shape[-2:])-2*n) <= 1), "shape %s of a box of %s pixels" % (shape,2*n))
	if not cyl: t.close_ang(np.array(wcs.wcs.crval[::-1])*DEG, p*DEG, "reference point", atol=1e-9)
	# The requested position is within a pixel of the middle of the map, or the requested corners are within a pixel of those of the map
	y, x = (np.array(shape[-2:])-1)/2.
	for q, w in [((y,x),p)] if c["ref"] != "midbox" else [((-.5,-.5),pos[0]),((2*y+.5,2*x+.5),pos[1])]:
		got = np.array(geo.ref_pix2sky(wcs, *q))
		t.true(geo.sky_dist(got, w*DEG) < 1.5*r*DEG, "pixel %s is at %s deg, expected %s" % (q, got/DEG, w))
	t.close(np.abs(wcs.wcs.cdelt), np.full(2,r), "resolution", rtol=1e-6)

def gen_var(d):
	return {"rule":[d.choice(["00","hh","0h","h0","0*","h*","*0","*h","**"]),d.choice(["00","hh","0h","h0","0*","h*","*0","*h","**"])], "n":[d.int(3,40),d.int(3,40)], "frac":[d.choice([0,0,0.3,0.8]),d.choice([0,0,0.3,0.8])], "sign":[d.choice([1,1,-1]),d.choice([-1,-1,1])], "proj":d.choice(["car","car","cea"]), "sep":d.bool(), "deg":d.bool()}
@prop.law(gen_var, quick=500, rule="every pixelization rule")
def variants(c, t):
	"""Full-sky pixelizations obey the rule for how pixels meet the edges of the domain"""
	u = 1 if c["deg"] else DEG
	W = [180. if c["proj"] == "car" else 360/np.pi, 360.]
	rules = [c["rule"][1],c["rule"][0]] # rule is horizontal,vertical
	want = []; res = []; bad = False
	for ax in range(2):
		rule, w = rules[ax], W[ax]
		o1 = {"0":0,"h":0.5,"*":None}[rule[0]]; o2 = {"0":0,"h":0.5,"*":None}[rule[1]]
		# resolution that would fit exactly, and then something slightly off
		r = w/(c["n"][ax]-1+(o1 or 0)+(o2 or 0))
		r *= 1+c["frac"][ax]/c["n"][ax]
		res.append(r)
		free = o1 is None or o2 is None
		if not free and c["frac"][ax]: bad = True
		if o1 is None and o2 is None:
			# centered on the domain
			k = int(np.floor(w/r+1e-6)); cen = (np.arange(k+1)-k/2.)*r
			if ax == 1: cen = cen[:-1]
		elif o2 is None: cen = -w/2+o1*r+r*np.arange(int(np.floor((w-o1*r)/r+1e-6))+1)
		elif o1 is None: cen = ( w/2-o2*r-r*np.arange(int(np.floor((w-o2*r)/r+1e-6))+1))[::-1]
		else: cen = -w/2+o1*r+r*np.arange(c["n"][ax])
		# the same point is not covered twice
		if ax == 1 and abs(cen[-1]-cen[0]-360) < 1e-7: cen = cen[:-1]
		want.append(cen*c["sign"][ax])
	if min(len(want[0]),len(want[1])) < 2: t.mark_trivial(); return # no resolution to speak of with a single pixel
	res = np.array(res)*c["sign"]; variant = ",".join(c["rule"]); kw = {"deg":c["deg"]}
	if c["sep"]: kw.update(proj=c["proj"], variant=variant)
	else: kw.update(proj=c["proj"].upper()+":"+variant)
	if bad:
		t.label("refused"); t.raises(wcsutils.PixelizationError, lambda: enmap.geometry2(res=res*u, **kw), "resolution that does not fit the rule"); return
	shape, wcs = enmap.geometry2(res=res*u, **kw)
	t.eq(shape, (len(want[0]),len(want[1])), "shape")
	t.close(wcs.wcs.cdelt[::-1], res, "resolution", rtol=1e-9)
	y = (np.arange(shape[0])+1-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1]; x = wcs.wcs.crval[0]+(np.arange(shape[1])+1-wcs.wcs.crpix[0])*wcs.wcs.cdelt[0]
	t.close(wcs.wcs.crval[1], 0.0, "crval dec"); t.close(y, want[0], "row positions", rtol=0, atol=1e-6)
	t.close((x-want[1]+180)%360-180, 0*x, "column positions", rtol=0, atol=1e-6)

def gen_fproj(d): return {"proj":d.choice(["car","cea","mer","arc","zea","sin","tan","mol","ait"]), "ny":d.int(4,40), "form":d.choice(["res","shape"]), "nx":d.int(4,60), "dec0":d.choice([None,None,0,30,-70]), "ra0":d.choice([0,45,-100]), "seed":d.seed()}
@prop.law(gen_fproj, quick=400, rule="every projection and resolution")
def fullsky_projections(c, t):
	"""Full-sky geometries in any projection: right resolution, everything on the sky that the projection can show is inside, and not much else is"""
	p = c["proj"]; zen = p in ("arc","zea","sin","tan"); kw = {"proj":p}
	if c["dec0"] is not None:
		if not zen and c["dec0"]: kw["ref"] = np.array([0,c["ra0"]])*DEG
		else: kw["ref"] = np.array([c["dec0"],c["ra0"]])*DEG
	kw["variant"] = "any"
	if c["form"] == "res":
		r = {"car":180,"cea":360/np.pi,"mer":360,"arc":360,"zea":720/np.pi,"sin":360/np.pi,"tan":360,"mol":360*2**.5/np.pi,"ait":360*2**.5/np.pi}[p]/(c["ny"]-1.)
		shape, wcs = enmap.geometry2(res=r*DEG, **kw); t.close(wcs.wcs.cdelt, [-r,r], "resolution", rtol=1e-9)
	else: shape, wcs = enmap.geometry2(shape=(c["ny"],c["nx"]), **kw); t.eq(shape, (c["ny"],c["nx"]), "shape")
	t.true(wcs.wcs.cdelt[0] < 0 < wcs.wcs.cdelt[1], "axis directions"); t.true(wcsutils.get_proj(wcs) == p, "projection")
	if "ref" in kw:
		if zen or p in ("mol","ait"): t.close_ang(np.array(wcs.wcs.crval[::-1])*DEG, kw["ref"], "reference point", atol=1e-9)
	elif zen: t.close(wcs.wcs.crval, [0,90], "default reference point")
	g = rng(c); n = 3000
	dec, ra = np.arcsin(2*g.random(n)-1), 2*np.pi*g.random(n)
	ref = np.array(wcs.wcs.crval[::-1])*DEG; dist = geo.sky_dist((dec,ra),(np.full(n,ref[0]),np.full(n,ref[1])))
	if   p == "sin": ok = dist < np.pi/2-1e-6
	elif p == "tan": ok = dist < np.arctan(180*DEG)*0.999 # the map ends at 180 degrees in the plane
	elif p == "mer": ok = np.abs(dec) < 85*DEG
	else: ok = dist < np.pi-1e-6
	dec, ra = dec[ok], ra[ok]
	w = wcs.deepcopy(); w.wcs.bounds_check(False,False)
	ra = (ra-ref[1]+np.pi)%(2*np.pi)-np.pi+ref[1]
	x, y = w.wcs_world2pix(ra/DEG, dec/DEG, 0)
	nphi = 360/abs(wcs.wcs.cdelt[0]) if p in ("car","cea","mer") else None
	tol = 1.01 if c["form"] == "res" else 0.51
	if nphi is None or c["form"] == "res": t.true(np.all((x > -tol-0.5)&(x < shape[1]-1+tol+0.5)), "columns: sky from %g to %g, but map has %d pixels" % (x.min(),x.max(),shape[1]))
	t.true(np.all((y > -tol)&(y < shape[0]-1+tol)), "rows: sky from %g to %g, but map has %d pixels" % (y.min(),y.max(),shape[0]))
	# and the map is no larger than it needs to be
	if p != "tan":
		sl = 0.12 if p != "mer" else 0.2
		t.true(y.max()-y.min() > shape[0]*(1-sl)-2.5, "map is much taller than the sky: %g of %d" % (y.max()-y.min(),shape[0])); t.true(x.max()-x.min() > shape[1]*(1-sl)-2.5, "map is much wider than the sky: %g of %d" % (x.max()-x.min(),shape[1]))
