import numpy as np, healpy
from scipy.spatial import cKDTree
from harness.core import Prop, rng
from harness import methods as _methods, geo
from pixell import enmap, utils, distances
prop = Prop("P13", assumptions=["the propagating methods (cellgrid, bubble, heap) may miss domains narrower than a pixel, as their source says, so their distances are only required to be right to about a pixel, but never too small, and exactly the distance to the domain they report"])

def vec(pos): return geo.to_vec(pos[0],pos[1])
def nearest(pos, pts):
	"""Brute force nearest-point distances. pos[2,...], pts[2,n]"""
	tree = cKDTree(vec(pts).reshape(3,-1).T); c, i = tree.query(vec(pos).reshape(3,-1).T)
	return 2*np.arcsin(np.minimum(1,c/2)).reshape(pos.shape[1:]), i.reshape(pos.shape[1:])
def pixdiag(pos):
	"""Largest distance between neighbouring pixels"""
	m = 0.
	for a,b in [((slice(1,None),slice(1,None)),(slice(None,-1),slice(None,-1))),((slice(1,None),slice(None,-1)),(slice(None,-1),slice(1,None))),((slice(1,None),),(slice(None,-1),)),((slice(None),slice(1,None)),(slice(None),slice(None,-1)))]:
		p, q = pos[(slice(None),)+a], pos[(slice(None),)+b]
		if p.size: m = max(m,np.max(geo.sky_dist(p,q)))
	return m

def gen_geo(d):
	big = d.choice([10,10,40,75])
	k = d.choice(["cyl","cyl","zen","full"])
	if k == "cyl": return geo.gen_cyl(d,1,big)
	if k == "zen": return geo.gen_zen(d,1,big)
	return geo.gen_full(d,4,max(6,big//2),flips=True)

def judge(t, v, dom, pos, pts, tol, rmax, msg):
	ref, iref = nearest(pos, pts)
	cap = ref if rmax is None else np.minimum(ref,rmax)
	v, dom = np.asarray(v), np.asarray(dom)
	t.true(v >= cap-1e-7, "%s: distance below the true one" % msg)
	t.true(v <= cap+tol, "%s: distance too large by up to %g (tolerance %g)" % (msg, np.max(v-cap), tol))
	t.true((dom >= -1)&(dom < pts.shape[1]), "%s: domain out of range" % msg)
	un = dom < 0
	if rmax is None: t.true(~un, "%s: pixel without domain" % msg)
	else:
		t.eq(v[un], np.full(np.sum(un),float(rmax)), "%s: distance beyond rmax" % msg)
		t.true(cap[un] >= rmax-tol, "%s: domain missing within rmax" % msg); t.true(v[~un] < rmax, "%s: domain beyond rmax" % msg)
	own = geo.sky_dist(pos[:,~un], pts[:,dom[~un]])
	t.close(v[~un], own, "%s: distance to the reported domain" % msg, rtol=0, atol=1e-7)

def gen_from(d):
	return {"geo":gen_geo(d), "npt":d.choice([1,1,2,3,8,30]), "kind":d.choice(["pix","near","sky","edge","same"]), "method":d.choice(["cellgrid","cellgrid","bubble","simple"]), "rmax":d.choice([None,None,"r"]), "rel":d.float(0.05,1), "step":d.choice([1024,1,3]), "call":d.choice(["fun","method","out","nodom"]), "turn":d.int(-1,1), "seed":d.seed()}
@prop.law(gen_from, quick=1500, rule="more than one pixel")
def from_points(c, t):
	shape, wcs = geo.build(c["geo"]); r = rng(c); n = c["npt"]
	pos = geo.ref_posmap(shape, wcs)
	t.mark_trivial(shape[0]*shape[1]==1)
	if not np.all(np.isfinite(pos)): t.mark_trivial(); return
	rp = lambda: pos[:,r.integers(shape[0]),r.integers(shape[1])]
	k = c["kind"]
	if   k == "pix":  pts = np.array([rp() for _ in range(n)]).T
	elif k == "near": pts = np.array([rp() for _ in range(n)]).T + r.standard_normal((2,n))*0.3*abs(np.array(c["geo"]["cdelt"][::-1])[:,None])*geo.DEG
	elif k == "edge": pts = np.array([pos[:,r.choice([0,shape[0]-1]),r.integers(shape[1])] for _ in range(n)]).T + r.standard_normal((2,n))*abs(np.array(c["geo"]["cdelt"][::-1])[:,None])*geo.DEG
	elif k == "same": pts = rp()[:,None] + 1e-3*r.standard_normal((2,n))*abs(c["geo"]["cdelt"][0])*geo.DEG
	else:             pts = np.array([np.arcsin(2*r.random(n)-1),2*np.pi*r.random(n)])
	pts[0] = np.clip(pts[0],-np.pi/2,np.pi/2)
	if c["geo"]["kind"] == "cyl" and c["geo"]["proj"] == "mer": pts[0] = np.clip(pts[0],-1.55,1.55)
	# points that can't be represented in the projection are outside the assumptions
	if c["geo"]["kind"] == "zen" and np.any(geo.sky_dist(pts,np.array(c["geo"]["crval"][::-1])[:,None]*geo.DEG)>1.5): t.mark_trivial(); return
	pts[1] += 2*np.pi*c["turn"]; p0 = pts.copy()
	ref, _ = nearest(pos,pts)
	diag = pixdiag(pos)
	rmax = None if c["rmax"] is None else float(np.max(ref)*c["rel"]+1e-4)
	m = c["method"]; tol = 1e-7 if m == "simple" else 1.5*diag+1e-7
	# A single point has a single domain
	if n == 1 and c["geo"]["kind"] != "zen" and rmax is None: tol = 1e-7
	kw = dict(method=m, rmax=rmax, step=c["step"])
	if c["call"] == "method":
		v, dom = enmap.zeros((2,)+shape,wcs).distance_from(pts, domains=True, **kw)
		t.eq(np.asarray(enmap.zeros((2,)+shape,wcs).distance_from(pts, **kw)), np.asarray(v), "method result depends on domains")
	elif c["call"] == "out":
		o, od = enmap.full(shape,wcs,99.), enmap.full(shape,wcs,77,np.int32)
		v, dom = enmap.distance_from(shape,wcs,pts,omap=o,odomains=od,domains=True,**kw); t.eq(np.asarray(v),np.asarray(o),"omap"); t.eq(np.asarray(dom),np.asarray(od),"odomains")
	else: v, dom = enmap.distance_from(shape,wcs,pts,domains=True,**kw)
	if c["call"] == "nodom": t.eq(np.asarray(enmap.distance_from(shape,wcs,pts,**kw)), np.asarray(v), "result depends on domains")
	t.eq(pts, p0, "points modified")
	t.true(v.shape == shape and dom.shape == shape, "shape")
	judge(t, v, dom, pos, pts, tol, None if m == "simple" else rmax, "distance_from(%s)" % m)

def gen_mask(d):
	return {"geo":gen_geo(d), "pre":geo.gen_pre(d,2), "frac":d.choice([0.01,0.1,0.5,0.9,0.99]), "blob":d.bool(), "method":d.choice(["cellgrid","cellgrid","bubble","simple"]), "rmax":d.choice([None,None,"r"]), "rel":d.float(0.05,1), "nlab":d.int(1,4), "dtype":d.choice(["bool","uint8","int8"]), "seed":d.seed()}
def make_mask(c, shape, r):
	m = r.random(shape) > c["frac"]
	if c["blob"]:
		# blocks of bad pixels
		m = np.ones(shape,bool)
		for _ in range(int(r.integers(1,4))):
			y, x = r.integers(shape[0]), r.integers(shape[1]); h, w = r.integers(1,1+max(1,shape[0]//2)), r.integers(1,1+max(1,shape[1]//2))
			m[y:y+h,x:x+w] = False
	return m
@prop.law(gen_mask, quick=700, rule="the mask has good and bad pixels")
def transforms(c, t):
	shape, wcs = geo.build(c["geo"]); r = rng(c); pre = tuple(c["pre"])
	pos = geo.ref_posmap(shape,wcs)
	if not np.all(np.isfinite(pos)): t.mark_trivial(); return
	diag = pixdiag(pos); tol = 1.5*diag+1e-7
	masks = np.array([make_mask(c,shape,r) for _ in range(int(np.prod(pre,dtype=int)))]).reshape(pre+shape)
	M = enmap.ndmap(masks.astype(c["dtype"]),wcs)
	span = float(np.max(nearest(pos,pos[:,:1,:1].reshape(2,1))[0]))
	rmax = None if c["rmax"] is None else span*c["rel"]+1e-4
	v = M.distance_transform(rmax=rmax, method=c["method"])
	t.eq(np.asarray(M), masks.astype(c["dtype"]), "mask modified")
	t.true(v.shape == M.shape, "shape")
	for I in np.ndindex(*pre):
		m, d = masks[I], np.asarray(v)[I]
		t.mark_trivial(np.all(m) or not np.any(m))
		t.eq(d[~m], np.zeros(np.sum(~m)), "distance inside the masked region")
		if np.all(m): t.eq(d, np.full(shape, np.inf if rmax is None or c["method"]=="never" else rmax), "nothing masked"); continue
		ref = nearest(pos,pos[:,~m])[0]
		cap = ref if rmax is None or c["method"] == "simple" else np.minimum(ref,rmax)
		t.true(d[m] >= cap[m]-1e-7, "distance_transform(%s) too small" % c["method"]); t.true(d[m] <= cap[m]+tol, "distance_transform(%s) too large by %g, tolerance %g" % (c["method"], np.max((d-cap)[m],initial=0), tol))
		# attained by a pixel of the mask
		near = ref<1e-9
		nb = np.zeros(shape,bool); nb[1:] |= ~m[:-1]; nb[:-1] |= ~m[1:]; nb[:,1:] |= ~m[:,:-1]; nb[:,:-1] |= ~m[:,1:]
		t.true(d[m&nb] <= diag+1e-7, "distance next to the mask is more than a pixel")
	# grow and shrink
	rad = float(rmax if rmax is not None else span*0.3+1e-3)
	B = enmap.ndmap(masks,wcs)
	for name, f in [("grow",enmap.grow_mask),("shrink",enmap.shrink_mask)]:
		g = np.asarray(f(B,rad)); t.true(g.dtype == bool, name+" dtype")
		for I in np.ndindex(*pre):
			m = masks[I]
			if name == "grow":
				ref = nearest(pos,pos[:,m])[0] if np.any(m) else np.full(shape,np.inf)
				t.true(g[I][ref < rad-tol], "grow_mask missed pixels"); t.true(~g[I][ref > rad+1e-7], "grow_mask grew too far"); t.true(g[I][m], "grow_mask lost pixels")
			else:
				ref = nearest(pos,pos[:,~m])[0] if np.any(~m) else np.full(shape,np.inf)
				t.true(~g[I][ref < rad-tol], "shrink_mask kept pixels"); t.true(g[I][ref > rad+1e-7], "shrink_mask removed too much")
	# labeled
	lab = np.where(masks, 0, r.integers(1,c["nlab"]+1,masks.shape)).astype(np.int32)
	if c["blob"]: lab = np.where(masks,0,1+(np.arange(shape[1])//max(1,shape[1]//3))%c["nlab"]).astype(np.int32)
	L = enmap.ndmap(lab.copy(),wcs)
	v, dom = enmap.labeled_distance_transform(L, rmax=rmax, method=c["method"])
	t.eq(np.asarray(L),lab,"labels modified")
	ov, od = enmap.full(L.shape,wcs,99.), enmap.zeros(L.shape,wcs,np.int32)
	v2, dom2 = L.labeled_distance_transform(omap=ov, odomains=od, rmax=rmax, method=c["method"])
	t.eq(np.asarray(ov), np.asarray(v), "labeled_distance_transform omap"); t.eq(np.asarray(od), np.asarray(dom), "labeled_distance_transform odomains")
	t.eq(np.asarray(v2), np.asarray(v), "ndmap.labeled_distance_transform"); t.eq(np.asarray(dom2), np.asarray(dom), "ndmap.labeled_distance_transform domains")
	for I in np.ndindex(*pre):
		l, d, dd = lab[I], np.asarray(v)[I], np.asarray(dom)[I]
		t.eq(d[l>0], np.zeros(np.sum(l>0)), "distance inside labels")
		out = l == 0
		if not np.any(l): continue
		ref = nearest(pos,pos[:,l>0])[0]; cap = ref if rmax is None or c["method"] == "simple" else np.minimum(ref,rmax)
		t.true(d[out] >= cap[out]-1e-7, "labeled distance too small"); t.true(d[out] <= cap[out]+tol, "labeled distance too large")
		for k in range(1,c["nlab"]+1):
			sel = (dd == k)&out
			if not np.any(sel): continue
			t.true(np.any(l==k), "label %d is not in the map" % k)
			rk = nearest(pos,pos[:,l==k])[0]
			t.true(np.abs(d[sel]-rk[sel]) <= tol, "distance to the reported label"); t.true(rk[sel] >= ref[sel]-1e-9, "?")
		t.true(np.isin(dd[out & (d < (np.inf if rmax is None else rmax))], np.unique(l[l>0])), "label of pixels closer than rmax")

def gen_apod(d): return {"geo":geo.gen_any(d,2,14), "pre":geo.gen_pre(d,2), "w":[d.int(0,7),d.int(0,7)], "single":d.bool(), "profile":d.choice(["cos","lin"]), "fill":d.choice(["zero","mean","median","crossfade"]), "inplace":d.bool(), "seed":d.seed(), "edge":d.bool(), "frac":d.float(0,0.5), "width":d.float(0.05,3), "dtype":d.choice(["float64","float32"])}
@prop.law(gen_apod, quick=800, rule="nonzero width")
def apodization(c, t):
	shape, wcs = geo.build(c["geo"]); pre = tuple(c["pre"])
	w = [min(x,n//2) for x,n in zip(c["w"],shape)]
	if c["single"]: w = [min(w)]*2
	t.mark_trivial(max(w)==0)
	a = geo.data(c,pre+shape,c["dtype"]); m = enmap.ndmap(a.copy(),wcs)
	pf = {"cos":lambda x: 0.5*(1-np.cos(np.pi*x)),"lin":lambda x: x}[c["profile"]]
	out = enmap.apod(m, w[0] if c["single"] else w, profile=c["profile"], fill=c["fill"], inplace=c["inplace"])
	if c["inplace"]: t.true(np.shares_memory(out,m), "inplace")
	else: t.eq(np.asarray(m),a,"apod modified its input")
	t.eq(np.asarray(enmap.ndmap(a.copy(),wcs).apod(w[0] if c["single"] else w, profile=c["profile"], fill=c["fill"])), np.asarray(out), "ndmap.apod")
	ref = a.astype(float)
	off = 0
	if c["fill"] == "mean": off = ref.mean((-2,-1))[...,None,None]
	if c["fill"] == "median": off = np.median(ref,(-2,-1))[...,None,None]
	ref = ref-off
	for ax in (-2,-1):
		n, ww = shape[ax], w[ax]
		A = np.moveaxis(ref,ax,-1).copy(); B = A.copy()
		for i in range(ww):
			if c["fill"] == "crossfade":
				# pixel i and the corresponding pixel at the other end are blended so that they meet half way
				p = pf((ww-i)/(2*ww+1.)); q = pf((i+1)/(2*ww+1.))
				B[...,i] = A[...,i]*(1-p)+A[...,n-ww+i]*p
				B[...,n-ww+i] = A[...,n-ww+i]*(1-q)+A[...,i]*q
			else:
				p = pf((i+1.)/(ww+1))
				B[...,i] = B[...,i]*p; B[...,n-1-i] = B[...,n-1-i]*p
		ref = np.moveaxis(B,-1,ax)
	t.close(np.asarray(out), ref+off, "apod", rtol=1e-5 if c["dtype"]=="float32" else 1e-11, atol=1e-5 if c["dtype"]=="float32" else 1e-12)
	# apod_mask
	mask = enmap.ndmap(rng(c).random(pre+shape)>c["frac"],wcs); m0 = np.array(mask)
	width = c["width"]*abs(c["geo"]["cdelt"][1])*geo.DEG*3
	if not np.all(np.isfinite(geo.ref_posmap(shape,wcs))): return
	P = {"cos":enmap.apod_profile_cos,"lin":enmap.apod_profile_lin}[c["profile"]]
	o = enmap.apod_mask(mask, width, edge=c["edge"], profile=P)
	t.eq(np.asarray(mask),m0,"apod_mask modified its input")
	e = m0.copy()
	if c["edge"]: e[...,0,:] = e[...,-1,:] = False; e[...,:,0] = e[...,:,-1] = False
	r = np.asarray(enmap.distance_transform(enmap.ndmap(e,wcs),rmax=width))
	t.close(np.asarray(o), pf(r/width), "apod_mask", rtol=1e-9, atol=1e-12)
	t.eq(np.asarray(o)[~e], np.zeros(np.sum(~e)), "apod_mask nonzero in bad region")
	if c["profile"] == "cos": t.close(np.asarray(enmap.apod_mask(mask,width,edge=c["edge"])), np.asarray(o), "default profile", rtol=1e-12, atol=1e-14)

def gen_inp(d): return {"n":[d.int(2,12),d.int(2,12)], "pre":geo.gen_pre(d,2), "frac":d.float(0.05,0.7), "seed":d.seed()}
@prop.law(gen_inp, quick=300, rule="some pixels are masked")
def inpaint(c, t):
	shape = tuple(c["n"]); wcs = geo.make_wcs("car",[0,0],[-1,1],[1,1]); r = rng(c)
	mask = r.random(shape) < c["frac"]
	t.mark_trivial(not np.any(mask))
	if not np.any(mask) or np.all(mask): t.mark_trivial(); return
	a = geo.data(c,tuple(c["pre"])+shape); m = enmap.ndmap(a.copy(),wcs)
	o = np.asarray(enmap.inpaint(m, enmap.ndmap(mask,wcs)))
	t.eq(np.asarray(m),a,"map modified")
	t.eq(o[...,~mask], a[...,~mask], "unmasked pixels changed")
	gy, gx = np.nonzero(~mask)
	for y,x in zip(*np.nonzero(mask)):
		d = (gy-y)**2+(gx-x)**2; ok = d == d.min()
		vals = a[...,gy[ok],gx[ok]]
		t.true(np.any(vals == o[...,y,x][...,None],-1), "inpainted value at %d,%d is not that of a nearest good pixel" % (y,x))

def gen_hp(d): return {"nside":d.choice([1,2,4,8,16]), "npt":d.choice([0,1,1,2,6,20]), "method":d.choice(["bubble","heap"]), "rmax":d.choice([None,None,"r"]), "rel":d.float(0.02,1), "frac":d.choice([0,0.01,0.1,0.5,0.9,1]), "pre":geo.gen_pre(d,2), "nlab":d.int(1,3), "seed":d.seed(), "cap":d.bool()}
@prop.law(gen_hp, quick=700, rule="at least one point")
def healpix(c, t):
	ns = c["nside"]; npix = 12*ns**2; r = rng(c)
	th, ph = healpy.pix2ang(ns,np.arange(npix)); pos = np.array([np.pi/2-th,ph])
	tol = 2.2*healpy.nside2resol(ns); rmax = None if c["rmax"] is None else 3.1*c["rel"]
	n = c["npt"]; pts = np.array([np.arcsin(2*r.random(n)-1),2*np.pi*r.random(n)])
	v, dom = enmap.distance_from_healpix(ns, pts, domains=True, rmax=rmax, method=c["method"])
	t.mark_trivial(n==0)
	if n == 0: t.eq(v,np.full(npix,np.inf if rmax is None else rmax),"no points"); t.eq(dom,np.full(npix,-1),"no points")
	else: judge(t, v, dom, pos, pts, tol, rmax, "distance_from_healpix")
	t.eq(np.asarray(enmap.distance_from_healpix(ns,pts,rmax=rmax,method=c["method"])), np.asarray(v), "result depends on domains")
	pre = tuple(c["pre"])
	mask = r.random(pre+(npix,)) >= c["frac"]
	if c["cap"]: mask = np.broadcast_to(geo.sky_dist(pos,np.array([0.3,2.])[:,None])>3.3*c["frac"]+0.01,pre+(npix,)).copy()
	m0 = mask.copy()
	v = enmap.distance_transform_healpix(mask, rmax=rmax, method=c["method"]); t.eq(mask,m0,"mask modified")
	t.true(v.shape == mask.shape, "shape")
	lab = np.where(mask,0,r.integers(1,c["nlab"]+1,mask.shape)).astype(np.int32)
	lv, ld = enmap.labeled_distance_transform_healpix(lab, rmax=rmax, method=c["method"])
	for I in np.ndindex(*pre):
		m = mask[I]
		t.eq(v[I][~m], np.zeros(np.sum(~m)), "inside the mask"); t.eq(lv[I][~m],np.zeros(np.sum(~m)),"inside labels")
		if np.all(m): t.eq(v[I],np.full(npix,np.inf if rmax is None else rmax),"nothing masked"); continue
		if not np.any(m): continue
		ref = nearest(pos,pos[:,~m])[0]; cap = ref if rmax is None else np.minimum(ref,rmax)
		for d, name in [(v[I],"distance_transform_healpix"),(lv[I],"labeled_distance_transform_healpix")]:
			t.true(d[m] >= cap[m]-1e-7, name+" too small"); t.true(d[m] <= cap[m]+tol, name+" too large by %g" % np.max((d-cap)[m]))
		for k in range(1,c["nlab"]+1):
			sel = (ld[I]==k)&m
			if np.any(sel):
				t.true(np.any(lab[I]==k), "label not in map"); rk = nearest(pos,pos[:,lab[I]==k])[0]; t.true(np.abs(lv[I]-rk)[sel] <= tol, "distance to the reported label")
		t.true(ld[I][m&(lv[I] < (np.inf if rmax is None else rmax))] > 0, "pixel without label")

def gen_edge(d): return {"n":[d.int(1,10),d.int(1,10)], "frac":d.float(0,1), "seed":d.seed(), "nside":d.choice([1,2,4])}
@prop.law(gen_edge, quick=500)
def edges(c, t):
	r = rng(c); ny, nx = c["n"]
	mask = r.random((ny,nx)) > c["frac"]; lab = np.where(mask,0,r.integers(1,4,(ny,nx))).astype(np.int32)
	def ref(sel, same):
		out = set()
		for y in range(ny):
			for x in range(nx):
				if not sel[y,x]: continue
				if y in (0,ny-1) or x in (0,nx-1) or any(not same(y,x,y+dy,x+dx) for dy,dx in ((0,1),(0,-1),(1,0),(-1,0))): out.add((y,x))
		return out
	e = distances.find_edges(mask); t.true(set(zip(*[x.tolist() for x in e])) == ref(~mask, lambda y,x,y2,x2: mask[y2,x2]==mask[y,x]), "find_edges")
	e = distances.find_edges_labeled(lab); t.true(set(zip(*[x.tolist() for x in e])) == ref(lab>0, lambda y,x,y2,x2: lab[y2,x2]==lab[y,x]), "find_edges_labeled")
	e1 = distances.find_edges(mask,flat=True); t.true(set(e1.tolist()) == set((np.ravel_multi_index(distances.find_edges(mask),mask.shape)).tolist()), "flat")
	ns = c["nside"]; info = distances.healpix_info(ns); pix = np.arange(12*ns**2)
	p2 = distances.unravel_healpix(info,pix); t.eq(distances.ravel_healpix(info,p2),pix,"ravel_healpix(unravel_healpix)")
	th, ph = healpy.pix2ang(ns,pix)
	t.close(np.asarray(info.dec)[p2[0]], np.pi/2-th, "healpix dec", rtol=0, atol=1e-12); t.close_ang(np.asarray(info.ra0)[p2[0]]+2*np.pi/np.asarray(info.nx)[p2[0]]*p2[1], ph, "healpix ra", atol=1e-10)
	# A healpix pixel has the four pixels it shares an edge with as neighbours
	nb = healpy.get_all_neighbours(ns,pix)[::2]
	if ns <= 4 or c["seed"]%8 == 0:
		for i in (pix if len(pix)<200 else rng(c,9).choice(pix,150,replace=False)): q = distances.ravel_healpix(info,np.array(distances.get_healpix_neighs(info,int(p2[0][i]),int(p2[1][i])),dtype=p2.dtype)); t.true(sorted(np.asarray(q).tolist())==sorted(nb[:,i].tolist()),"healpix neighbours of pixel %d at nside %d: %s, should be %s" % (i,ns,sorted(np.asarray(q).tolist()),sorted(nb[:,i].tolist())))
	hm = (rng(c,10).uniform(size=len(pix))<.7); e = distances.find_edges_healpix(info,hm); t.eq(np.sort(np.asarray(e)),np.where(~hm & np.any(hm[nb]!=hm,0))[0],"find_edges_healpix")
	hl = np.maximum(rng(c,11).integers(-2,3,len(pix)),0).astype(np.int32); e = distances.find_edges_labeled_healpix(info,hl); t.eq(np.sort(np.asarray(e)),np.where((hl>0) & np.any(hl[nb]!=hl,0))[0],"find_edges_labeled_healpix")

_methods.add_law(prop)
