import numpy as np, healpy
from harness.core import Prop, rng
from harness import geo, sht
from pixell import enmap, curvedsky, utils
prop = Prop("P14", assumptions=["lmax >= the largest spin, which ducc requires", "at least one pixel of the map is on the sky", "the tolerance is ducc's: 1e-9 in double precision, 'epsilon' for the general method, 2e-4 in single precision"])

def layout(d, lmax):
	mmax = lmax if d.bool() else d.int(0,lmax)
	return {"lmax":lmax,"mmax":mmax,"layout":d.choice(["tri","tri","rect","pad"]) if mmax!=lmax or d.bool() else "none"}
def make_ainfo(c):
	"""-> ainfo, index of each of sht.lms in the array"""
	l, m, lay = c["lmax"], c["mmax"], c["layout"]
	ll = sht.lms(l,m)
	if lay in ["tri","none"]: return (curvedsky.alm_info(lmax=l,mmax=m) if lay=="tri" else None), np.arange(len(ll)), len(ll)
	if lay == "rect":
		return curvedsky.alm_info(lmax=l,mmax=m,layout="rect"), np.array([b*(l+1)+a for a,b in ll]), (m+1)*(l+1)
	# the layout of a larger alm, of which we only use a part
	L = l+3; big = sht.lms(L,L); ind = {k:i for i,k in enumerate(big)}
	mstart = np.array([ind[(b,b)]-b for b in range(m+1)])
	return curvedsky.alm_info(lmax=l,mmax=m,layout=mstart), np.array([ind[k] for k in ll]), None
def embed(a, ind, n, r):
	"""Put the coefficients in the array, with garbage in the unused places"""
	if n is None: n = int(ind.max())+1
	out = 1e3*(r.standard_normal(a.shape[:-1]+(n,))+1j*r.standard_normal(a.shape[:-1]+(n,)))
	out[...,ind] = a; return out
SPINS = [[0],[0,2],[2],[1],[0,1,2],[0,0],[3],[0,2,0]]
def comps(spin): return sum(1 if s==0 else 2 for s in spin)
def ref_comps(a, pos, lmax, mmax, spin):
	"""a[ncomp,nlm] -> [ncomp,npix]"""
	out, i, k = [], 0, 0
	while i < len(a):
		s = spin[k%len(spin)]; n = 1 if s==0 else 2
		out.append(sht.synth(a[i:i+n],pos,lmax,mmax,s)); i += n; k += 1
	return np.concatenate(out)
def methods(shape, wcs):
	m = curvedsky.get_method(shape,wcs); i = curvedsky.analyse_geometry(shape,wcs)
	return ["auto","general"]+(["cyl"] if m!="general" else [])+(["2d"] if i.ducc_geo is not None else [])
def tolof(dtype, method, c): return 3e-4 if dtype=="float32" else (1e-5 if c["eps"]==1e-6 else 1e-8)

def gen_synth(d):
	spin = d.choice(SPINS); lmax = d.int(max(spin+[0]),8)
	c = {"geo":sht.gen_sht(d),"spin":spin,"rep":d.choice([1,1,2]),"pre":geo.gen_pre(d,2,2),"plain":d.bool(),"dtype":d.choice(["float64","float64","float32"]),"method":d.int(0,3),"eps":d.choice([1e-6,1e-11]),"nthread":d.choice([None,1,3]),"copy":d.bool(),"order":d.choice(["C","view"]),"seed":d.seed()}
	c.update(layout(d,lmax)); return c
@prop.law(gen_synth, quick=1100, rule="lmax > 0 and more than one pixel on the sky")
def synthesis(c, t):
	shape, wcs = geo.build(c["geo"]); r = rng(c); spin = c["spin"]
	pos = sht.posmap(c["geo"] if "geo" in c else g); ok = np.all(np.isfinite(pos),0)
	if not ok.any(): t.mark_trivial(); return
	t.mark_trivial(c["lmax"]==0 or ok.sum()<2)
	pre = tuple(c["pre"]); nc = comps(spin)*c["rep"]
	if c["plain"] and nc == 1: full = ()
	else: full = pre+(nc,)
	ainfo, ind, n = make_ainfo(c)
	a0 = sht.rand_alm(r,full or (1,),c["lmax"],c["mmax"])
	alm = embed(a0,ind,n,r)
	if not full: alm = alm[0]
	ctype = np.result_type(c["dtype"],0j); alm = alm.astype(ctype)
	ms = methods(shape,wcs); me = ms[c["method"]%len(ms)]
	base = np.full(full+shape,7.,c["dtype"])
	if c["order"] == "view": base = np.full(full+(shape[0],2*shape[1]),7.,c["dtype"])[...,::2]
	m = enmap.ndmap(base,wcs); keep = alm.copy()
	kw = {"epsilon":c["eps"] if c["dtype"]=="float64" else 1e-5} if me in ["auto","general"] else {}
	res = curvedsky.alm2map(alm,m,spin=spin,method=me,ainfo=ainfo,nthread=c["nthread"],copy=c["copy"],**kw)
	t.label("method %s" % me, "%s" % c["geo"]["kind"], c["layout"], "spin %s" % spin)
	t.eq(alm, keep, "alm was modified")
	if c["copy"]: t.eq(m, np.full(full+shape,7.,c["dtype"]), "copy=True modified the map")
	else: t.eq(m, res, "the map argument holds the result")
	t.true(res.dtype==np.dtype(c["dtype"]) and res.shape==full+shape, "dtype and shape")
	res = np.asarray(res,float).reshape((-1,nc)+shape); a0 = a0.reshape(-1,nc,a0.shape[-1])
	for i in range(len(res)):
		ref = ref_comps(a0[i],pos[:,ok],c["lmax"],c["mmax"],spin)
		t.close(res[i][:,ok],ref,"alm2map method %s on %s" % (me,c["geo"]["kind"]),rtol=tolof(c["dtype"],me,c),scale=np.max(np.abs(ref))+np.max(np.abs(a0[i])))

def gen_deriv(d):
	c = {"geo":sht.gen_sht(d),"pre":geo.gen_pre(d,2,2),"method":d.int(0,3),"eps":d.choice([1e-6,1e-11]),"copy":d.bool(),"seed":d.seed()}
	c.update(layout(d,d.int(1,8))); return c
@prop.law(gen_deriv, quick=350, rule="more than one pixel on the sky")
def gradient(c, t):
	shape, wcs = geo.build(c["geo"]); r = rng(c)
	pos = sht.posmap(c["geo"] if "geo" in c else g); ok = np.all(np.isfinite(pos),0)
	if not ok.any(): t.mark_trivial(); return
	t.mark_trivial(ok.sum()<2)
	pre = tuple(c["pre"]); ainfo, ind, n = make_ainfo(c)
	a0 = sht.rand_alm(r,pre,c["lmax"],c["mmax"]); alm = embed(a0,ind,n,r)
	ms = methods(shape,wcs); me = ms[c["method"]%len(ms)]
	m = enmap.full(pre+(2,)+shape,wcs,3.)
	kw = {"epsilon":c["eps"]} if me in ["auto","general"] else {}
	res = np.asarray(curvedsky.alm2map(alm,m,deriv=True,method=me,ainfo=ainfo,copy=c["copy"],**kw)).reshape((-1,2)+shape)
	a0 = a0.reshape(-1,a0.shape[-1])
	for i in range(len(res)):
		ref = sht.deriv(a0[i],pos[:,ok],c["lmax"],c["mmax"]); ref[0] *= -1
		t.close(res[i][:,ok],ref,"gradient, method %s" % me,rtol=tolof("float64",me,c),scale=np.max(np.abs(ref))+np.max(np.abs(a0[i])))

def gen_pos(d):
	spin = d.choice(SPINS); c = {"spin":spin,"pre":geo.gen_pre(d,2,2),"plain":d.bool(),"shape":[d.int(1,6) for _ in range(d.int(1,3))],"how":d.choice(["pos","loc"]),"turns":d.int(0,2),"pole":d.bool(),"deriv":d.choice([False,False,True]),"dtype":d.choice(["float64","float64","float32"]),"map":d.bool(),"seed":d.seed()}
	c.update(layout(d,d.int(max(spin+[1]),8))); return c
@prop.law(gen_pos, quick=600, rule="every generated case")
def positions(c, t):
	r = rng(c); shape = tuple(c["shape"]); spin = c["spin"]; nc = comps(spin)
	pos = np.array([np.arcsin(r.uniform(-1,1,shape)),r.uniform(0,2*np.pi,shape)])
	if c["pole"]:
		pos[0].reshape(-1)[0] = np.pi/2*r.choice([-1,1]); pos[1].reshape(-1)[-1] = 0
	arg = pos.copy()
	if c["how"] == "pos": arg[1] += 2*np.pi*r.integers(-c["turns"],c["turns"]+1,shape)
	full = tuple(c["pre"])+(nc,) if not c["deriv"] else tuple(c["pre"])
	if c["plain"] and nc == 1: full = ()
	ainfo, ind, n = make_ainfo(c)
	a0 = sht.rand_alm(r,full,c["lmax"],c["mmax"]); alm = embed(a0,ind,n,r).astype(np.result_type(c["dtype"],0j))
	kw = {"pos":arg} if c["how"]=="pos" else {"loc":np.moveaxis(np.array([np.pi/2-arg[0],arg[1]]),0,-1).copy()}
	keep = {k:v.copy() for k,v in kw.items()}
	if c["map"] and len(shape)==1: kw["map"] = np.full(full+((2,) if c["deriv"] else ())+shape,5.,c["dtype"])
	res = curvedsky.alm2map_pos(alm,ainfo=ainfo,spin=spin,deriv=c["deriv"],**kw)
	for k in keep: t.eq(kw[k],keep[k],"%s was modified" % k)
	t.label("deriv" if c["deriv"] else "spin %s" % spin, c["how"])
	t.true(res.shape==full+((2,) if c["deriv"] else ())+shape,"output shape %s" % (res.shape,))
	t.true(res.dtype==np.dtype(c["dtype"]),"output dtype")
	flat = pos.reshape(2,-1); tol = 3e-4 if c["dtype"]=="float32" else 1e-8
	if c["deriv"]:
		res = np.asarray(res).reshape((-1,2,flat.shape[1])); a0 = a0.reshape(-1,a0.shape[-1])
		refs = [sht.deriv(a,flat,c["lmax"],c["mmax"])*np.array([[-1],[1]]) for a in a0]
	else:
		res = np.asarray(res).reshape((-1,nc,flat.shape[1])); a0 = a0.reshape((-1,nc,a0.shape[-1]))
		refs = [ref_comps(a,flat,c["lmax"],c["mmax"],spin) for a in a0]
	for x, ref in zip(res,refs): t.close(x,ref,"alm2map_pos",rtol=tol,scale=np.max(np.abs(ref))+np.max(np.abs(a0)))

def gen_heal(d):
	spin = d.choice(SPINS); c = {"spin":spin,"nside":d.choice([1,2,4,3,5]),"pre":geo.gen_pre(d,2,2),"plain":d.bool(),"deriv":d.choice([False,False,True]),"dtype":d.choice(["float64","float64","float32"]),"lim":d.choice([None,None,"min","max","both"]),"t1":d.float(0.1,1.5),"t2":d.float(1.55,3.0),"given":d.bool(),"seed":d.seed()}
	c.update(layout(d,d.int(max(spin+[1]),7))); return c
@prop.law(gen_heal, quick=400, rule="every generated case")
def healpix(c, t):
	r = rng(c); ns = c["nside"]; spin = c["spin"]; nc = comps(spin); npix = 12*ns**2
	th, ph = healpy.pix2ang(ns,np.arange(npix)); pos = np.array([np.pi/2-th,ph])
	full = tuple(c["pre"])+(nc,) if not c["deriv"] else tuple(c["pre"])
	if c["plain"] and nc == 1: full = ()
	ainfo, ind, n = make_ainfo(c)
	a0 = sht.rand_alm(r,full,c["lmax"],c["mmax"]); alm = embed(a0,ind,n,r).astype(np.result_type(c["dtype"],0j))
	oshape = full+((2,) if c["deriv"] else ())+(npix,)
	kw = {}; sel = np.ones(npix,bool)
	if c["lim"] in ["min","both"]: kw["theta_min"] = c["t1"]; sel &= th >= c["t1"]
	if c["lim"] in ["max","both"]: kw["theta_max"] = c["t2"]; sel &= th <= c["t2"]
	if not sel.any(): t.mark_trivial(); return
	if c["given"]: kw["healmap"] = np.zeros(oshape,c["dtype"])
	else: kw["nside"] = ns
	res = curvedsky.alm2map_healpix(alm,spin=spin,deriv=c["deriv"],ainfo=ainfo,**kw)
	t.label("deriv" if c["deriv"] else "spin", "lim %s" % c["lim"])
	t.true(res.shape==oshape and res.dtype==np.dtype(c["dtype"]),"shape and dtype %s %s" % (res.shape,res.dtype))
	tol = 3e-4 if c["dtype"]=="float32" else 1e-9
	if c["deriv"]: a0 = a0.reshape(-1,a0.shape[-1]); refs = [sht.deriv(a,pos,c["lmax"],c["mmax"])*np.array([[-1],[1]]) for a in a0]; res = res.reshape(-1,2,npix)
	else: a0 = a0.reshape(-1,nc,a0.shape[-1]); refs = [ref_comps(a,pos,c["lmax"],c["mmax"],spin) for a in a0]; res = res.reshape(-1,nc,npix)
	for x, ref in zip(res,refs): t.close(x,np.where(sel,ref,0),"alm2map_healpix",rtol=tol,scale=np.max(np.abs(ref))+np.max(np.abs(a0)))

def gen_info(d): return {"geo":sht.gen_sht(d),"bsize":d.choice([1,2,3,1000]),"nside":d.int(1,12),"rings":d.bool(),"seed":d.seed()}
@prop.law(gen_info, quick=500, rule="more than one pixel")
def ring_info(c, t):
	"""The ring and position tables handed to ducc describe the pixel centres"""
	shape, wcs = geo.build(c["geo"]); r = rng(c); t.mark_trivial(shape[0]*shape[1]==1)
	pos = sht.posmap(c["geo"] if "geo" in c else g); ok = np.all(np.isfinite(pos),0)
	li = curvedsky.calc_locinfo(shape,wcs,bsize=c["bsize"])
	t.eq(li.mask,ok,"valid mask"); t.true(li.masked==(not ok.all()),"masked flag"); t.true(li.loc.shape==(ok.sum(),2),"number of positions")
	if ok.any():
		t.true((li.loc[:,1]>=0)&(li.loc[:,1]<=2*np.pi)&(li.loc[:,0]>=0)&(li.loc[:,0]<=np.pi),"positions in ducc's range")
		t.close(geo.sky_dist(np.array([np.pi/2-li.loc[:,0],li.loc[:,1]]),pos[:,ok]),np.zeros(ok.sum()),"positions",atol=1e-7)
	if c["geo"]["kind"] in ["full","cut","cyl"] and curvedsky.get_method(shape,wcs) != "general":
		ri = curvedsky.get_ring_info(shape,wcs)
		t.close(ri.theta,np.pi/2-pos[0,:,0],"ring theta",rtol=0,atol=1e-9); t.close_ang(ri.phi0,pos[1,:,0],"ring phi0",atol=1e-9)
		t.eq(np.asarray(ri.nphi).astype(int),np.full(shape[0],shape[1]),"nphi"); t.eq(np.asarray(ri.offsets).astype(int),np.arange(shape[0])*shape[1],"offsets")
	if c["geo"]["kind"] == "full" and shape[0]>2:
		# full-sky grids can use the direct method, whatever their orientation
		t.true(curvedsky.get_method(shape,wcs)=="2d","grid %s not recognised" % c["geo"]["grid"])
	ns = c["nside"]; rings = None if not c["rings"] else np.sort(r.choice(4*ns-1,r.integers(1,4*ns),replace=False))
	hi = curvedsky.get_ring_info_healpix(ns,rings=rings); w = np.arange(4*ns-1) if rings is None else rings
	th, ph = healpy.pix2ang(ns,np.arange(12*ns**2)); st = np.concatenate([[0],np.where(np.diff(th)>1e-7)[0]+1]); nn = np.diff(np.concatenate([st,[len(th)]]))[w]; st = st[w]
	t.eq(np.asarray(hi.nphi).astype(int),nn,"healpix nphi")
	if rings is None: t.eq(np.asarray(hi.offsets).astype(int),st,"healpix offsets")
	th, ph = healpy.pix2ang(ns,st); t.close(hi.theta,th,"healpix ring theta",rtol=0,atol=1e-9); t.close_ang(hi.phi0,ph,"healpix phi0",atol=1e-9)

def gen_big(d): return {"grid":d.choice(["CC","F1","MW","MWflip","DH","F2"]),"ny":d.int(20,60),"nx":d.int(20,90),"flips":[d.bool(),d.bool()],"ra0":d.float(-180,360,1),"xoff":d.float(-3,3,1),"spin":d.choice([[0],[0,2],[1]]),"lmax":d.int(20,80),"y":[d.float(0,1),d.float(0,1)],"x":[d.float(0,1),d.float(0,1)],"seed":d.seed()}
@prop.law(gen_big, quick=60, thorough=1200, rule="every generated case")
def high_l(c, t):
	"""At higher lmax than the plain sum can reach: all methods agree, flips and cutouts just move pixels, and the values are those at the pixel positions"""
	g = sht.ducc_wcs(c["grid"],c["ny"],c["nx"],c["flips"],c["ra0"],c["xoff"]); shape, wcs = geo.build(g); r = rng(c); nc = comps(c["spin"]); L = c["lmax"]
	alm = sht.rand_alm(r,(nc,),L)/L
	m = curvedsky.alm2map(alm,enmap.zeros((nc,)+shape,wcs),spin=c["spin"])
	pos = sht.posmap(c["geo"] if "geo" in c else g)
	p = curvedsky.alm2map_pos(alm,pos,spin=c["spin"])
	t.close(np.asarray(m),p,"map vs values at its pixel positions",rtol=1e-7)
	for me in ["2d","cyl","general"]:
		t.close(np.asarray(curvedsky.alm2map(alm,enmap.zeros((nc,)+shape,wcs),spin=c["spin"],method=me,epsilon=1e-10)),p,"method %s" % me,rtol=1e-7)
	y1, y2 = sorted(int(v*shape[0]) for v in c["y"]); x1, x2 = sorted(int(v*shape[1]) for v in c["x"]); y1, x1 = min(y1,shape[0]-1), min(x1,shape[1]-1); y2 = min(y2+1,shape[0]); x2 = min(x2+1,shape[1])
	gc = sht.cut(g,y1,y2,x1,x2); cs, cw = geo.build(gc)
	for me in ["auto","2d","cyl"]: t.close(np.asarray(curvedsky.alm2map(alm,enmap.zeros((nc,)+cs,cw),spin=c["spin"],method=me)),p[:,y1:y2,x1:x2],"cutout with method %s" % me,rtol=1e-7,scale=np.max(np.abs(p)))
