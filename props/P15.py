import numpy as np, healpy
from harness.core import Prop, rng
from harness import geo, sht
from pixell import enmap, curvedsky, utils
from props import P14
make_ainfo, embed, comps, ref_comps, methods, layout, SPINS = P14.make_ainfo, P14.embed, P14.comps, P14.ref_comps, P14.methods, P14.layout, P14.SPINS
prop = Prop("P15", assumptions=["lmax >= the largest spin", "exact recovery is required where the grid resolves the band limit: lmax up to the limit of the grid and more than 2*mmax pixels per row", "map2alm with deriv=True is not covered"])

def lim2d(grid, ny): return {"CC":ny-2,"DH":(ny-2)//2,"F2":(ny-1)//2}.get(grid,ny-1)
def bands(a, spin, lmax, mmax):
	"""Zero the modes a spin-s field doesn't have"""
	ll = sht.lms(lmax,mmax); a = a.copy(); i = k = 0
	while i < a.shape[-2]:
		s = spin[k%len(spin)]; n = 1 if s==0 else 2
		a[...,i:i+n,[l<s for l,m in ll]] = 0; i += n; k += 1
	return a

def gen_round(d):
	spin = d.choice(SPINS); grid = d.choice(["CC","F1","MW","MWflip","DH","F2"])
	c = {"grid":grid,"ny":d.int(9,22),"flips":[d.bool(),d.bool()],"ra0":d.choice([0.,180.,-33.3,361.5]),"xoff":d.float(-4,4,2),"spin":spin,"rel":d.float(0,1),"extra":d.int(0,5),"method":d.choice(["auto","2d","cyl","auto"]),"dtype":d.choice(["float64","float64","float32"]),"pre":geo.gen_pre(d,2,2),"hand":d.choice(["lmax","alm","ainfo","copy"]),"niter":d.int(0,2),"seed":d.seed()}
	lim = lim2d(grid,c["ny"])
	if c["method"] == "cyl":
		lim = min(lim,(c["ny"]-2)//2)
		if grid in ["MW","MWflip"]: c["grid"] = grid = "F1" # no exact weights for these
	lim = max(lim,max(spin))
	c.update(layout(d,d.int(max(spin),max(lim,max(spin))))); return c
@prop.law(gen_round, quick=600, rule="lmax > 0")
def roundtrip(c, t):
	lim = lim2d(c["grid"],c["ny"])
	if c["lmax"] > lim: t.mark_trivial(); return
	g = sht.ducc_wcs(c["grid"],c["ny"],2*c["mmax"]+1+c["extra"],c["flips"],c["ra0"],c["xoff"]); shape, wcs = geo.build(g); r = rng(c)
	t.mark_trivial(c["lmax"]==0)
	nc = comps(c["spin"]); full = tuple(c["pre"])+(nc,); ainfo, ind, n = make_ainfo(c)
	a0 = bands(sht.rand_alm(r,full,c["lmax"],c["mmax"]),c["spin"],c["lmax"],c["mmax"]); alm = embed(a0,ind,n,r).astype(np.result_type(c["dtype"],0j))
	m = curvedsky.alm2map(alm,enmap.zeros(full+shape,wcs,c["dtype"]),spin=c["spin"],ainfo=ainfo,method="cyl" if c["method"]=="2d" else "auto")
	keep = m.copy(); kw = {"spin":c["spin"],"method":c["method"]}
	if c["method"] == "cyl": kw["niter"] = c["niter"]
	hand = c["hand"]; oind = ind
	if c["layout"] != "none":
		if hand == "lmax": hand = "ainfo"
	t.label("%s %s" % (c["grid"],c["method"]), hand)
	if hand == "lmax": res = curvedsky.map2alm(m,lmax=c["lmax"],**kw)
	elif hand == "ainfo":
		res = curvedsky.map2alm(m,ainfo=ainfo or curvedsky.alm_info(lmax=c["lmax"]),**kw)
	else:
		buf = (alm*0+9).astype(alm.dtype); k2 = buf.copy()
		res = curvedsky.map2alm(m,buf,ainfo=ainfo,copy=hand=="copy",**kw)
		if hand == "copy": t.eq(buf,k2,"copy=True modified the alm")
		else: t.eq(buf,res,"the alm argument holds the result")
	t.eq(m,keep,"map was modified")
	t.true(res.dtype==alm.dtype,"dtype %s" % res.dtype)
	t.close(res[...,ind],a0,"map2alm(alm2map(alm)) on %s with %s" % (c["grid"],c["method"]),rtol=1e-3 if c["dtype"]=="float32" else 1e-8)

def gen_adj(d):
	spin = d.choice(SPINS); lmax = d.int(max(spin+[1]),7)
	c = {"geo":sht.gen_sht(d),"spin":spin,"pre":geo.gen_pre(d,2,2),"method":d.int(0,3),"deriv":d.choice([False,False,False,True]),"alm":d.choice(["none","given"]),"via":d.choice(["fun","arg"]),"niter":d.int(0,2),"seed":d.seed()}
	c.update(layout(d,lmax)); return c
def setup(c, t):
	shape, wcs = geo.build(c["geo"]); r = rng(c)
	pos = sht.posmap(c["geo"] if "geo" in c else g); ok = np.all(np.isfinite(pos),0)
	if not ok.any(): return None
	ms = methods(shape,wcs); me = ms[c["method"]%len(ms)]; nc = comps(c["spin"])
	ainfo, ind, n = make_ainfo(c); ainfo = ainfo or curvedsky.alm_info(lmax=c["lmax"])
	return shape, wcs, r, ok, me, nc, ainfo, ind, n
def aprod(a, b, c): return np.sum(np.real(a*np.conj(b))*sht.weight(c["lmax"],c["mmax"]))
@prop.law(gen_adj, quick=700, rule="more than one pixel on the sky")
def synthesis_adjoint(c, t):
	"""<alm2map(a),m> = <a,alm2map_adjoint(m)> for all a, m"""
	s = setup(c,t)
	if s is None: t.mark_trivial(); return
	shape, wcs, r, ok, me, nc, ainfo, ind, n = s; t.mark_trivial(ok.sum()<2); t.label("method %s" % me, "deriv" if c["deriv"] else "spin")
	apre = tuple(c["pre"])+(() if c["deriv"] else (nc,)); mpre = tuple(c["pre"])+((2,) if c["deriv"] else (nc,))
	a0 = sht.rand_alm(r,apre,c["lmax"],c["mmax"]); m = enmap.ndmap(r.standard_normal(mpre+shape),wcs); m[...,~ok] = 0; keep = m.copy()
	kw = {"spin":c["spin"],"deriv":c["deriv"],"method":me,"ainfo":ainfo}
	if me in ["auto","general"]: kw["epsilon"] = 1e-11
	Ya = curvedsky.alm2map(embed(a0,ind,n,r),enmap.zeros(mpre+shape,wcs),**kw)
	nel = n if n is not None else int(ind.max())+1
	buf = np.full(apre+(max(nel,ainfo.nelem),),3+4j) if c["alm"]=="given" or c["layout"]=="pad" else None
	if c["via"] == "fun": Ym = curvedsky.alm2map_adjoint(m,buf,**kw)
	else: Ym = curvedsky.alm2map(buf,m,adjoint=True,**kw)
	t.eq(m,keep,"map was modified")
	if buf is not None: t.eq(buf,Ym,"the alm argument holds the result")
	Ym = Ym[...,ind]
	lhs, rhs = np.sum(np.asarray(Ya)[...,ok]*np.asarray(m)[...,ok]), aprod(a0,Ym,c)
	t.close(lhs,rhs,"adjoint of synthesis, method %s" % me,rtol=0,atol=1e-7*(1+np.sqrt(np.sum(np.asarray(Ya)[...,ok]**2)*np.sum(m**2))))
	tol = dict(rtol=0,atol=1e-7*(1+np.max(np.abs(Ym))))
	b2 = np.full(apre+(max(nel,ainfo.nelem),),3+4j); k2 = b2.copy(); C = curvedsky.alm2map_adjoint(m,b2,copy=True,**kw); t.eq(b2,k2,"copy=True modified the alm"); t.close(C[...,ind],Ym,"copy=True",**tol)
	eff = curvedsky.get_method(shape,wcs) if me=="auto" else me
	if eff == "general":
		li = curvedsky.calc_locinfo(shape,wcs); t.close(curvedsky.alm2map_adjoint(m,k2.copy(),locinfo=li,**kw)[...,ind],Ym,"precomputed locinfo",**tol); t.close(np.asarray(curvedsky.alm2map(embed(a0,ind,n,r),enmap.zeros(mpre+shape,wcs),locinfo=li,**kw))[...,ok],np.asarray(Ya)[...,ok],"precomputed locinfo",rtol=1e-7,atol=1e-9)
	# the same at arbitrary positions
	pos = np.array(sht.posmap(c["geo"]))[:,ok]; mp = np.ascontiguousarray(np.asarray(m)[...,ok]); kp = mp.copy(); pk = dict(spin=c["spin"],deriv=c["deriv"],ainfo=ainfo,epsilon=1e-11)
	b2 = k2.copy(); C = curvedsky.alm2map_pos(b2,pos,map=mp,adjoint=True,copy=True,**pk); t.eq(b2,k2,"copy=True modified the alm (positions)"); t.close(C[...,ind],Ym,"adjoint at positions",**tol); C = curvedsky.alm2map_pos(b2,pos,map=mp,adjoint=True,**pk); t.eq(mp,kp,"map was modified (positions)"); t.close(b2[...,ind],Ym,"adjoint at positions into the alm",**tol); t.true(C is b2 or np.array_equal(C,b2),"result (positions)")
	q = curvedsky.alm2map_pos(embed(a0,ind,n,r),pos,map=mp,copy=True,**pk); t.eq(mp,kp,"copy=True modified the map (positions)"); t.close(q,np.asarray(Ya)[...,ok],"synthesis at positions",rtol=1e-7,atol=1e-9*(1+np.max(np.abs(a0)))); curvedsky.alm2map_pos(embed(a0,ind,n,r),pos,map=mp,**pk); t.eq(mp,q,"result in the map argument")

@prop.law(gen_adj, quick=700, rule="more than one pixel on the sky")
def analysis_adjoint(c, t):
	"""<map2alm(m),a> = <m,map2alm_adjoint(a)> for all a, m, including the iterations"""
	if c["deriv"]: c = dict(c,deriv=False)
	s = setup(c,t)
	if s is None: t.mark_trivial(); return
	shape, wcs, r, ok, me, nc, ainfo, ind, n = s; t.mark_trivial(ok.sum()<2)
	if c["geo"]["kind"] == "big" and me in ["auto","general"]:
		if not np.all(np.isfinite(enmap.pixsizemap(shape,wcs)[ok])): t.mark_trivial(); return
	full = tuple(c["pre"])+(nc,)
	a0 = sht.rand_alm(r,full,c["lmax"],c["mmax"]); m = enmap.ndmap(r.standard_normal(full+shape),wcs); m[...,~ok] = 0; keep = m.copy()
	kw = {"spin":c["spin"],"method":me,"ainfo":ainfo}; eff = curvedsky.get_method(shape,wcs) if me=="auto" else me
	t.label("method %s" % me)
	if eff != "2d": kw["niter"] = c["niter"]
	if eff == "general": kw["epsilon"] = 1e-11
	if eff == "2d":
		i = curvedsky.analyse_geometry(shape,wcs)
		if c["lmax"] > i.ducc_geo.lmax or max(c["spin"]) > i.ducc_geo.lmax: t.mark_trivial(); return
		if i.ducc_geo.nx < 2*c["mmax"]+1: t.mark_trivial(); return
	nel = max(n if n is not None else int(ind.max())+1, ainfo.nelem)
	buf = np.full(full+(nel,),3+4j) if c["alm"]=="given" or c["layout"]=="pad" else None
	Am = curvedsky.map2alm(m,buf,**kw); t.eq(m,keep,"map was modified")
	emb = embed(a0,ind,n,r)
	if c["via"] == "fun": Aa = curvedsky.map2alm_adjoint(emb,enmap.zeros(full+shape,wcs),**kw)
	else: Aa = curvedsky.map2alm(enmap.zeros(full+shape,wcs),emb,adjoint=True,**kw)
	lhs, rhs = aprod(Am[...,ind],a0,c), np.sum(np.asarray(m)[...,ok]*np.asarray(Aa)[...,ok])
	m2 = enmap.ndmap(np.full(full+shape,2.5),wcs); k2 = m2.copy(); C = curvedsky.map2alm_adjoint(emb,m2,copy=True,**kw); t.eq(m2,k2,"copy=True modified the map"); t.close(np.asarray(C)[...,ok],np.asarray(Aa)[...,ok],"copy=True",rtol=1e-9)
	t.close(lhs,rhs,"adjoint of analysis, method %s, niter %d" % (eff,c["niter"]),rtol=0,atol=1e-7*(1+np.sqrt(np.sum(np.asarray(Aa)[...,ok]**2)*np.sum(m**2))))

def gen_quad(d): return {"grid":d.choice(["CC","F1","DH","F2"]),"ny":d.int(3,14),"nx":d.int(2,9),"flips":[d.bool(),d.bool()],"cut":d.bool(),"y":[d.float(0,1),d.float(0,1)],"x":[d.float(0,1),d.float(0,1)],"seed":d.seed()}
@prop.law(gen_quad, quick=300, rule="every generated case")
def quadrature(c, t):
	g = sht.ducc_wcs(c["grid"],c["ny"],c["nx"],c["flips"],20.,1.); shape, wcs = geo.build(g)
	w = np.asarray(curvedsky.quad_weights(shape,wcs)); t.true(w.shape==(shape[0],),"one weight per row")
	dec = sht.posmap(c["geo"] if "geo" in c else g)[0,:,0]
	lim = {"DH":c["ny"]-2}.get(c["grid"],c["ny"]-1)
	for l in range(0,lim+1):
		P = np.polynomial.legendre.legval(np.sin(dec),np.eye(l+1)[l])
		t.close(np.sum(w*P)*c["nx"],4*np.pi if l==0 else 0.,"integral of P_%d over the sphere" % l,rtol=0,atol=1e-9)
	if c["cut"]:
		y1, y2 = sorted(int(v*shape[0]) for v in c["y"]); x1, x2 = sorted(int(v*shape[1]) for v in c["x"]); y1, x1 = min(y1,shape[0]-1), min(x1,shape[1]-1); y2 = min(y2+1,shape[0]); x2 = min(x2+1,shape[1])
		cs, cw = geo.build(sht.cut(g,y1,y2,x1,x2)); i = curvedsky.analyse_geometry(cs,cw)
		if i.ducc_geo is not None and i.ducc_geo.name == {"DH":"CC","F2":"CC"}.get(c["grid"],c["grid"]):
			ref = w if c["grid"] not in ["DH","F2"] else None
			if c["grid"] in ["DH","F2"]:
				# cutouts of these are treated as cutouts of the CC grid with the same rows
				full = c["ny"]+{"DH":1,"F2":2}[c["grid"]]; W = np.asarray(curvedsky.quad_weights(*geo.build(sht.ducc_wcs("CC",full,c["nx"],c["flips"],20.,1.))))
				if c["grid"] == "F2": ref = W[1:-1]
				else: ref = W[:-1] if c["flips"][0] else W[1:]
			t.close(np.asarray(curvedsky.quad_weights(cs,cw)),ref[y1:y2],"weights of the cutout",rtol=1e-12)

def gen_ana(d):
	spin = d.choice(SPINS); c = {"geo":sht.gen_sht(d),"spin":spin,"pre":geo.gen_pre(d,2,2),"plain":d.bool(),"method":d.choice(["auto","cyl","general"]),"wt":d.choice(["none","none","given"]),"niter":d.choice([0,0,1,3]),"dtype":d.choice(["float64","float64","float32"]),"seed":d.seed()}
	c.update(layout(d,d.int(max(spin),7))); return c
@prop.law(gen_ana, quick=700, rule="more than one pixel on the sky")
def analysis(c, t):
	"""Without iterations map2alm is the weighted sum of map times conj(Y), with iterations the corresponding Jacobi sequence"""
	s = setup(dict(c,method=0),t)
	if s is None: t.mark_trivial(); return
	shape, wcs, r, ok, _, nc, ainfo, ind, n = s; t.mark_trivial(ok.sum()<2); spin = c["spin"]
	me = c["method"]; auto = curvedsky.get_method(shape,wcs)
	if me == "auto": me = "cyl" if auto == "2d" else auto
	if me == "cyl" and auto == "general": me = "general"
	info = curvedsky.analyse_geometry(shape,wcs); pos = sht.posmap(c["geo"] if "geo" in c else g)
	if me == "general": W = np.asarray(enmap.pixsizemap(shape,wcs))
	elif info.ducc_geo is not None and not info.ducc_geo.name.startswith("MW"): W = np.asarray(curvedsky.quad_weights(shape,wcs))[:,None]+np.zeros(shape)
	else: W = np.asarray(enmap.pixsizemap(shape,wcs))
	kw = {}
	if c["wt"] == "given":
		if me == "general": W = r.uniform(0.5,1.5,shape)*0.1; kw["weights"] = W[ok]
		else: w1 = r.uniform(0.5,1.5,shape[0])*0.1; W = w1[:,None]+np.zeros(shape); kw["weights"] = w1.copy()
	if not np.all(np.isfinite(W[ok])): t.mark_trivial(); return
	full = () if c["plain"] and nc == 1 else tuple(c["pre"])+(nc,)
	m = enmap.ndmap(r.standard_normal(full+shape).astype(c["dtype"]),wcs)
	if "weights" in kw: kw["weights"] = kw["weights"].astype(c["dtype"])
	buf = np.full(full+(int(ind.max())+1,),1+1j).astype(np.result_type(c["dtype"],0j)) if c["layout"]=="pad" else None
	res = curvedsky.map2alm(m,buf,ainfo=ainfo,spin=spin,method=me,niter=c["niter"],**kw)[...,ind]
	t.label("method %s" % me, "weights %s" % c["wt"], "niter %d" % c["niter"])
	M = np.asarray(m,float).reshape((-1,nc)+shape); R = res.reshape((-1,nc,res.shape[-1]))
	if me == "cyl":
		# the rows are completed with zeros before iterating
		N = int(round(360/abs(c["geo"]["cdelt"][0]))); pad = N-shape[1]
		pos = sht.posmap(dict(c["geo"],n=[shape[0],N])); W = np.repeat(W[:,:1],N,1); ok = np.ones((shape[0],N),bool); M = np.concatenate([M,np.zeros(M.shape[:-1]+(pad,))],-1); shape = (shape[0],N)
	B = {sp:sht.basis(pos[:,ok],c["lmax"],c["mmax"],sp) for sp in set(spin)}
	def back(x):
		out, i, k = [], 0, 0; x = x[...,ok]*W[ok]
		while i < len(x):
			sp = spin[k%len(spin)]
			if sp == 0: out.append(np.conj(B[0])@x[i]); i += 1
			else:
				for X in B[sp]: out.append(np.einsum("icp,cp->i",np.conj(X),x[i:i+2]))
				i += 2
			k += 1
		return np.array(out)
	def forw(a): o = np.zeros((nc,)+shape); o[:,ok] = ref_comps(a,pos[:,ok],c["lmax"],c["mmax"],spin); return o
	for x, y in zip(M,R):
		a = back(x); sc = np.max(np.abs(a))
		for i in range(c["niter"]): a = a-back(forw(a)-x); sc = max(sc,np.max(np.abs(a)))
		t.close(y,a,"map2alm method %s" % me,rtol=0,atol=(1e-3 if c["dtype"]=="float32" else 3e-8)*(sc+1e-3))

def gen_cut(d):
	g = sht.gen_sht_full(d,4,12,16); ny, nx = g["n"]; y1 = d.int(0,ny-1); x1 = d.int(0,nx-1)
	return {"geo":g,"y":[y1,d.int(y1+1,ny)],"x":[x1,d.int(x1+1,nx)],"spin":d.choice(SPINS),"lmax":d.int(3,9),"method":d.choice(["auto","cyl","2d"]),"seed":d.seed()}
@prop.law(gen_cut, quick=300, rule="the cutout is a proper subset")
def cutout(c, t):
	"""A cutout has the same alms as the zero-padded full sky"""
	shape, wcs = geo.build(c["geo"]); r = rng(c); nc = comps(c["spin"]); y1, y2 = c["y"]; x1, x2 = c["x"]
	t.mark_trivial((y2-y1,x2-x1)==shape)
	cs, cw = geo.build(sht.cut(c["geo"],y1,y2,x1,x2)); i, I = curvedsky.analyse_geometry(cs,cw), curvedsky.analyse_geometry(shape,wcs)
	if i.ducc_geo is None or i.ducc_geo.name != I.ducc_geo.name: t.mark_trivial(); return
	m = enmap.ndmap(r.standard_normal((nc,)+cs),cw); M = enmap.zeros((nc,)+shape,wcs); M[:,y1:y2,x1:x2] = m
	lmax = c["lmax"]; me = c["method"]
	full = "cyl" if me=="auto" else me
	if full == "2d":
		lmax = min(lmax,I.ducc_geo.lmax)
		if lmax < max(c["spin"]) or I.ducc_geo.nx < 2*lmax+1: t.mark_trivial(); return
	if me == "auto" and curvedsky.get_method(cs,cw) == "2d": full = "2d"
	if full == "2d" and me == "auto": t.mark_trivial(); return
	a, b = curvedsky.map2alm(m,lmax=lmax,spin=c["spin"],method=me), curvedsky.map2alm(M,lmax=lmax,spin=c["spin"],method=full)
	t.label(me); t.close(a,b,"alm of the cutout",rtol=0,atol=1e-9*(1+np.max(np.abs(b))))

def gen_heal(d):
	spin = d.choice(SPINS); c = {"spin":spin,"nside":d.choice([1,2,4,3]),"pre":geo.gen_pre(d,2,2),"plain":d.bool(),"dtype":d.choice(["float64","float64","float32"]),"wt":d.bool(),"niter":d.int(0,2),"lim":d.choice([None,None,"min","max","both"]),"t1":d.float(.1,1.5),"t2":d.float(1.55,3.),"what":d.choice(["val","adj","syn","deriv"]),"copy":d.bool(),"seed":d.seed()}
	c.update(layout(d,d.int(max(spin+[1]),6))); return c
@prop.law(gen_heal, quick=400, rule="every generated case")
def healpix(c, t):
	r = rng(c); ns = c["nside"]; npix = 12*ns**2; spin = c["spin"]; nc = comps(spin); th, ph = healpy.pix2ang(ns,np.arange(npix)); pos = np.array([np.pi/2-th,ph])
	full = () if c["plain"] and nc==1 else tuple(c["pre"])+(nc,); ainfo, ind, n = make_ainfo(c); ainfo = ainfo or curvedsky.alm_info(lmax=c["lmax"])
	nel = max(int(ind.max())+1,ainfo.nelem)
	sel = np.ones(npix,bool); kw = {}
	if c["lim"] in ["min","both"]: kw["theta_min"] = c["t1"]; sel &= th>=c["t1"]
	if c["lim"] in ["max","both"]: kw["theta_max"] = c["t2"]; sel &= th<=c["t2"]
	if not sel.any(): t.mark_trivial(); return
	t.label(c["what"])
	if c["what"] in ["syn","deriv"]:
		der = c["what"]=="deriv"; apre = tuple(c["pre"]) if der else full; mpre = apre+((2,) if der else ())
		a0 = sht.rand_alm(r,apre,c["lmax"],c["mmax"]); m = r.standard_normal(mpre+(npix,)); keep = m.copy()
		Y = curvedsky.alm2map_healpix(embed(a0,ind,n,r),nside=ns,spin=spin,deriv=der,ainfo=ainfo,**kw)
		buf = np.full(apre+(nel,),2+1j)
		YT = curvedsky.alm2map_healpix(buf,m,spin=spin,deriv=der,ainfo=ainfo,adjoint=True,**kw)[...,ind]
		t.eq(m,keep,"map modified")
		t.close(np.sum(Y*m),aprod(a0,YT,c),"healpix adjoint synthesis",rtol=0,atol=1e-9*(1+np.sqrt(np.sum(Y**2)*np.sum(m**2))))
		return
	niter = 0 if kw else c["niter"]
	W = r.uniform(.5,1.5,npix)*4*np.pi/npix if c["wt"] else None
	kw2 = dict(kw,niter=niter,spin=spin,ainfo=ainfo)
	if W is not None: kw2["weights"] = W.astype(c["dtype"])
	m = r.standard_normal(full+(npix,)).astype(c["dtype"]); keep = m.copy(); buf = np.full(full+(nel,),1j).astype(np.result_type(c["dtype"],0j))
	A = curvedsky.map2alm_healpix(m,buf,copy=c["copy"],**kw2); t.eq(m,keep,"map modified")
	if c["copy"]: t.eq(buf,np.full(full+(nel,),1j),"copy=True modified the alm")
	A = A[...,ind]; Wv = (np.full(npix,4*np.pi/npix) if W is None else W)*sel
	if c["what"] == "adj":
		if kw: t.mark_trivial(); return
		a0 = sht.rand_alm(r,full,c["lmax"],c["mmax"]).astype(A.dtype)
		z = np.zeros_like(m); B = curvedsky.map2alm_healpix(z,embed(a0,ind,n,r).astype(A.dtype),adjoint=True,copy=c["copy"],**kw2)
		if c["copy"]: t.eq(z,np.zeros_like(m),"copy=True modified the map")
		t.close(np.sum(B.astype(float)*m),aprod(A,a0,c),"healpix adjoint analysis",rtol=0,atol=(1e-3 if c["dtype"]=="float32" else 1e-9)*(1+np.sqrt(np.sum(B.astype(float)**2)*np.sum(m.astype(float)**2)))); return
	Bs = {sp:sht.basis(pos,c["lmax"],c["mmax"],sp) for sp in set(spin)}
	def back(x):
		out, i, k = [], 0, 0; x = x*Wv
		while i < len(x):
			sp = spin[k%len(spin)]
			if sp == 0: out.append(np.conj(Bs[0])@x[i]); i += 1
			else:
				for X in Bs[sp]: out.append(np.einsum("icp,cp->i",np.conj(X),x[i:i+2]))
				i += 2
			k += 1
		return np.array(out)
	for x, y in zip(m.astype(float).reshape(-1,nc,npix),A.reshape(-1,nc,A.shape[-1])):
		a = back(x)
		for i in range(niter): a = a-back(ref_comps(a,pos,c["lmax"],c["mmax"],spin)-x)
		t.close(y,a,"map2alm_healpix",rtol=0,atol=(1e-3 if c["dtype"]=="float32" else 1e-9)*(1+np.max(np.abs(a))))

def gen_inv(d): return {"n":d.int(2,10),"extra":d.int(0,6),"jac":d.int(0,4),"cplx":d.bool(),"seed":d.seed()}
@prop.law(gen_inv, quick=300, rule="every generated case")
def inverses(c, t):
	r = rng(c); n = c["n"]; m = n+c["extra"]
	P = r.standard_normal((m,n))*0.3+np.eye(m,n)
	if c["cplx"]: P = P+1j*0.2*r.standard_normal((m,n))
	x = r.standard_normal(n)+(1j*r.standard_normal(n) if c["cplx"] else 0); y = P@x+0.1*r.standard_normal(m)
	B = np.conj(P.T)/np.linalg.norm(P,2)**2
	ref = B@y
	for i in range(c["jac"]): ref = ref+B@(y-P@ref)
	t.close(curvedsky.jacobi_inverse(lambda a:P@a,lambda a:B@a,y,niter=c["jac"]),ref,"jacobi_inverse",rtol=1e-10)
	if np.linalg.cond(P) > 30: return
	sol = np.linalg.lstsq(P,y,rcond=None)[0]
	got = curvedsky.minres_inverse(lambda a:P@a,lambda a:np.conj(P.T)@a,y,epsilon=1e-10,maxiter=500)
	t.close(got,sol,"minres_inverse",rtol=1e-5)
