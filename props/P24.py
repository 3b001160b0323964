import os
import numpy as np
from harness.core import Prop, rng
from harness import geo
from pixell import enmap, pointsrcs, utils, srcsim
prop = Prop("P24", assumptions=["coordinates are single precision: profiles are compared up to their variation over 4e-6 radians", "maps are at most 360 degrees wide", "contributions below vmin or beyond rmax may be present or absent", "op max/min on maps and objects of one sign"])
EPS = 4e-6

def angdist(d1, r1, d2, r2):
	return np.arctan2(np.hypot(np.cos(d2)*np.sin(r2-r1),np.cos(d1)*np.sin(d2)-np.sin(d1)*np.cos(d2)*np.cos(r2-r1)),np.sin(d1)*np.sin(d2)+np.cos(d1)*np.cos(d2)*np.cos(r2-r1))
def gen_geo(d):
	k = d.choice(["cyl","cyl","full","full","polar","zen"])
	if k == "zen": return {"k":k,"n":[d.int(2,30),d.int(2,30)],"res":d.float(.1,1.5),"dec":d.choice([0,45,-60,89,90,-90]),"ra":d.float(-180,180),"proj":d.choice(["zea","tan","arc","sin"])}
	if k == "full": return {"k":k,"ny":d.int(6,20),"nx":d.int(7,45),"flip":d.bool(),"var":d.choice(["fejer1","cc"]),"ra0":d.float(-200,200),"xflip":d.bool()}
	return {"k":k,"n":[d.int(1,25),d.int(1,40)],"res":d.float(.1,3),"yres":d.float(.5,2),"dec":d.float(-60,60),"top":d.choice([1,-1]),"ra":d.float(-200,200),"proj":d.choice(["car","car","cea","mer"]) if k=="cyl" else d.choice(["car","cea"]),"xflip":d.bool()}
def build(c):
	"""Returns shape, wcs"""
	k = c["k"]
	if k == "zen":
		n = c["n"]; w = geo.make_wcs(c["proj"],[c["ra"],c["dec"]],[-c["res"],c["res"]],[n[1]/2+.5,n[0]/2+.5]); return tuple(n), w
	if k == "full":
		ny, nx = c["ny"], c["nx"]; cc = c["var"]=="cc"; dy = 180/(ny-1) if cc else 180/ny; s = -1 if c["flip"] else 1; sx = 1 if c["xflip"] else -1
		return (ny,nx), geo.make_wcs("car",[c["ra0"],0],[sx*360/nx,s*dy],[(nx+1)//2,(ny+1)/2])
	ny, nx = c["n"]; res = c["res"]; nx = min(nx,int(360/res)); yr = res*c["yres"]; sx = 1 if c["xflip"] else -1; p = c["proj"]
	if k == "polar": # reaching (almost) to a pole
		if p == "car":
			ny = min(ny,max(1,int(150/yr))); cr = (90/yr)+0.5-ny if c["top"]>0 else 90/yr+.5; return (ny,nx), geo.make_wcs(p,[c["ra"],0],[sx*res,yr],[nx/2,1+(-(90/yr-ny) if c["top"]>0 else 90/yr)-.5])
		h = 180/np.pi; ny = min(ny,max(1,int(h/yr))); return (ny,nx), geo.make_wcs(p,[c["ra"],0],[sx*res,yr],[nx/2,-(h/yr-ny)+.5 if c["top"]>0 else h/yr+.5])
	lim = {"car":90,"cea":180/np.pi,"mer":120}[p]; y0 = {"car":c["dec"],"cea":180/np.pi*np.sin(c["dec"]*utils.degree),"mer":c["dec"]}[p]; ny = max(1,min(ny,int(2*(lim-abs(y0))/yr)-1))
	return (ny,nx), geo.make_wcs(p,[c["ra"],0],[sx*res,yr],[nx/2,ny/2+.5-y0/yr])
def gen_prof(d): return {"n":d.int(2,40),"equi":d.choice(["yes","no","almost"]),"shape":d.choice(["gauss","gauss","ring","sign","step"]),"w":d.float(.3,8),"peak":d.choice([1,1,1,5,.01]),"r0":d.bool(),"seed":d.seed()}
def profile(c, pix):
	"""[{r,v},n], with width in units of the pixel size, ending at zero or at a finite value"""
	r = rng(c); n = c["n"]; R = min(c["w"]*pix,2.5)
	if c["equi"] == "yes": rs = np.linspace(0,R,n)
	elif c["equi"] == "almost" and n > 3: rs = np.linspace(0,R,n); rs[2:-1] = np.sort(r.uniform(rs[1],R,n-3)); rs = np.unique(rs)
	else: rs = np.unique(np.concatenate([[0 if c["r0"] else .1*R],r.uniform(.1,1,n-1)*R]))
	if len(rs) < 2: rs = np.array([0,R])
	rs = rs[np.concatenate([[True],np.diff(rs)>1e-3*R])] if c["equi"]!="yes" else rs
	if len(rs) < 2: rs = np.array([0,R])
	x = rs/R
	v = {"gauss":np.exp(-8*x**2),"ring":x*(1-x)*4,"sign":np.cos(6*x)*(1-x),"step":np.where(x<.7,1.,.5)}[c["shape"]]*c["peak"]
	return np.array([rs,v]).astype("float32")
def evalp(p, r):
	"""min and max of the profile around radius r"""
	rs, v = p.astype(float); f = lambda q: np.interp(q,rs,v,left=v[0],right=0)
	e = EPS; a = np.array([f(r-e),f(r),f(r+e)])
	k = np.searchsorted(rs,r); # include the samples between
	for off in (-1,0):
		i = np.clip(k+off,0,len(rs)-1); ok = np.abs(rs[i]-r)<=e; a = np.concatenate([a,np.where(ok,v[i],a[1])[None]])
	return a.min(0)-1e-6*np.abs(v).max(), a.max(0)+1e-6*np.abs(v).max()
def gen_pos(d): return d.list(lambda: [d.choice(["in","in","edge","out","pole","same"]),d.float(0,1),d.float(0,1),d.choice([0,0,1,-1])],0,16)
def positions(spec, pm, r):
	ny, nx = pm.shape[-2:]; out = []
	for kind, u, v, wrap in spec:
		y = u*(ny-1); x = v*(nx-1)
		if kind == "edge": y, x = (y,0.) if v<.5 else (0. if u<.5 else ny-1,x)
		iy, ix = int(round(y)), int(round(x)); dec, ra = pm[0,iy,ix], pm[1,iy,ix]
		j = r.uniform(-.5,.5,2)
		iy2 = iy+1 if iy+1<ny else iy-1; ix2 = ix+1 if ix+1<nx else ix-1
		dd = abs(pm[0,iy2 if 0<=iy2<ny else iy,ix]-dec); 
		if kind == "out": dec = dec+6*dd*j[0]*2; ra = ra+.2*j[1]
		elif kind == "pole": dec = np.sign(dec or 1)*np.pi/2*(1-abs(j[0])*.01)
		elif kind != "same": dec = dec+dd*j[0]; ra = ra+.02*j[1]
		dec = np.clip(dec,-np.pi/2,np.pi/2); out.append([dec,ra+2*np.pi*wrap])
	return np.array(out).reshape(-1,2).T
def gen_sim(d):
	return {"geo":gen_geo(d),"prof":[gen_prof(d) for _ in range(d.choice([1,1,1,2,3]))],"pos":gen_pos(d),"pre":d.list(lambda: d.int(1,3),0,2),"vmin":d.choice([None,None,0,"hi","abs"]),"rmax":d.choice([None,None,"some"]),"ids":d.bool(),"zero":d.bool(),"amp":d.choice([1,1e-8,1e6]),"sign":d.choice([0,1,-1]),"omap":d.bool(),"op":d.choice(["add","add","add","max","min"]),"sep":d.choice(["auto","auto",False]),"cache":d.bool(),"rep":d.bool(),"lay":d.choice(["c","c","f32","f32b","list"]),"seed":d.seed()}
def setup(c, t):
	r = rng(c["seed"]); shape, wcs = build(c["geo"]); pm = geo.ref_posmap(shape,wcs); t.mark_trivial(len(c["pos"])==0 or not np.all(np.isfinite(pm)))
	pix = (enmap.area(shape,wcs)/(shape[0]*shape[1]))**.5 if min(shape)>1 else .02
	if not np.isfinite(pix) or pix<=0: pix = .02
	pos = positions(c["pos"],pm,r)
	if c.get("rep") and pos.shape[1]>0: pos = np.tile(pos,8)[:,:40]
	return r, shape, wcs, pm, pix, pos
def gentle(c, pm): return c["geo"]["k"] in ("cyl","zen") and np.max(np.abs(pm[0])) < 1 # where non-separable coordinates can be used with any pixelization
def onsky(pm): return bool(np.all(np.isfinite(pm)))

@prop.law(gen_sim, quick=450, rule="at least one object, whole map on the sky")
def objects(c, t):
	"""sim_objects is the sum (max, min) over objects of amplitude times profile at the great-circle distance, down to vmin and out to rmax"""
	r, shape, wcs, pm, pix, pos = setup(c,t)
	if not onsky(pm): return
	n = pos.shape[1]; profs = [profile(p,pix) for p in c["prof"]]; t.label(c["geo"]["k"])
	amps = (r.uniform(.1,3,c["pre"]+[n])*(r.choice([-1,1],c["pre"]+[n]) if c["sign"]==0 else c["sign"])*c["amp"]).astype("float32")
	if c["zero"] and amps.size: amps.reshape(-1)[r.integers(amps.size)] = 0
	op = c["op"]
	if op == "max": amps = np.abs(amps)
	if op == "min": amps = -np.abs(amps)
	kw = {"op":op,"separable":c["sep"] if gentle(c,pm) else "auto"}; ids = np.zeros(n,int)
	if c["ids"] or len(profs)>1: ids = r.integers(0,len(profs),n); kw["prof_ids"] = ids; arg = profs
	else: arg = profs[0] if r.integers(2) else profs
	amax = np.abs(amps).reshape(-1,n).max(0) if n else np.zeros(0); vmin = c["vmin"]; rmax = None
	if vmin == "hi" and n: vmin = float(amax.max()*.2)
	elif vmin == "abs" and n: vmin = float(amax.max()*10**r.uniform(-11,0))
	elif vmin not in (None,0): vmin = None
	if vmin is not None: kw["vmin"] = vmin
	if c["rmax"]: rmax = float(r.uniform(.2,.9)*c["prof"][0]["w"]*pix); kw["rmax"] = rmax
	m0 = np.zeros(tuple(c["pre"])+shape,"float32")
	if c["omap"]:
		m0 = r.uniform(0,1,m0.shape).astype("float32")*c["amp"]*(-1 if op=="min" else 1); kw["omap"] = enmap.ndmap(m0.copy(),wcs)
	if c["cache"]: kw["cache"] = {}
	P_, A_, G_ = pos, amps, arg; lay = c.get("lay","c")
	if lay == "f32": P_ = np.repeat(pos,2,1)[:,::2]; A_ = np.repeat(amps,3,-1)[...,::3]; G_ = [np.asfortranarray(p.astype("float32")) for p in profs] if arg is profs else np.repeat(arg,2,1).astype("float32")[:,::2]; t.label("strided")
	elif lay == "f32b": P_ = np.repeat(pos.astype("float32"),2,1)[:,::2]; pos = np.asarray(P_,float)
	elif lay == "list": P_ = [list(x) for x in pos]; A_ = amps.tolist(); t.label("lists")
	with np.errstate(invalid="ignore"): got = pointsrcs.sim_objects(shape,wcs,P_,A_,G_,**kw)
	if not c["omap"]:
		with np.errstate(invalid="ignore"): again = pointsrcs.sim_objects(shape,wcs,P_,A_,G_,return_times=True,**kw)
		t.true(isinstance(again,tuple) and len(again)==2,"times"); t.eq(np.asarray(again[0]),np.asarray(got),"with times")
	t.true(got.shape==m0.shape and got.dtype==np.float32,"shape %s" % (got.shape,))
	if c["omap"]: t.true(np.shares_memory(got,kw["omap"]),"omap is updated")
	if c["cache"]:
		kw2 = dict(kw)
		if c["omap"]: kw2["omap"] = enmap.ndmap(m0.copy(),wcs)
		t.eq(np.asarray(pointsrcs.sim_objects(shape,wcs,pos,amps,arg,**kw2)),np.asarray(got),"with a filled cache")
	v0 = (np.min(np.abs(amps))*1e-3 if n else 0) if vmin is None else vmin
	lo = m0.astype(float).copy(); hi = lo.copy(); mag = np.abs(lo)
	for i in range(n):
		p = profs[ids[i]]; rr = angdist(pos[0,i],pos[1,i],pm[0],pm[1]); a, b = evalp(p,rr); am = amps[...,i].astype(float)[...,None,None]
		with np.errstate(divide="ignore",invalid="ignore"): vrel = np.float32(v0)/np.float32(amax[i])
		big = np.where(~(np.abs(p[1])<vrel*(1+1e-5)))[0]; R = p[0,big[-1]] if len(big) else p[0,0]
		if rmax: R = min(R,rmax)
		must = rr <= R-EPS
		u, v = np.minimum(am*a,am*b), np.maximum(am*a,am*b); u0, v0_ = np.where(must,u,np.minimum(u,0)), np.where(must,v,np.maximum(v,0)); mag = mag+np.maximum(np.abs(u),np.abs(v))
		if op == "add": lo += u0; hi += v0_
		elif op == "max": lo = np.maximum(lo,u0); hi = np.maximum(hi,v0_)
		else: lo = np.minimum(lo,u0); hi = np.minimum(hi,v0_)
	tol = 3e-6*mag*(1+n**.5)+1e-37; g = np.asarray(got,float); bad = (g<lo-tol)|(g>hi+tol)|~np.isfinite(g)
	if np.any(bad): k = tuple(np.argwhere(bad)[0]); t.true(False,"pixel %s: %g not in [%g,%g], %d bad" % (k,g[k],lo[k],hi[k],bad.sum()))

def gen_meta(d): return {"geo":gen_geo(d),"prof":[gen_prof(d)],"pos":gen_pos(d),"cs":d.choice([1,3,5,16,64]),"nc":d.int(1,3),"seed":d.seed(),"rep":d.bool()}
@prop.law(gen_meta, quick=200, rule="at least one object, whole map on the sky")
def meta(c, t):
	"""Cell size, object order and separability make no difference; linear in the amplitudes; the transpose is the adjoint"""
	r, shape, wcs, pm, pix, pos = setup(c,t); n = pos.shape[1]
	if not onsky(pm) or n == 0: return
	nc = c["nc"]; p = profile(c["prof"][0],pix); p[1,-1] = 0; a1 = r.standard_normal((nc,n)).astype("float32"); a2 = r.standard_normal((nc,n)).astype("float32"); mag = np.abs(a1).max()*max(1,np.abs(p[1]).max())*n**.5
	sim = lambda a,q=pos,**kw: np.asarray(pointsrcs.sim_objects(shape,wcs,q,a,p,vmin=0,**kw),float)
	m1 = sim(a1); o = r.permutation(n); slope = np.max(np.abs(np.diff(p[1])/np.diff(p[0]))); jump = EPS*slope*n; tol = 1e-5*mag*(1+np.abs(p[1]).max())+jump*np.abs(a1).max()
	t.close(sim(a1[:,o],pos[:,o]),m1,"order of the objects",rtol=0,atol=tol); t.close(sim(a1+2*a2),m1+2*sim(a2),"linear",rtol=0,atol=3*tol*max(1,np.abs(a2).max()/np.abs(a1).max()))
	if gentle(c,pm): t.close(sim(a1,separable=False),m1,"separable or not",rtol=0,atol=4*tol)
	ys, xs = utils.nint(enmap.sky2pix(shape,wcs,pos)).astype(np.int32) if np.all(np.isfinite(enmap.sky2pix(shape,wcs,pos))) else (None,None)
	if ys is not None:
		full = enmap.zeros((nc,)+shape,wcs,"float32"); f = pos.astype("float32"); srcsim.sim_objects(full,f[0].copy(),f[1].copy(),ys,xs,a1,[p],np.zeros(n,np.int32),enmap.posaxes(shape,wcs,dtype="float32") if c["geo"]["k"]!="zen" else geo.ref_posmap(shape,wcs).astype("float32"),0.,separable=c["geo"]["k"]!="zen",csize=c["cs"]); t.close(np.asarray(full,float),m1,"cell size %d" % c["cs"],rtol=0,atol=4*tol)
	x = enmap.ndmap(r.standard_normal((nc,)+shape).astype("float32"),wcs); am = np.zeros((nc,n),"float32"); pointsrcs.sim_objects(shape,wcs,pos,am,p,vmin=0,omap=x.copy(),transpose=True)
	lhs = np.sum(am.astype(float)*a1,1); rhs = np.sum(np.asarray(x,float)*m1,(-2,-1)); s = np.sum(np.abs(np.asarray(x,float)),(-2,-1)).max()
	t.close(lhs,rhs,"transpose",rtol=0,atol=5*tol*s+1e-6)

def gen_rad(d): return {"geo":gen_geo(d),"pos":gen_pos(d),"pre":d.list(lambda: d.int(1,3),0,2),"nb":d.int(2,8),"equi":d.bool(),"w":d.float(.5,8),"dtype":d.choice(["float32","float64"]),"layout":d.choice(["c","slice"]),"wt":d.choice([None,"flat","full"]),"sep":d.choice(["auto",False]),"times":d.bool(),"seed":d.seed()}
@prop.law(gen_rad, quick=300, rule="at least one object, whole map on the sky")
def radial(c, t):
	"""radial_sum adds up the pixels in each radial bin around each object, and radial_bin is their (weighted) mean"""
	r, shape, wcs, pm, pix, pos = setup(c,t); n = pos.shape[1]
	if not onsky(pm): return
	R = min(c["w"]*pix,2.5); nb = c["nb"]; bins = np.linspace(0,R,nb+1) if c["equi"] else np.concatenate([[r.choice([0,.1])*R],np.sort(r.uniform(.12,1,nb))*R])
	x = r.standard_normal(tuple(c["pre"])+shape).astype(c["dtype"])
	m = enmap.ndmap(x,wcs)
	if c["layout"]=="slice": big = enmap.ndmap(np.zeros(tuple(c["pre"])+(shape[0],shape[1]+3),c["dtype"]),wcs); big[...,:shape[1]] = x; m = big[...,:shape[1]]
	if not gentle(c,pm): c["sep"] = "auto"
	keep = np.array(m); got = pointsrcs.radial_sum(m,pos,bins,separable=c["sep"]); t.eq(np.asarray(m),keep,"map modified"); t.true(got.shape==(n,)+tuple(c["pre"])+(nb,) and got.dtype==np.float32,"shape %s" % (got.shape,)); bins = bins.astype("float32").astype(float)
	o = np.zeros_like(got); g2 = pointsrcs.radial_sum(m,pos,bins,oprofs=o,separable=c["sep"]); t.eq(g2,got,"oprofs"); t.true(g2 is o,"same object")
	w = {None:None,"flat":r.uniform(.5,2,shape),"full":r.uniform(.5,2,x.shape)}[c["wt"]]
	with np.errstate(all="ignore"): av = pointsrcs.radial_bin(m,pos,bins,weights=None if w is None else enmap.ndmap(w.astype(c["dtype"]),wcs),separable=c["sep"],**({"return_times":True} if c.get("times") else {}))
	if c.get("times"): t.true(isinstance(av,tuple) and len(av)==2,"times"); av = av[0]; o2 = pointsrcs.radial_sum(m,np.repeat(pos,2,1)[:,::2],bins,separable=c["sep"],return_times=True); t.eq(o2[0],got,"with times")
	ww = np.ones(shape) if w is None else w
	for i in range(n):
		rr = angdist(pos[0,i],pos[1,i],pm[0],pm[1])
		for b in range(nb):
			sure = (rr>=bins[b]+EPS)&(rr<bins[b+1]-EPS); maybe = (rr>=bins[b]-EPS)&(rr<bins[b+1]+EPS)&~sure
			base = np.sum(x*sure,(-2,-1)); y = x*maybe; lo = base+np.sum(np.minimum(y,0),(-2,-1)); hi = base+np.sum(np.maximum(y,0),(-2,-1)); tol = 1e-5*(1+np.sum(np.abs(x)*(sure|maybe),(-2,-1))); g = got[i][...,b]
			t.true(np.all((g>=lo-tol)&(g<=hi+tol)),"object %d bin %d: %s not in [%s,%s]" % (i,b,g,lo,hi))
			if not np.any(maybe) and np.any(sure): t.close(av[i][...,b],np.sum(x*ww*sure,(-2,-1))/np.sum(np.broadcast_to(ww,x.shape)*sure,(-2,-1)),"mean in bin",rtol=0,atol=2e-5*(1+np.abs(x).max()))

def gen_srcs(d): return {"geo":{"k":"cyl","n":[d.int(1,30),d.int(1,40)],"res":d.float(.1,2),"yres":1.,"dec":d.float(-40,40),"top":1,"ra":d.float(-200,200),"proj":d.choice(["car","cea"]),"xflip":d.bool()},"pos":d.list(lambda: [d.choice(["in","edge","same"]),d.float(0,1),d.float(0,1),0],1,6),"pre":d.choice([[],[1],[3]]),"extra":d.int(-1,2),"w":d.float(1,3),"beam":d.choice(["float","table"]),"nsigma":d.choice([5,4,5.5]),"amp":d.choice([1,1e-8,1e5]),"omap":d.bool(),"op":d.choice(["add","add","max","min"]),"opt":{"rmax":d.choice([None,.8,2.]),"smul":d.choice([1,-1,2.5]),"win":d.bool()},"seed":d.seed()}
@prop.law(gen_srcs, quick=120, rule="every generated case")
def srcs(c, t):
	"""sim_srcs gives the same sources by its c and python methods, with a beam width or a table, and only what is above the cutoff is required"""
	r, shape, wcs, pm, pix, pos = setup(c,t); n = pos.shape[1]; pre = tuple(c["pre"]); nc = int(np.prod(pre)); k = max(1,nc+c["extra"]); S = np.zeros((n,2+k)); S[:,:2] = pos.T; S[:,2:] = r.uniform(.5,2,(n,k))*c["amp"]*(-1 if c["op"]=="min" else 1)
	sig = c["w"]*pix; ns = c["nsigma"]; beam = sig
	if c["beam"]=="table": R = np.linspace(0,ns*sig,300); beam = np.array([R,np.exp(-.5*(R/sig)**2)])
	cut = np.exp(-.5*ns**2); A = np.zeros((nc,n)); A[:min(k,nc)] = S.T[2:2+nc]
	m0 = np.zeros(pre+shape); 
	if c["omap"]: m0 = (r.uniform(0,1,m0.shape)*c["amp"]*(-1 if c["op"]=="min" else 1)).astype("float32").astype(float)
	rr = np.array([angdist(p[0],p[1],pm[0],pm[1]) for p in pos.T]); src = A[:,:,None,None]*np.exp(-.5*(rr/sig)**2); op = {"add":np.add,"max":np.maximum,"min":np.minimum}[c["op"]]
	tot = {"add":src.sum(1),"max":np.maximum(src.max(1),0),"min":np.minimum(src.min(1),0)}[c["op"]].reshape(m0.shape); ref = op(m0,tot)
	tol = np.abs(A).max()*n*(2*cut+1e-4+EPS/sig); keep = S.copy()
	opt = c.get("opt",{}); rmax = opt.get("rmax"); sm = opt.get("smul",1); RM = {}
	if rmax: RM["rmax"] = rmax*sig
	for meth in ["c","python"]:
		if meth == "python" and c["geo"]["proj"]=="cea" and np.max(np.abs(pm[0]))+2.2*ns*sig > 1.2: continue # its padding would leave the sky
		t.label(meth); kw = {"omap":enmap.ndmap(m0.astype("float32" if meth=="c" else c.get("dt","float64")),wcs)} if c["omap"] else {}
		if meth=="python" and not c["omap"]: kw["dtype"] = np.float64
		SS = np.concatenate([S,np.zeros((n,max(0,nc-k)))],1) if meth=="python" else S; g = pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,nsigma=ns,op=op if meth=="python" or r.integers(2) else c["op"],method=meth,**kw); t.true(g.shape==pre+shape,"shape"); t.close(np.asarray(g,float),ref,"method "+meth,rtol=1e-5,atol=tol)
		KW = {"nsigma":ns,"op":op,"method":meth}; inside = np.where((rr<(rmax or ns)*sig-EPS)[None],src,0); wide = np.where((rr<(rmax or ns)*sig+EPS)[None],src,0); red = lambda s: {"add":s.sum(1),"max":np.maximum(s.max(1),0),"min":np.minimum(s.min(1),0)}[c["op"]].reshape(m0.shape)
		if rmax and c["op"]=="add" and c["beam"]=="float":
			t.label("rmax"); o = np.asarray(pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,**KW,**RM,**{k_:v for k_,v in kw.items() if k_!="omap"}),float); lo, hi = red(inside), red(wide); t.true(np.all((o>=lo-tol)&(o<=hi+tol)),"cut at rmax, "+meth)
		if meth == "python":
			kk = {k_:v for k_,v in kw.items() if k_!="omap"}; kk["dtype"] = np.float64; base = pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,**KW,**kk)
			if sm != 1 and c["op"]=="add": t.close(pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,smul=sm,**KW,**kk),np.asarray(base)*sm,"smul",atol=1e-12*np.abs(A).max())
			pad, sl = pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,return_padded=True,**KW,**kk); t.eq(np.asarray(pad[sl]),np.asarray(base),"padded"); ca = [None]; KW["cache"] = ca; t.eq(pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,**KW,**kk),base,"cache"); t.true(ca[0] is not None,"cache filled"); t.eq(pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,**KW,**kk),base,"with a filled cache"); ca[0] = ca[0]*0+7; z = pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,**KW,**kk); t.true(n==0 or not np.any(np.abs(src)>tol) or not np.array_equal(z,base),"cache used")
		else:
			t.raises((AssertionError,ValueError,NotImplementedError),lambda: pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,smul=2,nsigma=ns),"smul"); t.raises(ValueError,lambda: pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,op=np.multiply,nsigma=ns),"other operations")
		if opt.get("win") and min(shape)>1 and meth=="c":
			b0 = pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,nsigma=ns,op=op); t.close(pointsrcs.sim_srcs(pre+shape,wcs,SS,beam,nsigma=ns,op=op,pixwin=True),enmap.apply_window(b0),"pixel window",rtol=1e-4,atol=1e-5*np.abs(A).max()*n)
		if c["omap"]: t.true(np.shares_memory(g,kw["omap"]),"omap updated")
	t.eq(S,keep,"sources modified")
	if c["op"]=="add" and n == 1 and nc == k:
		g = np.asarray(pointsrcs.sim_srcs_dist_transform(pre+shape,wcs,S,beam,nsigma=ns,dtype=np.float64,omap=enmap.ndmap(m0.copy(),wcs)),float)-m0; q = rr[0]; px = 2*max(*np.max(np.abs(enmap.pixshapemap(shape,wcs)),(-2,-1))); f = lambda x: np.exp(-.5*(x/sig)**2)
		up = A[:,0,None,None]*f(np.maximum(q-px,0)); dn = A[:,0,None,None]*np.where(q<ns*sig-px,f(q+px),0); g = g.reshape(up.shape); e = np.abs(A).max()*(cut+1e-6); t.true(np.all((g<=up+e)&(g>=dn-e)),"dist_transform")
		t.true(np.all(g[:,q>ns*sig+px]==0) or np.abs(g[:,q>ns*sig+px]).max()<=1e-9*c["amp"],"dist_transform beyond the cutoff")
		far = S.copy(); far[:,0] = np.clip(far[:,0]+ns*sig*8+abs(pm[0,0,0]-pm[0,-1,0])*3,-1.5,1.5); both = np.concatenate([S,far]); kw_ = {"nsigma":ns,"dtype":np.float64}; b0 = pointsrcs.sim_srcs_dist_transform(pre+shape,wcs,S,beam,**kw_); t.close(b0,g.reshape(b0.shape),"dist_transform without a map",atol=1e-9*np.abs(A).max()); t.close(pointsrcs.sim_srcs_dist_transform(pre+shape,wcs,S,beam,smul=-2.5,**kw_),-2.5*b0,"smul",atol=1e-9*np.abs(A).max())
		t.close(pointsrcs.sim_srcs_dist_transform(pre+shape,wcs,both,beam,ignore_outside=True,**kw_),pointsrcs.sim_srcs_dist_transform(pre+shape,wcs,both,beam,**kw_),"ignoring those outside",atol=1e-9*np.abs(A).max()); t.label("outside")

@prop.law(lambda d: {"n1":d.int(1,12),"n2":d.int(1,12),"tol":d.logfloat(1e-4,1),"near":d.bool(),"pole":d.bool(),"ext":d.int(0,2),"seed":d.seed()}, quick=150, rule="more than one source each")
def crossmatch(c, t):
	"""crossmatch pairs each source with the closest one in the other catalogue within the tolerance"""
	r = rng(c); t.mark_trivial(min(c["n1"],c["n2"])<2); s1 = np.array([r.uniform(-np.pi,np.pi,c["n1"]),r.uniform(1.4,1.57,c["n1"]) if c["pole"] else r.uniform(-1,1,c["n1"])]).T; s2 = np.array([r.uniform(-np.pi,np.pi,c["n2"]),r.uniform(1.4,1.57,c["n2"])*1.]).T
	if c["near"]: s2 = s1[r.integers(0,c["n1"],c["n2"])]+r.standard_normal((c["n2"],2))*c["tol"]*.5; s2[:,1] = np.clip(s2[:,1],-1.57,1.57); s2[:,0] += 2*np.pi*r.integers(-1,2,c["n2"])
	s1 = np.concatenate([s1,r.standard_normal((len(s1),c["ext"]))],1); tol = min(c["tol"],.7); D = angdist(s1[:,1,None],s1[:,0,None],s2[None,:,1],s2[None,:,0]); m = np.asarray(pointsrcs.crossmatch(s1,s2,tol)).reshape(-1,2)
	if np.any(np.abs(D.min(1)-tol)<1e-9): return
	exp = [[i,int(np.argmin(D[i]))] for i in range(len(s1)) if D[i].min()<tol]; t.true([x[0] for x in exp]==[int(x) for x in m[:,0]],"matched sources"); t.close(D[m[:,0].astype(int),m[:,1].astype(int)] if len(m) else np.zeros(0),np.array([D[i,j] for i,j in exp]),"closest",atol=1e-8)

@prop.law(lambda d: {"n":[d.int(1,20),d.int(1,20)],"res":[d.int(1,6),d.int(1,6)],"pre":d.list(lambda: d.int(1,3),0,2),"seed":d.seed()}, quick=80, rule="more than one cell")
def cells(c, t):
	"""cellify cuts the map into the documented grid and uncellify joins it again"""
	r = rng(c); a = r.standard_normal(c["pre"]+c["n"]); ry, rx = c["res"]; cy, cx = c["n"][0]//ry, c["n"][1]//rx
	if cy*cx == 0: t.mark_trivial(True); return
	t.mark_trivial(cy*cx<2); g = pointsrcs.cellify(a,c["res"]); t.true(g.shape==tuple(c["pre"])+(cy,cx,ry,rx),"shape")
	for i in range(cy):
		for j in range(cx): t.eq(g[...,i,j,:,:],a[...,i*ry:(i+1)*ry,j*rx:(j+1)*rx],"cell")
	t.eq(pointsrcs.uncellify(g),a[...,:cy*ry,:cx*rx],"uncellify")
