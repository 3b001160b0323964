import numpy as np
from harness.core import Prop, rng
from harness import geo, sht
from pixell import enmap, uharm, wavelets, curvedsky, multimap, utils
prop = Prop("P29", assumptions=["curved-sky reconstruction is claimed for full-sky grids that resolve the band limit","every wavelet scale contains at least one multipole of the map"])
DEG = np.pi/180
def weq(a, b): return all(np.array_equal(getattr(a.wcs,k),getattr(b.wcs,k)) for k in ("crval","cdelt","crpix")) and list(a.wcs.ctype)==list(b.wcs.ctype)

def gen_flat(d, nmax=14): return {"n":[d.int(1,nmax),d.int(1,nmax)],"res":d.choice([.1,.5,1.]),"flip":[d.bool(),d.bool()],"dec":d.choice([0.,0.,30.,-50.]),"pre":d.choice([[],[3],[3],[2,3],[2]]),"spin":d.choice([0,0,[0,2]]),"dtype":d.choice(["float64","float64","float32"]),"seed":d.seed()}
def build(c):
	ny, nx = c["n"]; r = c["res"]; return (ny,nx), geo.make_wcs("car",[12.,0],[r*(1 if c["flip"][0] else -1),r*(1 if c["flip"][1] else -1)],[nx/2.,ny/2.-c["dec"]/(r*(1 if c["flip"][1] else -1))])
def dot(a, b): return float(np.sum(np.real(np.conj(np.asarray(a))*np.asarray(b))))
def lmod(shape, wcs):
	"""|l| of each Fourier mode, from the physical pixel size the library uses"""
	ph = enmap.pixshape(shape,wcs); ly = np.fft.fftfreq(shape[-2])*2*np.pi/abs(ph[0]); lx = np.fft.fftfreq(shape[-1])*2*np.pi/abs(ph[1]); return np.hypot(ly[:,None],lx[None])
@prop.law(gen_flat, quick=150, rule="more than one pixel")
def uht_flat(c, t):
	"""Flat-sky UHT is the physically normalized FFT: inverse pair, adjoint pair, power and profile multiplication"""
	shape, wcs = build(c); r = rng(c); n = np.prod(shape); t.mark_trivial(n<2); dt = np.dtype(c["dtype"]); sp = c["spin"] if c["pre"][-1:] == [3] else 0; pre = tuple(c["pre"]); m = enmap.ndmap(r.standard_normal(pre+shape).astype(dt),wcs); keep = m.copy(); u = uharm.UHT(pre+shape,wcs,mode="flat"); a = enmap.pixsize(shape,wcs); e = 2e-5 if dt==np.float32 else 1e-11
	h = u.map2harm(m,spin=sp); t.eq(m,keep,"input modified"); sc = (a*n)**.5
	if sp == 0: t.close(h,np.fft.fft2(keep)*(a/n)**.5,"definition",atol=e*sc,rtol=0)
	t.close(h,enmap.map2harm(keep,spin=sp,normalize="phys"),"as enmap",atol=e*sc,rtol=0); b = u.harm2map(h,spin=sp); t.true(b.dtype==dt and b.shape==m.shape,"type"); t.close(b,keep,"round trip",atol=e*50,rtol=0)
	q = enmap.ndmap(r.standard_normal(pre+shape)+1j*r.standard_normal(pre+shape),wcs); md = enmap.ndmap(np.asarray(keep,float),wcs); x, y = dot(u.harm2map(q,spin=sp),md), dot(q,u.harm2map_adjoint(md,spin=sp)); t.true(abs(x-y)<=1e-9*(1+n/a**.5),"harm2map adjoint %g %g" % (x,y)); x, y = dot(u.map2harm(md,spin=sp),q), dot(md,u.map2harm_adjoint(q,spin=sp)); t.true(abs(x-y)<=1e-9*n,"map2harm adjoint %g %g" % (x,y))
	t.close(u.l,lmod(shape,wcs),"multipoles",rtol=1e-6,atol=1e-9); t.true(u.npix==n and u.mode=="flat","npix"); t.close(u.quad_weights()+m*0,np.asarray(enmap.pixsizemap(shape,wcs))+np.asarray(m)*0,"quadrature",rtol=1e-6)
	area = np.sum(np.asarray(enmap.pixsizemap(shape,wcs))); t.close(u.area,area,"area",rtol=1e-3); h = np.asarray(h,complex); p = u.harm2powspec(enmap.ndmap(h,wcs)); t.close(p,np.abs(h)**2,"power",atol=1e-12,rtol=1e-6); t.close(u.sum_hprof(p),np.sum(np.abs(h)**2,(-2,-1))/u.fsky,"sum",rtol=1e-6); t.close(u.mean_hprof(p),np.mean(np.abs(h)**2,(-2,-1)),"mean",rtol=1e-6)
	nl = int(np.max(u.l))+int(r.integers(-3,4)); lp = r.standard_normal(max(2,nl)); hp = u.lprof2hprof(lp); inside = lmod(shape,wcs)<=len(lp)-1; t.close(np.asarray(hp)[inside],np.interp(lmod(shape,wcs),np.arange(len(lp)),lp)[inside],"lprof2hprof",atol=1e-6); t.true(np.all(np.asarray(hp)[lmod(shape,wcs)>len(lp)+1]==0),"zero beyond the profile"); t.close(u.hmul(hp,enmap.ndmap(h,wcs)),h*np.asarray(hp),"hmul",atol=1e-12); hh = enmap.ndmap(h.copy(),wcs); u.hmul(hp,hh,inplace=True); t.close(hh,h*np.asarray(hp),"hmul in place",atol=1e-12); t.eq(u.hprof2harm(hp),hp,"hprof2harm")
	if pre:
		k = pre[-1]; M = r.standard_normal((k,k)+shape); t.close(u.hmul(enmap.ndmap(M,wcs),enmap.ndmap(h,wcs)),np.einsum("abyx,...byx->...ayx",M,h),"matrix hmul",atol=1e-9)

def gen_hr(d): return {"n":[d.int(1,8),d.int(1,8)],"res":1.,"flip":[False,False],"dec":0.,"kind":d.choice(["scalar","diag","mat"]),"mode":d.choice(["flat","curved"]),"seed":d.seed()}
@prop.law(gen_hr, quick=30, rule="every generated case")
def hrand(c, t):
	"""Realisations of a harmonic profile have it as their mean power spectrum"""
	shape, wcs = build(c); r = rng(c); np.random.seed(c["seed"]%2**32); L = 6; n = 400
	A = r.standard_normal((2,2)); C = A@A.T+.1*np.eye(2); C = {"scalar":C[0,0],"diag":np.diag(C),"mat":C}[c["kind"]]; C = np.asarray(C)
	if c["mode"] == "flat": u = uharm.UHT(shape,wcs,mode="flat"); s = r.uniform(.5,2,shape); s = np.fft.fft2(np.fft.ifft2(s).real).real*0+1+np.cos(np.fft.fftfreq(shape[0]))[:,None]*np.ones(shape); hp = enmap.ndmap(C[...,None,None]*s,wcs)
	else:
		g = sht.ducc_wcs("F1",2*L+2,2*L+2,[False,False],0,0); u = uharm.UHT(*geo.build(g),mode="curved",lmax=L); s = 1+1/(1.+np.arange(L+1)); hp = C[...,None]*s
	x = np.array([np.asarray(u.hrand(hp)) for i in range(n)]); t.true(x.shape[1:-2 if c["mode"]=="flat" else -1]==C.shape[-1:],"components %s" % (x.shape,))
	if c["kind"] == "scalar": x = x[:,None]; C = C.reshape(1,1)
	elif c["kind"] == "diag": C = np.diag(C)
	if c["mode"] == "flat":
		P = np.einsum("iayx,ibyx->abyx",x,x.conj()).real/n/s; P = P.mean((-2,-1)); nm = n*shape[0]*shape[1]/2; t.close(np.abs(np.fft.ifft2(x[0])*1).imag,0*np.abs(x[0]),"real map",atol=1e-9)
	else: P = np.mean([[[u.mean_hprof(curvedsky.alm2cl(x[i,a],x[i,b])/s) for b in range(len(C))] for a in range(len(C))] for i in range(0,n,4)],0); nm = n/4*(L+1)**2/2
	tol = 7*np.sqrt(2/nm)*np.sqrt(np.outer(np.diag(C),np.diag(C))); t.true(np.all(np.abs(P-C)<tol),"mean spectrum %s vs %s" % (P.tolist(),C.tolist()))

def gen_cur(d): return {"L":d.int(2,5),"kind":d.choice(["F1","CC"]),"ey":d.int(0,3),"ex":d.int(0,3),"flip":[d.bool(),d.bool()],"ra0":d.choice([0.,13.5]),"xoff":d.choice([0.,-3.7]),"spin":d.choice([0,0,[0,2]]),"pre":d.choice([[],[3],[3],[2,3]]),"niter":d.choice([0,0,1]),"dtype":d.choice(["float64","float64","float32"]),"seed":d.seed()}
@prop.law(gen_cur, quick=120, rule="every generated case")
def uht_curved(c, t):
	"""Curved-sky UHT is the spherical harmonic transform: inverse pair, adjoint pair, quadrature, power and profiles"""
	L = c["L"]; r = rng(c); g = sht.ducc_wcs(c["kind"],2*L+3+c["ey"],2*L+2+c["ex"],c["flip"],c["ra0"],c["xoff"]); shape, wcs = geo.build(g); dt = np.dtype(c["dtype"]); pre = tuple(c["pre"]); sp = c["spin"] if pre[-1:] == (3,) else 0; u = uharm.UHT(shape,wcs,mode="curved",lmax=L,niter=c["niter"]); nl = len(sht.lms(L,L)); ls = np.array([l for l,m in sht.lms(L,L)])
	a = sht.rand_alm(r,pre,L)
	if sp != 0: a[...,1:,ls<2] = 0
	a = a.astype(np.result_type(dt,0j)); keep = a.copy(); m = u.harm2map(a,spin=sp); t.eq(a,keep,"input modified"); e = 3e-4 if dt==np.float32 else 1e-10; t.true(m.dtype==dt and m.shape==pre+shape and weq(m.wcs,wcs),"type")
	A = a.reshape((-1,)+(3,)*(sp!=0)+(nl,)).astype(complex); pos = sht.posmap(g).reshape(2,-1); ref = np.array([np.concatenate([sht.synth(x[:1],pos,L),sht.synth(x[1:],pos,L,spin=2)]) if sp != 0 else sht.synth(x[None],pos,L)[0] for x in A]).reshape(m.shape); ok = np.abs(np.abs(pos[0])-np.pi/2).reshape(shape)>1e-6 if sp != 0 else np.ones(shape,bool)
	t.close(np.asarray(m)[...,ok],ref[...,ok],"synthesis",atol=e*np.abs(a).sum(),rtol=0); b = u.map2harm(m,spin=sp); t.close(b,keep,"round trip",atol=e*np.abs(a).sum(),rtol=0)
	M = enmap.ndmap(r.standard_normal(m.shape),wcs); ad = a.astype(complex); f = lambda p,q: sht.aprod(p,q,L); x, y = dot(u.harm2map(ad,spin=sp),M), f(ad,u.harm2map_adjoint(M,spin=sp)); t.true(abs(x-y)<=1e-9*(1+np.abs(a).sum()*M.size),"harm2map adjoint %g %g" % (x,y))
	if c["niter"] == 0: x, y = f(u.map2harm(M,spin=sp),ad), dot(M,u.map2harm_adjoint(ad,spin=sp)); t.true(abs(x-y)<=1e-9*(1+np.abs(a).sum()*M.size),"map2harm adjoint %g %g" % (x,y)); t.close(u.harm2map_adjoint(enmap.ndmap(np.asarray(m,float),wcs)*u.quad_weights(),spin=sp),b,"map2harm is the weighted adjoint",atol=e*np.abs(a).sum(),rtol=0)
	w = np.where([mm==0 for l,mm in sht.lms(L,L)],1,2); cl = np.stack([np.sum((np.abs(ad)**2*w)[...,ls==l],-1)/(2*l+1) for l in range(L+1)],-1); P = u.harm2powspec(ad); t.close(P,cl,"power",atol=1e-9); t.close(u.sum_hprof(P),np.sum(np.abs(ad)**2*w,-1),"sum",rtol=1e-9); t.close(u.mean_hprof(P),np.sum(np.abs(ad)**2*w,-1)/(L+1)**2,"mean",rtol=1e-9); t.close(u.harm2powspec(ad,patch=True)*u.fsky,cl,"patch",atol=1e-9)
	lp = r.standard_normal(L+1+int(r.integers(-2,3))); hp = u.lprof2hprof(lp); full = np.zeros(L+1); k = min(L+1,len(lp)); full[:k] = lp[:k]; t.eq(hp,full,"lprof2hprof"); t.eq(u.hprof2harm(hp),full[ls],"hprof2harm"); t.close(u.hmul(hp,ad),ad*full[ls],"hmul",atol=1e-12); q = ad.copy(); u.hmul(hp,q,inplace=True); t.close(q,ad*full[ls],"hmul in place",atol=1e-12)
	mp = u.ainfo.get_map(); t.eq(np.asarray(mp),np.array(sht.lms(L,L)),"get_map")

def gen_prof(d): return {"sig":d.logfloat(.3,3),"mode":d.choice(["flat","curved"]),"amp":d.float(.1,10),"pow":d.choice([1,2,3]),"flip":[d.bool(),d.bool()],"n":[d.int(64,80),d.int(64,80)],"dec":0.,"seed":d.seed()}
@prop.law(gen_prof, quick=40, rule="every generated case")
def profiles(c, t):
	"""Gaussian radial profiles transform to their analytic harmonic form and back, and to their powers, on both skies"""
	s = c["sig"]*DEG; A = c["amp"]; r = np.linspace(0,8*s,2000); br = A*np.exp(-.5*(r/s)**2)
	if c["mode"] == "flat": c = dict(c,res=c["sig"]/2.5); shape, wcs = build(c); u = uharm.UHT(shape,wcs,mode="flat")
	else: shape, wcs = enmap.fullsky_geometry(res=np.pi/np.ceil(2*np.pi/s),variant="fejer1"); u = uharm.UHT(shape,wcs,mode="curved",lmax=int(4/s))
	l = np.asarray(u.l); B = lambda A,s: A*2*np.pi*s**2*np.exp(-.5*(l*s)**2); e = (.01+60*s**2 if c["mode"]=="flat" else .01+2*s)*A*2*np.pi*s**2
	h = u.rprof2hprof(br,r); t.close(h,B(A,s),"profile to harmonic",atol=e,rtol=0); h2 = u.rprof2hprof(np.array([br,2*br]),r); t.close(h2[1],2*np.asarray(h),"several profiles",rtol=1e-9,atol=1e-15); x = np.array([0,.5,1,2])*s; b = u.hprof2rprof(h,x); t.close(b,A*np.exp(-.5*(x/s)**2),"back",atol=(.06+60*s**2)*A,rtol=0)
	p = c["pow"]; q = np.real(u.hprof_rpow(h,p)); t.close(q,B(A**p,s/p**.5),"power",atol=(.02+60*s**2+2*s*(c["mode"]!="flat"))*A**p*2*np.pi*s**2/p,rtol=0)
	if c["mode"] == "flat": t.close(u.hprof_rpow(h,1),h,"first power",atol=1e-9*e/.01,rtol=0)

def mkbasis(c):
	k = c["basis"]; kw = {"step":c["step"],"shape":c["bshape"]}
	if k == "butter": return wavelets.Butterworth(tol=c["tol"],**kw)
	if k == "trim": return wavelets.ButterTrim(trim=c["trim"],**kw)
	if k == "digital": return wavelets.DigitalButterTrim(trim=c["trim"],**kw)
	if k == "default": return wavelets.ButterTrim()
def gen_it(d): return {"L":d.int(2,8),"ny":d.int(3,12),"nx":d.int(3,14),"dec0":d.float(-30,20),"ra0":d.float(-180,180),"res":d.float(.5,8),"spin":d.choice([0,0,[0,2]]),"pre":d.choice([[],[3],[2,3]]),"niter":d.int(1,3),"seed":d.seed()}
@prop.law(gen_it, quick=40, rule="more than one iteration, or components")
def iterations(c, t):
	"""On a part of the sky the adjoint analysis is the adjoint of the analysis with and without iterations"""
	L = c["L"]; r = rng(c); n = c["niter"]; res = min(c["res"],60/c["ny"],350/c["nx"]); shape = (c["ny"],c["nx"]); wcs = geo.make_wcs("car",[c["ra0"],0],[-res,res],[c["nx"]/2,1-c["dec0"]/res]); pre = tuple(c["pre"]); sp = c["spin"] if pre else 0; t.mark_trivial(n<2 and not pre)
	us = [uharm.UHT(shape,wcs,mode="curved",lmax=L,niter=k) for k in (n,0)]
	x = sht.rand_alm(r,pre,L); f = lambda p,q: sht.aprod(p,q,L); M = enmap.ndmap(r.standard_normal(pre+shape),wcs)
	if sp != 0: x[...,1:,np.array([l for l,mm in sht.lms(L,L)])<2] = 0
	for i, u in enumerate(us):
		y = u.map2harm_adjoint(x.copy(),spin=sp); a = u.map2harm(M,spin=sp); u1, v = f(a,x), dot(M,y); t.true(y.shape==M.shape and weq(y.wcs,wcs),"shape"); t.true(abs(u1-v)<=1e-9*(1+np.abs(x).sum()*M.size),"map2harm adjoint %g %g" % (u1,v))

def gen_b(d): return {"basis":d.choice(["butter","trim","trim","digital","default","cosine"]),"step":d.choice([2,2,1.5,3]),"bshape":d.choice([7,5,10]),"tol":d.choice([1e-3,1e-2]),"trim":d.choice([1e-2,.05])}
def gen_bases(d): c = gen_b(d); c.update({"lmin":d.int(2,40),"f":d.logfloat(4,60),"var":d.choice([False,False,True]),"peaks":sorted({d.int(1,300) for i in range(d.int(1,5))}|{0})}); return c
@prop.law(gen_bases, quick=150, rule="more than one scale")
def bases(c, t):
	"""The squared filters of each wavelet basis sum to one, are non-negative, and vanish outside the declared multipole range"""
	if c["basis"] == "cosine": pk = c["peaks"] if len(c["peaks"])>1 else [0,7]; b = wavelets.CosineNeedlet(pk); top = pk[-1]; t.true(b.lmin==pk[0] and b.lmax==pk[-1] and b.n==len(pk),"bounds")
	else:
		lmin, lmax = c["lmin"], int(c["lmin"]*c["f"]); b = mkbasis(c).with_bounds(lmin,lmax); top = lmax; t.true(b.n==max(0,int(np.log(lmax/lmin)/np.log(b.step)+1e-12)) or abs(np.log(lmax/lmin)/np.log(b.step)%1-.5)>.499,"number of scales")
	t.mark_trivial(b.n<2); l = np.arange(0,top+1).astype(float); F = np.array([np.asarray(b(i,l)) for i in range(b.n)]); t.true(np.all(np.isfinite(F)) and np.all(F>=-1e-9),"finite"); t.close(np.sum(F**2,0),np.ones(len(l)),"partition of unity",atol=1e-9); t.true(len(b.lmaxs)==b.n and b.lmaxs[-1]==b.lmax,"lmaxs")
	if c["basis"] in ("butter","trim","default","digital"):
		tr = 0 if c["basis"]=="butter" else b.trim; step, shp = (2,7) if c["basis"]=="default" else (c["step"],c["bshape"]); t.true(c["basis"]=="default" or c["basis"]=="butter" or tr==c["trim"],"trimming"); K = [np.clip((1+2*tr)/(1+(l/(lmin*step**(i+.5)))**(shp/np.log(step)))-tr,0,1) for i in range(b.n-1)]+[np.ones(len(l))]; ref = np.diff(np.array([0*l]+K),axis=0)
		if c["basis"] != "digital":
			t.close(F**2,ref,"difference of low-pass filters",atol=1e-9); edge = [lmin*step**(i+.5)*((1/c["tol"]-1) if c["basis"]=="butter" else (1+2*tr)/tr-1)**(np.log(step)/shp) for i in range(b.n-1)]; t.true(all(abs(x-y)<=1.01 for x,y in zip(b.lmaxs,edge)),"how far each scale goes")
			if c.get("var"):
				v = b.get_variance_basis(); w = wavelets.VarButter(step=step,shape=shp,tol=c["tol"] if c["basis"]=="butter" else 1e-3,lmin=lmin,lmax=lmax); t.true(v.n==b.n,"variance basis"); t.eq(np.asarray(v.lmaxs),np.asarray(w.lmaxs),"range of the variance basis")
				for i in range(b.n): t.eq(np.asarray(v(i,l)),np.asarray(w(i,l)),"variance of scale %d" % i)
				q = v.with_bounds(lmin,lmax); t.eq(np.asarray(q(0,l)),np.asarray(v(0,l)),"variance basis with bounds")
		else: t.true(np.all((F==0)|(F==1)),"digital filters"); D = np.cumsum(np.cumsum(F,0)-np.array(K),-1); t.true(np.all(np.abs(D)<=b.n+1.5),"digital filters follow the smooth ones: %g" % np.abs(D).max())
	lm = np.asarray(b.lmaxs); eps = {"butter":c["tol"]*1.7,"digital":2}.get(c["basis"],1e-9)
	for i in range(b.n-1): t.true(np.all(F[i,l>lm[i]]**2<=eps),"scale %d compact" % i); t.true(lm[i]<=lm[i+1] or c["basis"]!="cosine","increasing")
	if c["basis"] == "cosine":
		for i in range(b.n-1): t.close(F[i,pk[i]],1,"peak",atol=1e-9)
	else:
		tops = [l[np.argmax(F[i])] for i in range(b.n-1)]; t.true(all(tops[i]<=tops[i+1] for i in range(len(tops)-1)) or c["basis"]=="digital","ordered scales")

def gen_w(d): c = gen_flat(d,30); c.update(gen_b(d)); c.update({"pre":d.choice([[],[],[2]]),"n":[d.int(2,30),d.int(4,30)],"sub":d.bool(),"fill":d.choice([None,None,5.,-1.5]),"given":d.bool(),"ores":d.choice([None,None,None,1.])}); return c
@prop.law(gen_w, quick=150, rule="more than one scale")
def wavelet_flat(c, t):
	"""Flat wavelet maps are the filtered map at the pixels of each scale's geometry, and they add back up to the map"""
	shape, wcs = build(c); r = rng(c); dt = np.dtype(c["dtype"]); pre = tuple(c["pre"]); m = enmap.ndmap(r.standard_normal(pre+shape).astype(dt),wcs); keep = m.copy(); u = uharm.UHT(shape,wcs,mode="flat"); l = np.asarray(u.l); t.close(l,lmod(shape,wcs),"multipoles",rtol=1e-5,atol=1e-9)
	if c["basis"] == "cosine":
		pk = np.unique(np.concatenate([[0],np.quantile(l[l>0],[.2,.5]),[l.max()*1.01]])); basis = wavelets.CosineNeedlet(pk)
	else: basis = mkbasis(c)
	kw = {} if c["ores"] is None else {"ores":c["res"]*DEG*c["ores"]}; wt = wavelets.WaveletTransform(u,basis=basis,**kw); t.mark_trivial(wt.nlevel<2); b = wt.basis
	t.true(tuple(wt.shape)==shape and weq(wt.wcs,wcs) and tuple(wt.geometry[0])==shape and wt.geometry[1] is wt.wcs,"geometry"); t.true(tuple(wt.geometries[-1][0][-2:])==shape and wt.nlevel==b.n,"finest scale"); F = [np.asarray(b(i,l)) for i in range(b.n)]
	if any(not np.any(f>0) for f in F): t.mark_trivial(); return
	w = wt.map2wave(m); t.eq(m,keep,"input modified"); t.true(w.nmap==wt.nlevel and w.dtype==dt and w.pre==pre,"type"); e = 1e-4 if dt==np.float32 else 1e-9; fm = np.fft.fft2(np.asarray(keep,float)); ky, kx = np.round(np.fft.fftfreq(shape[0])*shape[0]), np.round(np.fft.fftfreq(shape[1])*shape[1]); lossless = True; sel = []
	for i in range(wt.nlevel):
		oy, ox = [int(v) for v in wt.geometries[i][0][-2:]]; iny = ((ky>=-(oy//2))&(ky<(oy+1)//2)) if oy<shape[0] else np.ones(len(ky),bool); inx = ((kx>=-(ox//2))&(kx<(ox+1)//2)) if ox<shape[1] else np.ones(len(kx),bool); mask = iny[:,None]&inx[None]; lossless &= not np.any(F[i][~mask]>1e-12)
		# modes on the edge of the small grid stand for two, and are not representable there
		if (oy<shape[0] and oy%2==0 and np.any(F[i][ky==-(oy//2)]>1e-12)) or (ox<shape[1] and ox%2==0 and np.any(F[i][:,kx==-(ox//2)]>1e-12)): lossless = False; sel.append(None); continue
		W = np.where(mask,F[i],0); norm = (np.sum(W**2)/enmap.area(*wt.geometries[i]))**.5; t.close(wt.norms[i],norm,"norm of scale %d" % i,rtol=1e-9); t.close(wt.lmids[i],np.sum(W**2*l)/np.sum(W**2),"typical multipole",rtol=1e-6)
		py, px = (np.arange(oy)+.5)*shape[0]/oy-.5, (np.arange(ox)+.5)*shape[1]/ox-.5; ref = np.einsum("...yx,yi,xj->...ij",fm*W,np.exp(2j*np.pi*np.outer(ky/shape[0],py)),np.exp(2j*np.pi*np.outer(kx/shape[1],px))).real/(norm*shape[0]*shape[1]); t.close(w.maps[i],ref,"scale %d" % i,atol=e*max(1,np.abs(ref).max()),rtol=0); sel.append(ref)
		t.close(w.maps[i].pix2sky(np.array([[0.],[0.]]),safe=False)[0],enmap.pix2sky(shape,wcs,np.array([[py[0]],[px[0]]]),safe=False)[0],"position",atol=1e-9)
	t.label("lossless" if lossless else "lossy"); o = wt.wave2map(w); t.true(o.shape==m.shape and o.dtype==dt and weq(o.wcs,wcs),"type of reconstruction")
	if lossless: t.close(o,keep,"reconstruction",atol=e*10,rtol=0)
	elif c["basis"] in ("trim","default","cosine") and c["ores"] is None: t.fail("a compact basis lost modes")
	elif c["basis"]=="butter" and c["ores"] is None: t.close(o,keep,"reconstruction",atol=.3,rtol=0)
	om = enmap.full(m.shape,wcs,7.,dt); o2 = wt.wave2map(w,omap=om); t.eq(om,o,"given output"); t.true(o2 is om,"returned")
	if c["sub"]:
		sc = sorted({int(x) for x in r.integers(0,wt.nlevel,2)}); ow = w*0+3 if c["given"] else None; v = wt.map2wave(m,owave=ow,scales=sc,fill_value=c["fill"])
		for i in range(wt.nlevel): t.eq(v.maps[i],w.maps[i] if i in sc else w.maps[i]*0+(c["fill"] or 0),"subset of scales")
		if c["given"]: t.true(v is ow,"given wavelets")

def gen_wc(d): c = gen_b(d); c.update({"L":d.int(4,7),"basis":d.choice(["trim","trim","default","cosine","butter"]),"step":d.choice([2,1.5]),"pre":d.choice([[],[],[1],[3]]),"ra0":0.,"fl":d.bool(),"sub":d.bool(),"fill":d.choice([None,2.5]),"seed":d.seed()}); return c
@prop.law(gen_wc, quick=40, rule="more than one scale")
def wavelet_curved(c, t):
	"""Curved wavelet maps are the filtered sky at the pixels of each scale's geometry, and on full-sky maps they add back up"""
	r = rng(c); L = c["L"]; ny = 2*L+4; shape, wcs = enmap.fullsky_geometry(res=np.pi/ny,variant="fejer1"); pre = tuple(c["pre"]); alm = sht.rand_alm(r,pre,L); pos = np.asarray(enmap.posmap(shape,wcs)).reshape(2,-1); N = int(np.prod(pre)); pol = pre==(3,); ls = np.array([l for l,mm in sht.lms(L,L)])
	if pol: alm[1:,ls<2] = 0
	A = alm.reshape(N,-1); ev = lambda A, p: np.concatenate([sht.synth(A[:1],p,L),sht.synth(A[1:],p,L,spin=2)]) if pol else np.array([sht.synth(a[None],p,L)[0] for a in A]); m = enmap.ndmap(ev(A,pos).reshape(pre+shape),wcs); keep = m.copy(); u = uharm.UHT(shape,wcs,mode="curved")
	basis = wavelets.CosineNeedlet([0,2,L//2+1,ny//2+2] if L < 5 or c["seed"]%2 else [0,2,L//2+1,L]) if c["basis"]=="cosine" else mkbasis(c); wt = wavelets.WaveletTransform(u,basis=basis); b = wt.basis; t.mark_trivial(wt.nlevel<2)
	if pol and np.min(b.lmaxs)<2: t.mark_trivial(); return # a spin-2 transform needs lmax >= 2
	fl = 1/(1.+np.arange(b.lmax+1)) if c["fl"] else np.ones(b.lmax+1); w = wt.map2wave(m,fl=fl if c["fl"] else None); t.eq(m,keep,"input modified")
	for i in range(wt.nlevel):
		ll = np.arange(u.lmax+1).astype(float); F = np.asarray(b(i,ll)); W = F**2*(2*ll+1)/(4*np.pi); t.close(wt.norms[i],W.sum()**.5,"norm",rtol=1e-9); t.close(wt.lmids[i],(W*ll).sum()/W.sum(),"typical multipole",rtol=1e-9); f = np.where(ls<=b.lmaxs[i],F[ls],0)/wt.norms[i]*fl[ls]; g, gw = wt.geometries[i]; p = np.asarray(enmap.posmap(g,gw)).reshape(2,-1); ref = ev(A*f,p).reshape(pre+tuple(g[-2:])); t.close(w.maps[i],ref,"scale %d" % i,rtol=0,atol=1e-6*np.abs(alm).sum())
	o = wt.wave2map(w); t.true(o.shape==m.shape and weq(o.wcs,wcs),"type"); x = ev(A*fl[ls],pos).reshape(m.shape); t.close(o,x,"reconstruction",atol=(1e-7 if c["basis"]!="butter" else 3e-2)*np.abs(alm).sum(),rtol=0)
	if c["sub"]:
		sc = sorted({int(v) for v in r.integers(0,wt.nlevel,2)}); v = wt.map2wave(m,fl=fl if c["fl"] else None,scales=sc,fill_value=c["fill"])
		for i in range(wt.nlevel): t.close(v.maps[i],w.maps[i] if i in sc else w.maps[i]*0+(c["fill"] or 0),"subset of scales",atol=1e-12)

@prop.law(lambda d: {"n":[d.int(30,60),d.int(30,60)],"res":d.choice([.1,.5]),"flip":[False,False],"dec":0.,"basis":d.choice(["trim","butter"]),"step":d.choice([2,1.5]),"bshape":7,"tol":1e-3,"trim":1e-2,"v":d.float(.1,10)}, quick=10, rule="every generated case")
def variance(c, t):
	"""The variance transform predicts uniform white noise to have the same variance in each intermediate scale"""
	shape, wcs = build(c); wt = wavelets.WaveletTransform(uharm.UHT(shape,wcs,mode="flat"),basis=mkbasis(c)); vt = wt.get_variance_transform(); w = vt.map2wave(enmap.full(shape,wcs,c["v"])); t.true(vt.nlevel==wt.nlevel,"levels")
	for i in range(wt.nlevel):
		x = np.asarray(w.maps[i])/c["v"]; t.true(np.ptp(x)<1e-6,"uniform")
		if 3 <= i < wt.nlevel-1: t.close(x.mean(),1,"variance of scale %d" % i,atol=.35,rtol=0)

def gen_haar(d): return {"g":geo.gen_cyl(d,1,20,res=(.1,3)),"nlevel":d.int(0,4),"pre":geo.gen_pre(d,2,2),"ref":d.choice([[0,0],[.1,-.2],None]),"dtype":d.choice(["float64","float64","float32"]),"seed":d.seed()}
@prop.law(gen_haar, quick=150, rule="at least one level and two pixels")
def haar(c, t):
	"""The Haar transform of any map adds back up to it, its finer levels average to zero, its coarsest is the block mean"""
	shape, wcs = geo.build(c["g"]); r = rng(c); dt = np.dtype(c["dtype"]); m = enmap.ndmap(r.standard_normal(tuple(c["pre"])+shape).astype(dt),wcs); keep = m.copy(); n = c["nlevel"]; t.mark_trivial(n==0 or m.size<2); H = wavelets.HaarTransform(n,ref=c["ref"]); w = H.map2wave(m); t.eq(m,keep,"input modified"); t.true(w.nmap==n+1 and w.maps[n].shape==m.shape and w.dtype==dt,"levels"); o = H.wave2map(w); t.true(o.shape==m.shape and weq(o.wcs,wcs),"type"); t.close(o,keep,"reconstruction",atol=1e-5 if dt==np.float32 else 1e-12,rtol=0)
	cur = keep
	for i in range(n,0,-1):
		geom = cur.geometry; off = [0,0] if c["ref"] is None else [int(x) for x in np.round(enmap.sky2pix(*geom,c["ref"])).astype(int)%2]; fine = np.asarray(w.maps[i],float)
		ys = np.searchsorted(np.arange(off[0] or 2,cur.shape[-2]+2,2),np.arange(cur.shape[-2]),side="right"); xs = np.searchsorted(np.arange(off[1] or 2,cur.shape[-1]+2,2),np.arange(cur.shape[-1]),side="right"); lab = ys[:,None]*(xs.max()+1)+xs[None]; k = lab.max()+1; cnt = np.bincount(lab.reshape(-1),minlength=k); mean = np.array([np.bincount(lab.reshape(-1),x,minlength=k)/cnt for x in np.asarray(cur,float).reshape((-1,)+(lab.size,))]); e = 1e-5 if dt==np.float32 else 1e-12
		t.close(fine.reshape(mean.shape[0],-1),(np.asarray(cur,float).reshape(mean.shape[0],-1)-mean[:,lab.reshape(-1)]),"detail level %d" % i,atol=e,rtol=0); cur = enmap.downgrade(cur,2,off=off,inclusive=True); t.close(np.asarray(cur).reshape(mean.shape),mean,"coarse level",atol=e,rtol=0)
	t.close(w.maps[0],cur,"coarsest",atol=1e-5 if dt==np.float32 else 1e-12,rtol=0)

@prop.law(lambda d: {"s":d.logfloat(1e-3,.1),"A":d.float(.1,10),"n":d.choice([512,700,300]),"which":d.choice(["default","l","r"])}, quick=40, rule="every generated case")
def radial(c, t):
	"""RadialFourierTransform takes Gaussians to Gaussians and back"""
	kw = {"default":{},"l":{"lrange":[.1,1e6]},"r":{"rrange":[1e-6,10]}}[c["which"]]; R = utils.RadialFourierTransform(n=c["n"],**kw); s, A = c["s"], c["A"]; f = lambda r: A*np.exp(-.5*(r/s)**2); F = lambda l: A*2*np.pi*s**2*np.exp(-.5*(l*s)**2); t.close(R.l*R.r[::-1],np.ones(len(R.l)),"reciprocal",rtol=1e-9); l, r = R.unpad(R.l,R.r); t.true(len(l)==c["n"],"unpad")
	h = R.unpad(R.real2harm(f)); ok = l<30/s; t.close(h[ok],F(l[ok]),"forward",atol=3e-3*F(0),rtol=0); t.close(R.real2harm(f(R.r)),R.real2harm(f),"array or function",rtol=1e-12); b = R.unpad(R.harm2real(F)); k = r>s/300; t.close(b[k],f(r[k]),"backward",atol=3e-3*A,rtol=0); q = np.array([f(R.r),2*f(R.r)]); t.close(R.real2harm(q)[1],2*R.real2harm(f),"several profiles",rtol=1e-6,atol=1e-12*A); t.close(R.harm2real(R.real2harm(f(R.r))),f(R.r),"round trip",atol=3e-3*A,rtol=0)
