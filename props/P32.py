import numpy as np, io, contextlib
from harness.core import Prop, rng
from harness import geo
from pixell import enmap, utils, uharm, analysis, wavelets, multimap, pointsrcs
prop = Prop("P32", assumptions=["patches of a few degrees near the equator, where the documented flat-sky errors are below 0.2 %","beams are Gaussian and resolved by the pixels"])
AM = utils.arcmin

def gen_patch(d, lo=24, hi=48): return {"n":[d.int(lo,hi),d.int(lo,hi)],"res":d.choice([.5,1.,1.5]),"dec":d.float(-1,1,2),"ra":d.choice([0.,77.,-179.9,180.,300.]),"sx":d.choice([-1,-1,1]),"sy":d.choice([1,1,-1]),"bs":d.float(1.5,2.4,2),"seed":d.seed()}
def build(c):
	ny, nx = c["n"]; r = c["res"]/60; w = geo.make_wcs("CAR",[c["ra"],0],[c["sx"]*r,c["sy"]*r],[(nx+1)/2,(ny+1)/2-c["dec"]/(c["sy"]*r)])
	return (ny,nx), w, c["bs"]*c["res"]*AM
def src(shape, wcs, bs, pos, flux=1.): return enmap.enmap(flux/(2*np.pi*bs**2)*np.exp(-.5*(geo.sky_dist(geo.ref_posmap(shape,wcs),np.asarray(pos)[:,None,None])/bs)**2),wcs)
def inside(c, r, bs, m=6): # a pixel away from the edges
	k = min(int(np.ceil(m*c["bs"])),min(c["n"])//2-1); return [int(r.integers(k,c["n"][0]-k)),int(r.integers(k,c["n"][1]-k))]
def ivar_of(c, r, shape, wcs, kind):
	x = np.full(shape,10.**r.integers(-3,3))
	if kind == "smooth": p = np.mgrid[:shape[0],:shape[1]]; x = x*(1+.5*np.sin(2*np.pi*p[0]/shape[0])*np.cos(2*np.pi*p[1]/shape[1]))
	if kind == "rough": x = x*r.uniform(.2,2,shape)
	if kind == "holes": x = x*(r.uniform(size=shape)>.2)
	return enmap.enmap(x,wcs)
def red(l, knee, alpha=-3):
	with utils.nowarn(): return 1/(1+((l+.5)/knee)**alpha)

def gen_white(d): return dict(gen_patch(d),ivar=d.choice(["const","smooth","rough","holes"]),pre=d.choice([[],[],[2]]),uht=d.bool(),b2=d.bool())
@prop.law(gen_white, quick=40, rule="uneven noise")
def white(c, t):
	"""matched_filter_white: rho and kappa are the beam-weighted and squared-beam-weighted sums over the pixels, and rho/kappa recovers a source's flux"""
	r = rng(c); shape, wcs, bs = build(c); t.mark_trivial(c["ivar"]=="const"); iv = ivar_of(c,r,shape,wcs,c["ivar"]); p = inside(c,r,bs); pos = geo.ref_pix2sky(wcs,*p); F = float(r.uniform(-5,5)); s = src(shape,wcs,bs,pos,F); m = enmap.enmap(r.standard_normal(tuple(c["pre"])+shape),wcs); uht = uharm.UHT(shape,wcs,mode="flat"); B = np.exp(-.5*uht.l**2*bs**2); b = src(shape,wcs,bs,pos)
	kw = {"uht":uht} if c["uht"] else {}
	if c["b2"]: kw["B2"] = np.exp(-.25*uht.l**2*bs**2)/(4*np.pi*bs**2)
	km, ki, kb = m.copy(), iv.copy(), B.copy(); rho, kappa = analysis.matched_filter_white(m,B,iv,**kw); t.eq(m,km,"input modified"); t.eq(iv,ki,"ivar modified"); t.eq(B,kb,"beam modified"); t.true(rho.shape==m.shape and kappa.shape==shape,"shape")
	rr, kk = np.sum(b*iv*m,(-2,-1)), np.sum(b**2*iv); t.close(np.asarray(rho)[...,p[0],p[1]],rr,"rho",atol=3e-3*np.sqrt(kk*iv.max())*np.sqrt(np.sum(b>b.max()*1e-3))/iv.max()**.5*iv.max()**.5+1e-9*abs(kk)); t.close(kappa[p[0],p[1]],kk,"kappa",rtol=1e-2)
	rho, kappa = analysis.matched_filter_white(s,B,iv,**kw); t.close(rho[p[0],p[1]]/kappa[p[0],p[1]],F,"flux of a single source",rtol=4e-3)

def gen_cov(d): return dict(gen_patch(d),knee=d.choice([0,1000,3000]),pre=d.choice([[],[],[2]]),a=d.logfloat(1e-3,1e3))
@prop.law(gen_cov, quick=40, rule="correlated noise")
def constcov(c, t):
	"""matched_filter_constcov: unbiased flux, uncertainty from the noise spectrum, linear in the map, covariant under shifts"""
	r = rng(c); shape, wcs, bs = build(c); t.mark_trivial(c["knee"]==0); uht = uharm.UHT(shape,wcs,mode="flat"); B = np.exp(-.5*uht.l**2*bs**2); iN = c["a"]*(red(uht.l,c["knee"]) if c["knee"] else np.ones(shape)); iN = enmap.enmap(np.asarray(iN)*(1+.3*np.cos(uht.l/1e4)),wcs); p = inside(c,r,bs); pos = geo.ref_pix2sky(wcs,*p); F = float(r.uniform(-5,5)); s = src(shape,wcs,bs,pos,F)
	area = shape[0]*shape[1]*(c["res"]*AM)**2*np.cos(c["dec"]*utils.degree); kk = np.sum(np.asarray(B)**2*np.asarray(iN))/area; rho, kappa = analysis.matched_filter_constcov(s,B,iN,uht); t.close(float(kappa),kk,"kappa",rtol=2e-3); t.close(rho[p[0],p[1]]/kappa,F,"flux",rtol=4e-3); m = enmap.enmap(r.standard_normal(tuple(c["pre"])+shape),wcs); km = m.copy(); r1, _ = analysis.matched_filter_constcov(m,B,iN,uht); t.eq(m,km,"input modified"); t.true(r1.shape==m.shape,"shape")
	ref = np.fft.ifft2(np.asarray(B)*np.asarray(iN)*np.fft.fft2(np.asarray(m))).real; t.close(np.asarray(r1),ref,"rho is not the filtered map",atol=3e-3*np.max(np.abs(ref))); r2, k2 = analysis.matched_filter_constcov(2*m+s,B,iN*3,uht); t.close(r2,3*(2*r1+rho),"linearity",atol=1e-9*np.max(np.abs(r2))); t.close(float(k2),3*float(kappa),"kappa scaling",rtol=1e-9)
	dx = int(r.integers(0,shape[1])); r3, _ = analysis.matched_filter_constcov(enmap.enmap(np.roll(m,dx,-1),wcs),B,iN,uht); t.close(r3,np.roll(r1,dx,-1),"shift along ra",atol=1e-9*np.max(np.abs(r1)))

def gen_corr(d): return dict(gen_patch(d,36,60),knee=d.choice([0,1000,2500]),ivar=d.choice(["const","smooth"]),hi=d.bool())
@prop.law(gen_corr, quick=40, rule="correlated or uneven noise")
def constcorr(c, t):
	"""The constant-correlation filters (lowcorr, smoothivar, dual) recover the flux of a source and the white-noise limit of the exact filter"""
	r = rng(c); shape, wcs, bs = build(c); t.mark_trivial(c["knee"]==0 and c["ivar"]=="const"); uht = uharm.UHT(shape,wcs,mode="flat"); B = np.exp(-.5*uht.l**2*bs**2); iC = enmap.enmap(np.asarray(red(uht.l,c["knee"])) if c["knee"] else np.ones(shape),wcs); iv = ivar_of(c,r,shape,wcs,c["ivar"]); p = inside(c,r,bs); pos = geo.ref_pix2sky(wcs,*p); F = float(r.uniform(-5,5)); s = src(shape,wcs,bs,pos,F); pa = (c["res"]*AM)**2*np.cos(c["dec"]*utils.degree)
	R = {"low":analysis.matched_filter_constcorr_lowcorr(s,B,iv,iC,uht),"smooth":analysis.matched_filter_constcorr_smoothivar(s,B,iv,iC,uht),"dual":analysis.matched_filter_constcorr_dual(s,B,iv,iC,uht)}
	if c["hi"]: R["high_acc"] = analysis.matched_filter_constcorr_lowcorr(s,B,iv,iC,uht,high_acc=True)
	kk = iv[p[0],p[1]]*np.sum(np.asarray(B)**2*np.asarray(iC))/(shape[0]*shape[1])/pa**1/pa; tol = 4e-3 if c["ivar"]=="const" else .08
	for k, (rho, kappa) in R.items(): t.true(rho.shape==shape and kappa.shape==shape,k+" shape"); t.close(rho[p[0],p[1]]/kappa[p[0],p[1]],F,k+" flux",rtol=tol); t.close(kappa[p[0],p[1]]*pa,kk*pa,k+" kappa",rtol=tol*1.5)
	if c["knee"] == 0:
		w = analysis.matched_filter_white(s,B,iv,uht)
		for k in ("low","dual"): t.close(R[k][0],w[0],k+" rho differs from the white filter",atol=4e-3*np.max(np.abs(w[0]))); t.close(R[k][1],w[1],k+" kappa differs from the white filter",rtol=4e-3)

def gen_nmat(d): return dict(gen_patch(d),ncomp=d.int(1,3),kind=d.choice(["cov","corr","corr"]),knee=d.choice([0,1500]),ivar=d.choice(["const","smooth"]),dtype=d.choice(["f8","f8","f4"]))
def nmat_setup(c, r):
	shape, wcs, bs0 = build(c); n = c["ncomp"]; l = enmap.modlmap(shape,wcs); bss = bs0*(1+(.2 if c["kind"]=="cov" else 0)*np.arange(n)); beam = enmap.enmap(np.array([np.exp(-.5*np.asarray(l)**2*b**2) for b in bss]),wcs); sh = np.asarray(red(l,c["knee"])) if c["knee"] else np.ones(shape); A = r.uniform(-1,1,(n,n))*.3; C = A@A.T+np.eye(n); D = np.diag(C)**-.5; C = C*D[:,None]*D[None]; iv = np.array([np.asarray(ivar_of(c,r,shape,wcs,c["ivar"])) for _ in range(n)])
	pa = enmap.pixsize(shape,wcs)
	if c["kind"] == "cov": s = iv[:,0,0]**.5; iN = enmap.enmap((C*s[:,None]*s[None])[:,:,None,None]*sh/pa,wcs); N = analysis.NmatConstcov(iN.astype(c["dtype"]),1); W = iN
	else: iN = enmap.enmap(C[:,:,None,None]*sh,wcs); N = analysis.NmatConstcorr(iN.astype(c["dtype"]),enmap.enmap(iv,wcs).astype(c["dtype"])); W = iN
	return shape, wcs, bss, beam.astype(c["dtype"]), N, iN, iv, C, sh
@prop.law(gen_nmat, quick=40, rule="several maps")
def nmat(c, t):
	"""Nmat classes: joint filtering of several maps gives unbiased fluxes, and kappa is their inverse covariance"""
	r = rng(c); shape, wcs, bss, beam, N, iN, iv, C, sh = nmat_setup(c,r); n = c["ncomp"]; t.mark_trivial(n<2); p = inside(c,r,bss[-1]); pos = geo.ref_pix2sky(wcs,*p); F = r.uniform(1,5,n)*r.choice([-1,1],n); m = enmap.enmap(np.array([np.asarray(src(shape,wcs,b,pos,f)) for b,f in zip(bss,F)]),wcs).astype(c["dtype"]); km = m.copy(); rho, kappa = N.matched_filter(m,beam); t.eq(m,km,"input modified"); t.true(rho.shape==m.shape and kappa.shape==(n,n)+shape,"shape"); t.true(np.asarray(rho).dtype.kind=="f" and np.asarray(kappa).dtype.kind=="f","real output expected")
	K = np.asarray(kappa)[:,:,p[0],p[1]].astype(float); f = np.linalg.solve(K,np.asarray(rho)[:,p[0],p[1]].astype(float)); uni = c["ivar"]=="const" or c["kind"]=="cov"; exact = uni and (c["kind"]=="cov" or c["knee"]==0 or n==1); t.close(f,F,"fluxes",atol=(5e-3 if exact else .15)*np.max(np.abs(F)))
	area = shape[0]*shape[1]*enmap.pixsize(shape,wcs)
	if c["kind"] == "cov": t.close(K,np.sum(np.asarray(beam)[:,None]*np.asarray(iN)*np.asarray(beam)[None],(-2,-1))/area,"kappa",rtol=4e-3)
	elif uni:
		t.close(np.diag(K),np.array([np.sum(np.asarray(beam[i],float)**2*np.asarray(iN[i,i]))*iv[i,p[0],p[1]] for i in range(n)])/area/enmap.pixsize(shape,wcs),"kappa",rtol=4e-3)
	r2, k2 = N.matched_filter(-3*m,beam); t.close(r2,-3*rho,"linearity",atol=1e-5*np.max(np.abs(rho))); t.close(k2,kappa,"kappa depends on the map",rtol=1e-5)
	cache = {}
	if c["dtype"] == "f8":
		a = N.matched_filter(m,beam,cache=cache); b2 = beam**2; x = N.matched_filter(m,b2,cache=cache); y = N.matched_filter(m,b2); t.close(a[0],rho,"cached",atol=1e-9*np.max(np.abs(rho))); t.close(x[0],y[0],"cache changes the result",atol=1e-9*np.max(np.abs(y[0]))); t.close(x[1],y[1],"cache changes the result",rtol=1e-9)
	fl, df = analysis.solve_mapsys(kappa,rho); t.true(fl.shape==m.shape and df.shape==m.shape,"solve_mapsys shape"); t.close(np.asarray(fl)[:,p[0],p[1]],f,"solve_mapsys flux",rtol=1e-3); t.close(np.asarray(df)[:,p[0],p[1]],np.diag(np.linalg.inv(K))**.5,"solve_mapsys uncertainty",rtol=1e-3)

def gen_wav(d): return dict(gen_patch(d,40,64),ncomp=d.int(1,2),step=d.choice([2,3]))
@prop.law(gen_wav, quick=12, rule="always")
def nmatwave(c, t):
	"""NmatWavelet with the same inverse variance on all scales agrees with white noise: unbiased fluxes"""
	r = rng(c); shape, wcs, bs = build(c); n = c["ncomp"]; l = enmap.modlmap(shape,wcs); beam = enmap.enmap(np.array([np.exp(-.5*np.asarray(l)**2*bs**2)]*n),wcs); uht = uharm.UHT(shape,wcs,mode="flat"); wt = wavelets.WaveletTransform(uht,basis=wavelets.ButterTrim(step=c["step"],lmin=300)); a = 10.**r.uniform(-2,2,n); C = np.eye(n)+.2*(np.ones((n,n))-np.eye(n)); M = C*a[:,None]**.5*a[None]**.5
	wiN = multimap.full([((n,n)+tuple(g[0][-2:]),g[1]) for g in wt.geometries],0.)
	for i in range(wt.nlevel): wiN.maps[i][:] = M[:,:,None,None]
	p = inside(c,r,bs); pos = geo.ref_pix2sky(wcs,*p); F = r.uniform(1,5,n); m = enmap.enmap(np.array([np.asarray(src(shape,wcs,bs,pos,f)) for f in F]),wcs); km = m.copy(); rho, kappa = analysis.NmatWavelet(wt,wiN).matched_filter(m,beam); t.eq(m,km,"input modified"); t.true(rho.shape==m.shape and kappa.shape==(n,n)+shape,"shape"); K = np.asarray(kappa)[:,:,p[0],p[1]]; t.close(np.linalg.solve(K,np.asarray(rho)[:,p[0],p[1]]),F,"fluxes",rtol=.02)

def gen_sim(d): return dict(gen_patch(d,20,32),ncomp=d.int(1,3),kind=d.choice(["cov","corr"]),knee=d.choice([0,2000]),ivar=d.choice(["const","smooth"]),dtype="f8")
@prop.law(gen_sim, quick=12, rule="always")
def simulate(c, t):
	"""Nmat.simulate: draws noise with the covariance the matrix describes"""
	r = rng(c); shape, wcs, bss, beam, N, iN, iv, C, sh = nmat_setup(c,r); n = c["ncomp"]; np.random.seed(c["seed"]%2**32); S = np.array([np.asarray(N.simulate()) for _ in range(40)]); t.true(S.shape==(40,n)+shape,"shape"); W = S if c["kind"]=="cov" else S*iv**.5; f = np.fft.fft2(W)/np.sqrt(shape[0]*shape[1]); norm = enmap.pixsize(shape,wcs) if c["kind"]=="cov" else 1
	M = np.asarray(iN)/sh; M = M[:,:,0,0]; E, V = np.linalg.eigh(M); h = (V*E**.5)@V.T; f = np.einsum("ab,sbij->saij",h,f)*sh**.5; good = sh > .05; X = (np.einsum("saij,sbij->abij",f,f.conj()).real/40*norm)[:,:,good].mean(-1); t.close(X,np.eye(n),"noise covariance times its inverse",atol=8/np.sqrt(40*good.sum())+.01)

def gen_find(d): return dict(gen_patch(d,70,110),ncomp=d.int(1,3),nsrc=d.int(0,4),kind=d.choice(["cov","corr"]),finder=d.choice(["simple","multi","multisafe","iter"]),noise=d.bool(),scal=d.bool(),ncase=d.int(1,2),pen=d.choice([None,2.,5.]),snrel=d.choice([None,.3,.6]))
def place(r, c, n, sep):
	P = []
	for _ in range(400):
		if len(P) == n: break
		k = min(14.,min(c["n"])/4); p = np.array([r.uniform(k,c["n"][0]-1-k),r.uniform(k,c["n"][1]-1-k)])
		if all(np.hypot(*(p-q))>sep for q in P): P.append(p)
	return np.array(P).reshape(-1,2)
def finder_setup(c, r, sep=28):
	c = dict(c,res=.5,bs=min(c["bs"],1.7)); shape, wcs, bs = build(c); n, K = c["ncomp"], c["ncase"]; l = np.asarray(enmap.modlmap(shape,wcs)); widths = [bs,1.8*bs][:K]; beams = [enmap.enmap(np.array([np.exp(-.5*l**2*w**2)]*n),wcs) for w in widths]; scal = [r.uniform(.5,1.5,n) if c["scal"] else np.ones(n) for _ in range(K)]; pix = place(r,c,c["nsrc"],sep); ns = len(pix); case = r.integers(0,K,ns); dec, ra = geo.ref_pix2sky(wcs,pix[:,0],pix[:,1]) if ns else (np.zeros(0),np.zeros(0))
	pa = enmap.pixsize(shape,wcs); iv0 = 1.; kap = np.array([sum(s**2)*iv0/(4*np.pi*w**2)/pa for s,w in zip(scal,widths)]); snr = np.sort(r.uniform(15,200,ns))[::-1]; flux = snr*kap[case]**-.5; m = np.zeros((n,)+shape)
	for i in range(ns):
		for j in range(n): m[j] += np.asarray(src(shape,wcs,widths[case[i]],(dec[i],ra[i]),flux[i]*scal[case[i]][j]))
	iN = enmap.enmap(np.eye(n)[:,:,None,None]*np.ones(shape)*iv0,wcs); N = analysis.NmatConstcov(iN/pa,1) if c["kind"]=="cov" else analysis.NmatConstcorr(iN,enmap.full((n,)+shape,wcs,iv0))
	if c["noise"]: m = m+r.standard_normal(m.shape)*iv0**-.5
	profs = []
	for w in widths: x = np.linspace(0,10*w,1000); profs.append([np.array([x,np.exp(-.5*(x/w)**2)])]*n)
	return shape, wcs, widths, beams, scal, pix, case, dec, ra, flux, snr, enmap.enmap(m,wcs), N, profs
def quiet(f, *a, **k):
	with contextlib.redirect_stdout(io.StringIO()): return f(*a,**k)
@prop.law(gen_find, quick=40, rule="some sources")
def find(c, t):
	"""Finders: every well-separated source is found once, at its position, with its flux, significance and class; nothing else is"""
	if c["finder"] == "iter": c["ncase"] = 1
	r = rng(c); shape, wcs, widths, beams, scal, pix, case, dec, ra, flux, snr, m, N, profs = finder_setup(c,r); ns = len(pix); t.mark_trivial(ns<1); km = m.copy(); kind = c["finder"]; n = c["ncomp"]; multi = kind in ("multi","multisafe")
	if not multi and c["ncase"] > 1: kind = "multi"; multi = True
	F = analysis.FinderSimple(N,beams[0],scaling=scal[0] if c["scal"] else 1) if not multi else quiet(analysis.FinderMulti if kind=="multi" else analysis.FinderMultiSafe,N,beams,scal if c["scal"] else None)
	if c["finder"] == "iter":
		mods = [analysis.ModellerPerfreq(shape,wcs,p,dtype=np.float32) for p in profs]; F = analysis.FinderIterative(F,mods[0] if not multi else analysis.ModellerMulti(mods))
	res = quiet(F,m,snmin=8); cat = res.cat; t.eq(m,km,"input modified"); t.true(len(cat)==ns,"%d sources, %d found" % (ns,len(cat)))
	if c["finder"] != "iter": t.true(np.all(np.diff(cat.snr)<=0),"not sorted")
	fused = set()
	for i in range(ns):
		d = geo.sky_dist((cat.dec,cat.ra),(np.full(ns,dec[i]),np.full(ns,ra[i])))/(c.get("res",1)*0+.5*AM); j = int(np.argmin(d)); t.true(j not in fused,"source found twice"); fused.add(j); w = widths[case[i]]/(.5*AM)
		t.true(d[j]<(.75 if multi else .35)+(3*w/snr[i] if c["noise"] else 0),"position is %.2f pixels off" % d[j]); loose = .25 if kind=="multi" and c["ncase"]>1 else .06; tol = loose+(5/snr[i] if c["noise"] else 0); t.close(cat.flux_tot[j],flux[i],"total flux",rtol=tol); t.close(cat.snr[j],snr[i],"snr",rtol=tol+.05); t.close(cat.dflux_tot[j],flux[i]/snr[i],"flux uncertainty",rtol=.02)
		s = scal[case[i]]; dfi = np.full(n,(4*np.pi*widths[case[i]]**2*enmap.pixsize(shape,wcs))**.5); t.close(cat.flux[j],flux[i]*s,"flux per map",atol=loose*flux[i]*s.max()+(5*dfi[0] if c["noise"] else 0)); t.close(cat.dflux[j],dfi,"uncertainty per map",rtol=.02)
		if multi: t.true(cat.case[j]==case[i],"class")
	if c["finder"] != "iter": # thresholds: relative to the brightest, and raised where there is a penalty
		t.true(res.snmin==8,"snmin"); pos = lambda cat: geo.ref_sky2pix(wcs,np.asarray(cat.dec),np.asarray(cat.ra)); pen = enmap.ones(shape,wcs)
		if c["pen"]: pen[:,shape[1]//2:] = c["pen"]
		R = quiet(F,m,snmin=8,snrel=c["snrel"],penalty=pen if c["pen"] else None); S = np.asarray(R.snr); pe = np.asarray(pen); thr = max(8,np.max(S/pe)*c["snrel"]) if c["snrel"] else 8; t.close(R.snmin,thr,"effective snmin",rtol=1e-6); t.close(np.asarray(R.snlim)*np.ones(shape),thr*pe,"snlim",rtol=1e-6); got = np.array([(x.dec,x.ra) for x in R.cat]).reshape(-1,2)
		for i in range(ns):
			edge = abs(pix[i][1]-shape[1]//2)<8 and c["pen"]; lim = thr*pe[int(round(pix[i][0])),int(round(pix[i][1]))]; near = bool(len(got)) and np.min(geo.sky_dist(got.T,np.array([dec[i],ra[i]])[:,None]))<3*.5*AM
			if not edge and snr[i]>1.3*lim: t.true(near,"source with snr %.1f not found with threshold %.1f" % (snr[i],lim))
			if not edge and snr[i]<lim/1.3: t.true(not near,"source with snr %.1f found with threshold %.1f" % (snr[i],lim))
		for i in range(ns): t.close(np.max(np.asarray(res.snr)[max(0,int(pix[i][0])-2):int(pix[i][0])+4,max(0,int(pix[i][1])-2):int(pix[i][1])+4]),snr[i],"snr map",rtol=.12+(5/snr[i] if c["noise"] else 0))
	if c["finder"] == "iter" and not c["noise"]: t.close(np.asarray(res.model),np.asarray(m),"model",atol=(.5 if multi else .1)*np.max(np.abs(m))+1e-9)

def gen_meas(d): return dict(gen_patch(d,70,110),ncomp=d.int(1,3),nsrc=d.int(0,5),kind=d.choice(["cov","corr"]),meas=d.choice(["simple","multi","iter"]),noise=False,scal=d.bool(),ncase=d.int(1,2),sep=d.choice([28,10]),order=d.bool())
@prop.law(gen_meas, quick=40, rule="some sources")
def measure(c, t):
	"""Measurers: fluxes at given positions; iteration separates overlapping sources; the catalog keeps its order"""
	if c["sep"] < 28: c["meas"] = "iter"
	r = rng(c); shape, wcs, widths, beams, scal, pix, case, dec, ra, flux, snr, m, N, profs = finder_setup(c,r,c["sep"]); ns = len(pix); t.mark_trivial(ns<1); n = c["ncomp"]; o = r.permutation(ns) if c["order"] else np.arange(ns); dt = [("ra","d"),("dec","d"),("snr","d"),("flux_tot","d"),("dflux_tot","d"),("flux","d",(n,)),("dflux","d",(n,)),("case","i")]; cat = np.zeros(ns,dt).view(np.recarray); cat.ra, cat.dec, cat.case, cat.snr = ra[o], dec[o], case[o], snr[o]; kc = cat.copy(); km = m.copy()
	if c["order"] and ns: cat.case += 1; kc = cat.copy(); pad = 1
	else: pad = 0
	ms = [analysis.MeasurerSimple(N,b,scaling=s) for b,s in zip(beams,scal)]; mods = [analysis.ModellerPerfreq(shape,wcs,p,dtype=np.float32) for p in profs]; M = analysis.MeasurerMulti([None]*pad+ms); Mod = analysis.ModellerMulti([None]*pad+mods) if ns else mods[0]
	if c["ncase"] == 1 and c["meas"] == "simple": M = ms[0]
	if c["meas"] == "iter": M = analysis.MeasurerIterative(M,Mod)
	res = M(m,cat); oc = res.cat; t.true(len(oc)==ns,"length"); t.eq(m,km,"map modified"); t.true(cat.tobytes()==kc.tobytes(),"catalog modified"); t.eq(oc.ra,cat.ra,"position changed"); t.eq(oc.dec,cat.dec,"position changed"); t.eq(oc.case,cat.case,"class changed")
	for i, j in enumerate(o):
		other = sum(flux[k]*np.exp(-.25*(np.hypot(*(pix[k]-pix[j]))*.5*AM/widths[case[k]])**2)*(widths[case[j]]/widths[case[k]])**0 for k in range(ns) if k!=j and (c["meas"]!="iter" or snr[k]<=snr[j]*4)); tol = .02*flux[j]+1.2*other
		t.close(oc.flux_tot[i],flux[j],"total flux",atol=tol); t.close(oc.flux[i],flux[j]*scal[case[j]],"flux per map",atol=tol*scal[case[j]].max()); t.close(oc.dflux_tot[i],flux[j]/snr[j],"flux uncertainty",rtol=.02); t.close(oc.snr[i],snr[j],"snr",atol=snr[j]*(tol/flux[j]+.12))

def gen_model(d): return dict(gen_patch(d,24,48),ncomp=d.int(1,3),nsrc=d.int(0,6),kind=d.choice(["perfreq","scaled","multi"]),dtype="f4",norm=d.logfloat(.01,100))
@prop.law(gen_model, quick=60, rule="some sources")
def model(c, t):
	"""Modellers: the model map is the sum of the catalog's sources with their fluxes, and amplitudes() is each source's peak"""
	r = rng(c); shape, wcs, bs = build(c); n, ns = c["ncomp"], c["nsrc"]; t.mark_trivial(ns<1); ws = bs*(1+.3*np.arange(2)); dt = [("ra","d"),("dec","d"),("flux_tot","d"),("flux","d",(n,)),("case","i")]; cat = np.zeros(ns,dt).view(np.recarray); py, px = r.uniform(0,shape[0]-1,ns), r.uniform(0,shape[1]-1,ns); cat.dec, cat.ra = geo.ref_pix2sky(wcs,py,px) if ns else (0,0); cat.flux_tot = r.uniform(-3,3,ns); cat.flux = r.uniform(-3,3,(ns,n)); cat.case = r.integers(0,2,ns); sc = r.uniform(.5,2,n); kc = cat.copy()
	def prof(w): x = np.linspace(0,8*w,2001); return np.array([x,c["norm"]*np.exp(-.5*(x/w)**2)])
	P = [[prof(w*(1+.1*j)) for j in range(n)] for w in ws]; kp = [[q.copy() for q in p] for p in P]; mk = lambda i: analysis.ModellerScaled(shape,wcs,P[i],sc,dtype=np.dtype(c["dtype"])) if c["kind"]=="scaled" else analysis.ModellerPerfreq(shape,wcs,P[i],dtype=np.dtype(c["dtype"]))
	M = analysis.ModellerMulti([mk(0),mk(1)]) if c["kind"]=="multi" else mk(0); m = M(cat); t.true(cat.tobytes()==kc.tobytes(),"catalog modified"); t.true(m.shape==(n,)+shape and m.dtype==np.dtype(c["dtype"]),"shape or type"); t.true(all(np.array_equal(a,b) for p,q in zip(P,kp) for a,b in zip(p,q)),"profiles modified"); ref = np.zeros((n,)+shape); amp = np.zeros((ns,n))
	for i in range(ns):
		for j in range(n):
			w = ws[cat.case[i] if c["kind"]=="multi" else 0]*(1+.1*j); f = cat.flux_tot[i]*sc[j] if c["kind"]=="scaled" else cat.flux[i,j]; ref[j] += np.asarray(src(shape,wcs,w,(cat.dec[i],cat.ra[i]),f)); amp[i,j] = f/(2*np.pi*w**2)
	pk = np.max(np.abs(amp),initial=0); t.close(np.asarray(m),ref,"model",atol=3e-3*pk*max(ns,1)**.5+1e-12); t.close(M.amplitudes(cat),amp,"amplitudes",atol=1e-3*pk+1e-12)
	if ns: t.close(float(utils.calc_beam_area(P[0][0]/np.array([1,c["norm"]])[:,None])),2*np.pi*ws[0]**2,"beam area",rtol=1e-3)

def gen_help(d): return {"n":d.int(1,20),"ncomp":d.int(1,4),"sntol":d.choice([.25,.5,.1]),"snmin":d.choice([.1,5.]),"seed":d.seed()}
@prop.law(gen_help, quick=100, rule="several values")
def helpers(c, t):
	"""snr_split, merge_arrays, sanitize_kappa, solve_mapsys: grouping, merging and solving helpers"""
	r = rng(c); n = c["n"]; t.mark_trivial(n<2); s = 10**r.uniform(-2,3,n)*r.choice([1,1,-1],n); ks = s.copy(); G = analysis.snr_split(s,sntol=c["sntol"],snmin=c["snmin"]); t.eq(s,ks,"input modified"); t.true(sorted(int(i) for g in G for i in g)==list(range(n)),"partition"); a = np.maximum(np.abs(s),c["snmin"]); prev = np.inf
	for g in G: v = a[np.asarray(g,int)]; t.true(v.min()>=v.max()*c["sntol"]*(1-1e-6),"group spans more than sntol"); t.true(v.max()<=prev*(1+1e-6),"groups out of order"); prev = v.min()
	t.true(len([g for g in G if np.any(np.abs(s[np.asarray(g,int)])<=c["snmin"])])<=1,"weak sources in several groups")
	x = np.zeros(n,[("a","d"),("b","i",(2,))]); y = np.zeros(n,[("c","d",(3,))]); x["a"] = r.standard_normal(n); x["b"] = r.integers(0,9,(n,2)); y["c"] = r.standard_normal((n,3)); z = analysis.merge_arrays([x,y]); t.true(z.dtype.names==("a","b","c"),"fields")
	for k, q in (("a",x),("b",x),("c",y)): t.eq(z[k],q[k],"merged field")
	k = c["ncomp"]; shape, wcs = (5,4), geo.make_wcs("CAR",[0,0],[-1,1],[2,3]); A = r.standard_normal((5,4,k,k)); A = A@np.swapaxes(A,-1,-2)+.3*np.eye(k); kap = enmap.enmap(np.moveaxis(A,(0,1),(2,3)).copy(),wcs); v = r.standard_normal((5,4,k)); rho = enmap.enmap(np.moveaxis(v,-1,0).copy(),wcs); f, df = analysis.solve_mapsys(kap,rho); t.close(np.moveaxis(np.asarray(f),0,-1),np.linalg.solve(A,v[...,None])[...,0],"solve",atol=1e-8); t.close(np.moveaxis(np.asarray(df),0,-1),np.sqrt(np.einsum("yxaa->yxa",np.linalg.inv(A))),"uncertainty",rtol=1e-8); f, df = analysis.solve_mapsys(kap[0,0],rho[0]); t.close(f,rho[0]/kap[0,0],"scalar solve",rtol=1e-12); t.close(df,np.asarray(kap[0,0])**-.5,"scalar uncertainty",rtol=1e-12)
	kz = kap.copy(); kz[0,0,2,2] = -1; kz[k-1,k-1,1,1] = 0; kk = kz.copy(); q = analysis.sanitize_kappa(kz,tol=1e-3); t.eq(kz,kk,"input modified")
	for i in range(k):
		for j in range(k): t.eq(q[i,j],kk[i,j] if i!=j else np.maximum(kk[i,i],kk[i,i].max()*1e-3),"sanitize_kappa")

def gen_rop(d): return dict(gen_patch(d,8,30),exp=d.choice([1,2,3]),pre=d.choice([[],[2]]))
@prop.law(gen_rop, quick=40, rule="power above 1")
def rops(c, t):
	"""rpow, rmul, rop and UHT.hprof_rpow: real-space powers and products of Fourier profiles"""
	r = rng(c); shape, wcs, bs = build(c); t.mark_trivial(c["exp"]<2); l = np.asarray(enmap.modlmap(shape,wcs)); pa = enmap.pixsize(shape,wcs); f = lambda: enmap.enmap(np.exp(-.5*l**2*(bs*r.uniform(.8,1.5,tuple(c["pre"]))[...,None,None] if c["pre"] else bs*r.uniform(.8,1.5))**2),wcs)
	a, b = f(), f(); ra, rb = [np.fft.ifft2(np.asarray(x)).real/pa for x in (a,b)]; fw = lambda x: np.fft.fft2(x).real*pa; ka = a.copy(); R = fw(ra**c["exp"]); t.close(analysis.rpow(a,c["exp"]),R,"rpow",atol=1e-6*np.abs(R).max()); R = fw(ra*rb); t.close(analysis.rmul(a,b),R,"rmul",atol=1e-6*np.abs(R).max()); t.close(analysis.rop(a,b),R,"rop",atol=1e-6*np.abs(R).max()); t.close(analysis.rop(a,b,op=lambda x,y: 2*x-y),2*a-b,"rop linear",atol=1e-9); t.eq(a,ka,"input modified")

def gen_circ(d): return dict(gen_patch(d,16,40),k=d.int(1,5),rad=d.float(1.2,6,2),own=d.bool())
@prop.law(gen_circ, quick=60, rule="several points")
def circles(c, t):
	"""make_circle_labels: pixels closer than r to a point carry the label of their closest point, others 0"""
	r = rng(c); shape, wcs, bs = build(c); t.mark_trivial(c["k"]<2); idx = r.choice(shape[0]*shape[1],c["k"],replace=False); pix = np.array(np.unravel_index(idx,shape)); rad = c["rad"]*c["res"]*AM; inds = 1+r.permutation(c["k"]+3)[:c["k"]] if c["own"] else None; lab = np.asarray(analysis.make_circle_labels(shape,wcs,pix,inds=inds,r=rad)); L = inds if inds is not None else np.arange(1,c["k"]+1); pm = geo.ref_posmap(shape,wcs); D = np.array([geo.sky_dist(pm,pm[:,y,x][:,None,None]) for y,x in pix.T]); s = np.sort(D,0); best = D.min(0); sure = np.abs(best-rad)>.75*c["res"]*AM
	if c["k"] > 1: sure &= s[1]-s[0] > .75*c["res"]*AM
	t.eq(lab[sure],np.where(best<rad,L[np.argmin(D,0)],0)[sure],"labels")

def gen_curved(d): return {"N":d.int(40,56),"variant":d.choice(["fejer1","cc"]),"f":d.choice(["white","cov","low","smooth","dual"]),"dec":d.float(-1,1,2),"ra":d.float(-3,3,2),"knee":d.choice([0,5]),"a":d.logfloat(.01,100),"bs":d.float(2.2,3,2),"seed":d.seed()}
@prop.law(gen_curved, quick=20, rule="away from the equator")
def curved(c, t):
	"""The matched filters on the curved sky: a point source anywhere on the sphere keeps its flux, and kappa is the noise-weighted sum over multipoles"""
	r = rng(c); N = c["N"]; t.mark_trivial(abs(c["dec"])<.1); ny = N+(c["variant"]=="cc"); w = geo.make_wcs("CAR",[0,0],[-180/N,180/N],[N+.5,(ny+1)/2]); shape = (ny,2*N); lmax = int(N*.7); uht = uharm.UHT(shape,w,mode="curved",lmax=lmax); l = uht.l; bs = c["bs"]*np.pi/N; B = np.exp(-.5*l*(l+1)*bs**2); y, x = [int(np.round(q)) for q in w.wcs_world2pix(np.degrees(c["ra"]),np.degrees(c["dec"]),0)][::-1]; x %= 2*N; pos = geo.ref_pix2sky(w,y,x); cosr = np.cos(geo.sky_dist(geo.ref_posmap(shape,w),np.asarray(pos)[:,None,None])); F = float(r.uniform(1,5))*r.choice([-1,1]); m = enmap.enmap(F*np.polynomial.legendre.legval(cosr,(2*l+1)/(4*np.pi)*B),w); th = np.abs(np.cos(geo.ref_posmap(shape,w)[0])); pa = np.maximum(th,1e-3)*(np.pi/N)**2; iv = enmap.enmap(c["a"]*pa,w)
	C = np.ones(lmax+1)/(1+(c["knee"]/(l+.5))**2); f = c["f"]; A = analysis; C = C if f in ("cov","smooth") else C*0+1
	rho, kappa = A.matched_filter_white(m,B,iv,uht) if f=="white" else A.matched_filter_constcov(m,B,c["a"]*C,uht) if f=="cov" else A.matched_filter_constcorr_lowcorr(m,B,iv,C,uht) if f=="low" else A.matched_filter_constcorr_smoothivar(m,B,iv,C,uht) if f=="smooth" else A.matched_filter_constcorr_dual(m,B,iv,C,uht)
	k = float(kappa if f=="cov" else kappa[y,x]); t.close(float(rho[y,x])/k,F,"flux",rtol=.02); t.close(k,c["a"]*np.sum((2*l+1)*B**2*C)/(4*np.pi),"kappa",rtol=.03)
