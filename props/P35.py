import numpy as np, itertools, scipy.special, scipy.integrate
from harness.core import Prop, rng
from harness import geo
from pixell import enmap, utils, uharm, curvedsky
prop = Prop("P35", assumptions=["frequencies of 1 GHz to 10 THz and temperatures of 1 to 300 K","profiles no larger than a degree where the functions document a flat-sky approximation"])
h, k, C = 6.62606957e-34, 1.3806488e-23, 299792458.0

def gen_spec(d): return {"f":d.list(lambda: d.logfloat(1e9,3e12),1,5),"T":d.choice([None,None,2.7,1.,10.,300.]),"int":d.choice([None,None,"py","np"]),"shape":d.choice(["1d","2d","scalar"]),"beta":d.choice([0,1,1.5,2]),"tarr":d.bool(),"area":d.logfloat(1e-9,1e-3)}
@prop.law(gen_spec, quick=120, rule="every generated case")
def spectra(c, t):
	"""Planck, graybody and tSZ spectra, their derivatives and inverse equal the formulas, for any type of number"""
	T = c["T"] or 2.72548; f = np.array(c["f"]); x0 = h*f/k/T; f = f[x0<300]
	if len(f) == 0: f = np.array([1e11])
	if c["int"]: f = np.round(f)
	kw = {"T":T} if c["T"] else {}; fi = f.astype(np.int64) if c["int"]=="np" else f
	if c["shape"]=="2d": fi, f = fi[:,None], f[:,None]
	if c["shape"]=="scalar": f = float(f[0]); fi = int(f) if c["int"]=="py" else fi[0] if c["int"]=="np" else f
	if c["tarr"] and c["T"] and c["shape"]=="1d": T = np.full(len(f),T); kw["T"] = T
	x = h*f/k/T; ex = np.expm1(x); B = 2*h*f**3/C**2/ex*1e26; t.close(utils.planck(fi,**kw),B,"planck",rtol=1e-7); t.close(utils.blackbody(fi,**kw),B,"blackbody",rtol=1e-7); t.close(utils.graybody(fi,T,c["beta"]),B*f**c["beta"],"graybody",rtol=1e-7); t.close(utils.iplanck_T(fi,B),T+0*f,"iplanck_T",rtol=1e-7)
	dB = B*x*np.exp(x)/ex/T; t.close(utils.dplanck(fi,**kw),dB,"dplanck",rtol=1e-7); y = dB*T*(x*(ex+2)/ex-4); t.close(utils.tsz_spectrum(fi,**kw),y,"tsz_spectrum",atol=3e-6*np.max(np.abs(dB*T)),rtol=1e-6)
	t0 = {"T0":T} if c["T"] else {}; t.close(utils.flux_factor(c["area"],fi,**t0),dB*c["area"],"flux_factor",rtol=1e-7); t.close(utils.noise_flux_factor(c["area"],fi,**t0),dB*np.sqrt(2*c["area"]),"noise_flux_factor",rtol=1e-7)

def gen_airy(d): return {"x":d.list(lambda: d.logfloat(1e-9,60),1,6),"D":d.logfloat(.5,20),"lam":d.logfloat(1e-4,1e-2),"R":d.logfloat(1e-6,1.5),"d":d.list(lambda: d.float(0,2.3,3),1,5),"seed":d.seed()}
@prop.law(gen_airy, quick=80, rule="every generated case")
def airy(c, t):
	"""Airy beams in real and harmonic space are each other's transforms, with the stated area; disk overlaps are the areas of the intersections"""
	x = np.array(c["x"]); z = x/2; s = sum((-1)**m*z**(2*m)/(scipy.special.factorial(m)*scipy.special.factorial(m+1)) for m in range(15)); ref = np.where(x<3,s**2,(2*scipy.special.jv(1,x)/x)**2); t.close(utils.airy(x),ref,"airy",atol=1e-9); t.close(utils.airy(np.array([0.])),np.array([1.]),"peak")
	D, lam = c["D"], c["lam"]; lm = utils.airy_lmax(D,lam); t.close(lm,2*np.pi*D/lam,"lmax"); A = utils.airy_area(D,lam); t.close(A,4*lam**2/D**2/np.pi,"area")
	# harmonic -> real: b(r) = A/(2 pi) int lairy(l/lm) J0(l r) l dl
	u = np.linspace(0,1,4001); w = utils.lairy(u)*u
	for r in x[x<30][:3]: # airy's argument is r/2*lm, the transform's u*lm*r = 2*x*u
		v = scipy.integrate.simpson(w*scipy.special.j0(2*r*u),x=u)/scipy.integrate.simpson(w,x=u); t.close(v,utils.airy(np.array([r]))[0],"lairy is not the transform of airy",atol=1e-6)
	t.close(A*lm**2/(2*np.pi)*scipy.integrate.simpson(w,x=u),1.,"area times transform does not give a peak of 1",rtol=1e-5); t.close(utils.lairy(np.array([0,1.,1.5,-.5])),np.array([1.,0,0,1.]),"limits",atol=1e-12)
	R = c["R"]; d = np.array(c["d"])*R; Rf = R*1.0; a = np.where(d<2*R,2*R**2*np.arccos(np.minimum(d/(2*R),1))-d/2*np.sqrt(np.maximum(4*R**2-d**2,0)),0); t.close(utils.disk_overlap(d,Rf),a,"disk_overlap",atol=1e-9*R**2)
	cu = utils.disk_overlap_curved(d,np.full(d.shape,R)); t.true(cu.shape==d.shape,"shape")
	if R < 1e-3: t.close(cu,a,"small disks are flat",atol=1e-5*R**2)
	for dd, got in zip(d[d<3.1],cu[d<3.1]) if R >= 1e-3 else []: # the rings of disk 1 that are inside disk 2
		th = np.linspace(0,R,6001)
		with np.errstate(all="ignore"): cphi = (np.cos(R)-np.cos(th)*np.cos(dd))/(np.sin(th)*np.sin(dd))
		cphi = np.where(np.isfinite(cphi),cphi,np.where(dd<=R,-1,1)); frac = np.arccos(np.clip(cphi,-1,1))/np.pi; area = scipy.integrate.trapezoid(2*np.pi*np.sin(th)*frac,th); t.close(got,area,"disk_overlap_curved at %g radii" % (dd/R),atol=3e-4*R**2)
	t.close(utils.disk_overlap_curved(np.array([0.]),np.array([R])),np.array([4*np.pi*np.sin(R/2)**2]),"a disk overlaps itself fully",rtol=1e-5)

def gauss(r, s): return np.exp(-.5*(r/s)**2)
def gen_prof(d): return {"s":d.logfloat(.5,20),"n":d.int(1,3),"w":d.list(lambda: d.float(.2,3,2),3,3),"norm":d.bool(),"lr":d.bool(),"N":d.choice([512,256,600]),"pad":d.choice([256,100,0]),"seed":d.seed()}
@prop.law(gen_prof, quick=50, rule="every generated case")
def profiles(c, t):
	"""Transforms between beam profiles and harmonic coefficients invert each other and match the analytic results for sums of Gaussians"""
	s = c["s"]*utils.arcmin*np.array(c["w"][:c["n"]]); lmax = int(6/min(s)); prof = lambda r: sum(gauss(r,x) for x in s)/len(s); harm = lambda l: sum(2*np.pi*x**2*np.exp(-.5*(np.asarray(l)+0.)**2*x**2) for x in s)/len(s)
	lmax = min(lmax,12000); lc = np.arange(lmax+1); good = 6/min(s)<12000
	if good: # curved sky: b(l) = 2 pi s^2 exp(-l(l+1)s^2/2) to leading order
		r = np.linspace(0,4*max(s),9); bl = sum(2*np.pi*x**2*np.exp(-.5*lc*(lc+1.)*x**2) for x in s)/len(s); p = utils.tform_to_profile(bl,r); t.close(p,prof(r),"tform_to_profile",atol=3e-3*(1+50*max(s)**2)); pn = utils.tform_to_profile(bl,r,normalize=True); t.close(pn,p/utils.tform_to_profile(bl,np.array([0.])),"normalize",rtol=1e-9); t.close(utils.beam_transform_to_profile(bl,r),p,"old name")
		# exact: legendre sum
		ll = lc[:40]; b2 = bl[:40]; t.close(utils.tform_to_profile(b2,r),sum(b2[i]*(2*i+1)/(4*np.pi)*scipy.special.eval_legendre(i,np.cos(r)) for i in ll),"legendre sum",rtol=1e-9,atol=1e-9*abs(b2[0]))
	l, b = utils.profile_to_tform_hankel(prof); sel = (l>2)&(l<4/min(s)); t.true(len(l)==512 and np.all(np.diff(l)>0),"sample points"); t.close(b[sel],harm(l[sel]),"profile_to_tform_hankel",atol=1e-5*harm(0))
	rng_ = {"lrange":[.01,1e6]} if c["lr"] else {"rrange":[1e-7,10]}; H = utils.RadialFourierTransform(n=c["N"],pad=c["pad"],**rng_); t.close(H.l*H.r[::-1],np.ones(len(H.l)),"r and l"); hl = H.real2harm(prof); t.close(H.real2harm(prof(H.r)),hl,"function or array",rtol=1e-12); rr, ll, hu = H.unpad(H.r,H.l,hl); t.true(len(rr)==c["N"],"unpad"); t.eq(H.unpad(H.r),rr,"unpad one")
	if c["pad"]: sel = (ll>2)&(ll<4/min(s)); t.close(hu[sel],harm(ll[sel]),"real2harm",atol=(1e-4 if c["pad"]>200 else 2e-2)*harm(0))
	back = H.harm2real(hl); t.close(back,prof(H.r),"round trip",atol=1e-4); t.close(H.harm2real(harm)[(H.r>min(s)/5)&(H.r<4*max(s))],prof(H.r)[(H.r>min(s)/5)&(H.r<4*max(s))],"harm2real",atol=2e-3 if c["pad"] else 5e-2); two = H.real2harm(np.array([prof(H.r),2*prof(H.r)])); t.close(two,np.array([hl,2*hl]),"last axis",rtol=1e-7,atol=1e-9*abs(hl).max()); t.close(H.lind(H.l),np.arange(len(H.l)),"lind",atol=1e-6); t.close(H.rind(H.r),np.arange(len(H.r)),"rind",atol=1e-6)
	r = np.linspace(0,8*max(s),401); t.close(utils.calc_beam_area(np.array([r,prof(r)])),harm(0),"calc_beam_area",rtol=1e-4)
	# flat-sky helpers of uharm
	res = min(s)/2; n = 2*int(6*max(s)/res)+8
	if n < 200:
		n = n+c["seed"]%2; wcs = geo.make_wcs("CAR",[0,0],[-res/utils.degree,res/utils.degree],[(n+1)/2,(n+1)/2]); hm = uharm.profile2harm_flat_2d(prof(r),r,(n,n),wcs); lm = np.asarray(enmap.modlmap((n,n),wcs)); t.close(np.asarray(hm),harm(lm),"profile2harm_flat_2d",atol=6e-3*harm(0)); pr = uharm.harm2profile_flat_2d(hm,r); sel = (r>res)&(r<3*max(s)); t.close(pr[sel],prof(r)[sel],"harm2profile_flat_2d",atol=.06); b1, r1 = uharm.harm2profile_flat_2d(hm); t.close(utils.interp(r,r1,b1,right=0),pr,"radii",atol=1e-9)

def gen_flat(d): return {"s":d.logfloat(.5,30),"w":d.choice([0,0,.1,.3]),"k":d.choice([1.5,2,3]),"over":d.choice([None,None,2,3]),"pad":d.choice([None,None,2,3]),"int":d.bool()}
@prop.law(gen_flat, quick=24, rule="every generated case", shards=4)
def flat_beam(c, t):
	"""uharm.profile2harm_flat is the radial Fourier transform of a profile, up to the coarseness of its grid, and its grid is fine and wide enough for the profile"""
	s = c["s"]*utils.arcmin; s2 = s*c["k"]; r = np.linspace(0,7.5*s2,1500); b = (1-c["w"])*gauss(r,s)+c["w"]*gauss(r,s2); kw = {k:c[q] for k, q in (("oversample","over"),("pad_factor","pad")) if c[q]}; keep = b.copy()
	bl = uharm.profile2harm_flat(b,r,**kw); t.eq(b,keep,"profile modified"); l = np.arange(len(bl)); ref = 2*np.pi*((1-c["w"])*s**2*np.exp(-.5*l*(l+1)*s**2)+c["w"]*s2**2*np.exp(-.5*l*(l+1)*s2**2)); t.close(bl,ref,"profile2harm_flat",rtol=0,atol=.05*ref[0]); t.close(bl[0],ref[0],"beam area",rtol=1e-2)
	half = np.max(r[b>=.5]); t.close(uharm.beam2res(b,r),2*half/3,"beam2res",rtol=1e-9); rm = np.max(r[b>=1e-5]); t.close(uharm.beam2rmax(b,r),rm,"beam2rmax"); R, i = uharm.beam2rmax(b,r,return_index=True); t.true(R==rm and r[i]==rm,"beam2rmax index"); t.close(uharm.beam2rmax(b,r,tol=.1),np.max(r[b>=.1]),"beam2rmax tol"); t.true(len(bl)-1>=np.pi/(2*half/3)-2,"lmax")

def gen_fftlog(d): return {"a":d.logfloat(.2,5),"n":d.choice([256,512]),"pad":d.choice([0,64,128]),"bias":d.choice([0,0,.2,-.2]),"kr":d.bool(),"seed":d.seed()}
@prop.law(gen_fftlog, quick=40, rule="every generated case")
def fftlog(c, t):
	"""FFTLog: the one-sided Fourier transform of a decaying function, exactly invertible"""
	a = c["a"]; kw = {"krange":[1e-6,1e6]} if c["kr"] else {"xrange":[1e-6,1e6]}
	L = utils.FFTLog(n=c["n"],pad=c["pad"],bias=c["bias"],**({"xrange":[1e-6,1e6]} if not c["kr"] else {"krange":[1e6,1e-6]})); f = lambda x: np.exp(-a*x); fa = L.fft(f); t.close(L.fft(f(L.x)),fa,"function or array",rtol=1e-12); x, kk, u = L.unpad(L.x,L.k,fa); t.true(len(x)==c["n"],"unpad"); sel = (kk>1e-2)&(kk<1e2); ref = 1/(a+1j*kk)
	if c["pad"] and c["bias"]==0: t.close(u[sel],ref[sel],"transform of an exponential",atol=1e-2/a)
	b = L.ifft(fa); t.close(b,f(L.x),"round trip",atol=1e-3); t.raises(ValueError,lambda: utils.FFTLog(n=10),"no range"); t.raises(ValueError,lambda: utils.FFTLog(xrange=[1,2],krange=[1,2],n=10),"both ranges")

def gen_tsz(d): return {"std":d.bool(),"xc":d.choice([.497,.4,.7]),"beta":d.choice([-4.65,-4.,-5.5]),"gamma":d.choice([-.3,-.2,-.6]),"alpha":d.choice([1.,1.2]),"x":d.list(lambda: d.logfloat(1e-4,100),1,4),"r200":d.logfloat(.5,5),"seed":d.seed()}
@prop.law(gen_tsz, quick=16, rule="non-standard parameters", shards=8)
def tsz(c, t):
	"""tSZ profiles: the generalised NFW formula, its line-of-sight integral and its harmonic transform"""
	p = {} if c["std"] else {q:c[q] for q in ("xc","alpha","beta","gamma")}; full = dict(dict(xc=.497,alpha=1.,beta=-4.65,gamma=-.3),**p); t.mark_trivial(c["std"]); x = np.array(c["x"]); raw = lambda x: (x/full["xc"])**full["gamma"]*(1+(x/full["xc"])**full["alpha"])**((full["beta"]-full["gamma"])/full["alpha"]); t.close(utils.tsz_profile_raw(x,**p),raw(x),"raw",rtol=1e-10); t.close(utils.gnfw(x,full["xc"],full["alpha"],full["beta"],full["gamma"]),raw(x),"gnfw",rtol=1e-10)
	los = utils.tsz_profile_los(x,**p); ex = utils.tsz_profile_los_exact(x,**p)
	for i, x0 in enumerate(x):
		u = np.linspace(np.log(1e-7*x0),np.log(1e5*(1+x0)),6001); z = np.exp(u); v = 2*scipy.integrate.simpson(z*raw(np.sqrt(z**2+x0**2)),x=u)+2*1e-7*x0*raw(x0); t.close(ex[i],v,"exact line of sight integral at %g" % x0,rtol=3e-4); t.close(los[i],ex[i],"interpolated profile at %g" % x0,rtol=1e-4)
	t.close(utils.tsz_profile_los(x[::-1].reshape(-1,1),**p)[:,0],los[::-1],"shape and order",rtol=1e-12)
	r2 = c["r200"]*utils.arcmin; l = np.array([0,100.,1./r2,3/r2]); l = l[l<40000]; b = utils.tsz_tform(r2,l=l,**p); r = np.exp(np.linspace(np.log(1e-8*r2),np.log(200*r2),40001)); pr = utils.tsz_profile_los(r/r2,**p); v = np.array([scipy.integrate.simpson(2*np.pi*r**2*pr*scipy.special.j0(ll*r),x=np.log(r)) for ll in l]); t.close(b,v,"tsz_tform",atol=1e-2*v[0]); d = utils.tsz_tform(r2,lmax=200,**p); t.true(d.shape==(201,),"default multipoles"); t.close(d[100],b[1] if len(l)>1 else d[100],"default multipoles",rtol=1e-6)

def gen_reg(d): return {"s":d.list(lambda: d.float(.8,3,2),2,2),"n":d.int(20,400),"cut":d.choice([1e-2,1e-3,.1]),"nl":d.choice([None,"same","less","more","at","at1"]),"norm":d.bool(),"amp":d.logfloat(.1,10),"lobe":d.choice([0,0,.3])}
@prop.law(gen_reg, quick=80, rule="a beam that falls below the cutoff")
def regularize(c, t):
	"""regularize_beam keeps the beam above the cutoff and continues it with a power law, so that the ratio of two regularized beams goes to a constant"""
	out = []
	for s in c["s"]:
		n = c["n"]; l = np.arange(n); s = s*4/n*1.5; b = c["amp"]*np.exp(-.5*l**2*s**2); b += c["lobe"]*c["amp"]*np.exp(-.5*(l-.9*n)**2/(.03*n)**2); mx = b.max(); low = np.where(b<=mx*c["cut"])[0]; lc = int(low[0]) if len(low) else n-1; t.mark_trivial(not len(low)); nl = {None:None,"same":n,"less":max(2,n//2),"more":n+50,"at":lc,"at1":lc+1}[c["nl"]]; N = n if nl is None else nl
		if lc < 2: t.mark_trivial(); return
		keep = b.copy(); o = utils.regularize_beam(b,cutoff=c["cut"],nl=nl,normalize=c["norm"]); t.eq(b,keep,"the beam was modified"); e = b/(mx if c["norm"] else 1); t.true(o.shape==(N,),"length %s instead of %d" % (o.shape,N)); m = min(N,lc); t.close(o[:m],e[:m],"the beam above the cutoff changed",rtol=1e-12)
		if N > lc and len(low):
			k = np.arange(lc,N); t.close(o[lc:],e.max()*c["cut"]*(k/lc)**(2*np.log(c["cut"])),"extrapolation",rtol=1e-9); t.true(np.all(np.diff(o[max(lc-1,0):])<0) or N-lc<2,"not decreasing"); out.append((lc,o))
	if len(out)==2:
		l0 = max(out[0][0],out[1][0]); N = min(len(out[0][1]),len(out[1][1]))
		if N > l0+1: q = out[0][1][l0:N]/out[1][1][l0:N]; t.close(q,np.full(len(q),q[0]),"ratio is not constant",rtol=1e-8)

def gen_misc(d): return {"f":d.list(lambda: d.float(-.5,.5,4),1,6),"N":d.int(0,6),"D":d.int(1,6),"dist":d.list(lambda: d.float(0,1,2),1,4),"per":d.logfloat(.1,100),"x":d.list(lambda: d.float(-50,50,3),1,6),"s":[d.float(1,5,2),d.float(.2,1,2)],"phi":d.float(0,3.1,3),"n":d.int(3,12),"ref":d.int(0,3),"l":d.logfloat(1,1e5),"seed":d.seed()}
@prop.law(gen_misc, quick=100, rule="every generated case")
def misc(c, t):
	"""Pixel windows, dice distributions, triangle waves, elliptical beams, bin edges and scale conversions"""
	f = np.array(c["f"]); t.close(utils.pixwin_1d(f),np.where(f==0,1,np.sin(np.pi*f)/np.where(f==0,1,np.pi*f)),"nearest neighbour pixel window",atol=1e-9); t.eq(utils.pixwin_1d(f,order=None),np.ones(len(f)),"no window"); t.raises(ValueError,lambda: utils.pixwin_1d(f,order=2),"unsupported order")
	# linear interpolation mapmaking of a wave, sampled finely and periodically
	n, os = 20, 40; k = int(round(f[0]*n)); w = np.zeros((n*os,n)); x = (np.arange(n*os)+.5)/os
	for i, xx in enumerate(x): j = int(np.floor(xx)); q = xx-j; w[i,j%n] += 1-q; w[i,(j+1)%n] += q
	m = np.linalg.solve(w.T@w,w.T@np.exp(2j*np.pi*k/n*x)); t.close(m,utils.pixwin_1d(np.array([k/n]),order=1)[0]*np.exp(2j*np.pi*k/n*np.arange(n)),"linear interpolation pixel window",atol=3e-3)
	N, D = c["N"], c["D"]; e = np.zeros(N*D+1)
	for roll in itertools.product(range(1,D+1),repeat=min(N,5)): e[sum(roll)] += D**-float(min(N,5))
	if N <= 5: t.close(utils.dicedist(N,D),e,"dicedist",atol=1e-12)
	dist = np.array(c["dist"])+.01; r = np.ones(1)
	for i in range(N): r = np.convolve(r,dist)
	t.close(utils.distpow(dist,N),r,"distpow",rtol=1e-9)
	p = c["per"]; x = np.array(c["x"])*p/7; ph = (x/p)%1; tri = np.where(ph<.25,4*ph,np.where(ph<.75,2-4*ph,4*ph-4)); t.close(utils.triangle_wave(x,p),tri,"triangle_wave",atol=1e-8)
	s = np.array(c["s"]); ir = utils.compress_beam(s,c["phi"]); cc, ss = np.cos(c["phi"]), np.sin(c["phi"]); M = np.array([[cc,-ss],[ss,cc]])@np.diag(s**-2.)@np.array([[cc,ss],[-ss,cc]]); t.close(ir,np.array([M[0,0],M[1,1],M[0,1]]),"compress_beam",rtol=1e-9,atol=1e-12)
	if s[0]-s[1] > .05: s2, p2 = utils.expand_beam(ir); t.close(s2,s,"expand_beam",rtol=1e-7); t.close_ang(np.array(p2),np.array(c["phi"]),"expand_beam angle",atol=1e-6,period=np.pi)
	r = rng(c); n = c["n"]; ref = min(c["ref"],n-2); ed = np.cumsum(r.uniform(.5,2,n+1)); ed[ref+2:] += ed[ref+1]*2-ed[ref]-ed[ref+2]; ce = .5*(ed[1:]+ed[:-1]); got = utils.infer_bin_edges(ce,ref); t.close(.5*(got[1:]+got[:-1]),ce,"bin centers",atol=1e-6)
	l = c["l"]; t.close(utils.ang2l(utils.l2ang(l)),l,"ang2l",rtol=1e-9); t.close(4*np.pi/utils.l2ang(l)**2,(l+1)**2,"as many modes as pixels",rtol=1e-9); t.close(utils.D(lambda x: x**4*np.sin(x))(l/1e4),4*(l/1e4)**3*np.sin(l/1e4)+(l/1e4)**4*np.cos(l/1e4),"derivative",rtol=1e-9)
