import numpy as np
from harness.core import Prop, rng
from harness import geo, sht
from pixell import enmap, curvedsky, aberration, utils
prop = Prop("P27", assumptions=["accuracy on the full sky is claimed for Fejer1 grids with an even number of columns that resolve the band limit, elsewhere for the documented boundary condition"])

def basis(p): return np.array([-np.sin(p[0])*np.cos(p[1]),-np.sin(p[0])*np.sin(p[1]),np.cos(p[0])]), np.array([-np.sin(p[1]),np.cos(p[1]),0*p[0]])
def rest(pos, dir, beta):
	"""Where in the rest frame the light seen at pos[{dec,ra},n] comes from: dec, ra, rotation of the polarization basis, cos of angle to the direction of motion"""
	n = geo.to_vec(dir[1],dir[0])[:,None]; v = geo.to_vec(pos[0],pos[1]); z = np.clip((v*n).sum(0),-1,1); zr = (z-beta)/(1-z*beta); e = v-z*n; e = e/np.maximum(np.sqrt((e**2).sum(0)),1e-300); q = zr*n+np.sqrt(np.maximum(1-zr**2,0))*e
	dec, ra = np.arctan2(q[2],np.hypot(q[0],q[1])), np.arctan2(q[1],q[0])
	# the direction away from n along the great circle, seen in the local bases at both ends
	def ang(p, x): ed, ea = basis(p); w = -(n-(n*x).sum(0)*x); return np.arctan2((w*ea).sum(0),(w*ed).sum(0))
	return dec, ra, ang(np.array([dec,ra]),q)-ang(pos,v), z
def gain(z, beta): return (1-beta**2)**.5/(1-z*beta)
def evalm(alm, p, L, spins):
	o, i = [], 0
	for s in spins: k = 1+(s!=0); o.append(sht.synth(alm[i:i+k],p,L,spin=s)); i += k
	return np.concatenate(o)
def turn(x, gam, spins):
	x = x.copy(); i = 0
	for s in spins:
		if s: z = (x[i]+1j*x[i+1])*np.exp(1j*s*gam); x[i],x[i+1] = z.real,z.imag
		i += 1+(s!=0)
	return x
def mkgeo(c, ny, nx): g = sht.ducc_wcs("F1",ny,nx,c["flip"],c["ra0"],c["xoff"]); return geo.make_wcs("car",g["crval"],g["cdelt"],g["crpix"])
def positions(shape, wcs):
	y, x = np.mgrid[:shape[-2],:shape[-1]]; w = wcs.wcs; return np.array([(y+1-w.crpix[1])*w.cdelt[1],(x+1-w.crpix[0])*w.cdelt[0]+w.crval[0]])*np.pi/180
def gen_g(d): return {"flip":[d.bool(),d.bool()],"ra0":d.choice([0.,180.,13.5,-77.]),"xoff":d.choice([0.,.5,.25,-3.7]),"dir":[d.float(-4,7),d.float(-1.57,1.57)],"sign":d.choice([1,-1]),"seed":d.seed()}

def gen_ab(d): c = gen_g(d); c.update({"L":d.int(2,4),"ny":d.int(6,10),"nx":d.int(5,8),"beta":d.choice([.001235,.01,.1,.3,.6,0]),"spin":d.choice([[0,2],[0,2],[2],[0],[0,0],None]),"pre":d.choice([[],[],[2]]),"dtype":d.choice(["float64","float64","float32"]),"boundary":d.choice(["auto","fullsky"]),"how":d.choice(["map","obj","boost","de"]),"nthread":d.choice([None,1,2])}); return c
@prop.law(gen_ab, quick=120, rule="non-zero speed")
def aberrate(c, t):
	"""Aberration shows at each pixel what the rest frame has at the Lorentz-transformed position, with polarization parallel transported"""
	r = rng(c); L, ny, nx = c["L"], max(c["ny"],c["L"]+2), 2*max(c["nx"],c["L"]+1); wcs = mkgeo(c,ny,nx); beta = c["beta"]*c["sign"]; spins = [0] if c["spin"] is None else c["spin"]; t.mark_trivial(beta==0); dt = np.dtype(c["dtype"]); n = sum(1+(s!=0) for s in spins)
	pre = tuple(c["pre"]) if c["spin"] is not None else (); N = int(np.prod(pre)); alm = sht.rand_alm(r,(N,n),L); alm[...,[l<2 for l,m in sht.lms(L,L)]] *= 0 if 2 in spins else 1
	pos = positions((ny,nx),wcs).reshape(2,-1); m = np.array([evalm(a,pos,L,spins) for a in alm]).reshape(pre+((n,) if c["spin"] is not None else ())+(ny,nx)).astype(dt); m = enmap.ndmap(m,wcs); keep = m.copy()
	dec, ra, gam, z = rest(pos,c["dir"],beta); ref = np.array([turn(evalm(a,np.array([dec,ra]),L,spins),gam,spins) for a in alm]).reshape(m.shape)
	kw = {"dir":c["dir"],"nthread":c["nthread"],"spin":[0,2] if c["spin"] is None else c["spin"],"boundary":c["boundary"]}
	if c["how"] == "map": o = aberration.aberrate_map(m,beta=beta,**kw)
	elif c["how"] == "boost": o = aberration.boost_map(m,beta=beta,modulate=False,**kw)
	elif c["how"] == "de": o = aberration.deaberrate_map(m,beta=-beta,**kw)
	else:
		A = aberration.Aberrator(m.shape,m.wcs,beta=beta,coord_dtype=dt,**kw); A(m*2+1); o = A(m)
	t.eq(m,keep,"input modified"); t.true(o.shape==m.shape and o.dtype==dt and isinstance(o,enmap.ndmap) and o.wcs.wcs.compare(wcs.wcs),"type"); t.close(o,ref,"aberrated map",atol=(2e-3 if dt==np.float32 else 1e-9)*np.abs(alm).sum(),rtol=0)

def gen_pa(d): return {"ny":d.int(44,56),"nx":d.int(44,60),"res":d.float(.5,2.5),"flip":[d.bool(),d.bool()],"ra0":d.choice([0.,180.,13.5,-77.,360.]),"xoff":d.float(-110,110),"dec":d.float(-8,8),"at":[d.float(-3,3),d.float(-3,3)],"dir":[d.float(-4,7),d.float(-1.57,1.57)],"beta":d.choice([.001235,.003,.01,0])*d.choice([1,-1]),"spin":d.choice([[0,2],[0],[2],[0,1]]),"dtype":d.choice(["float64","float64","float32"]),"boundary":d.choice(["auto","periodic"]),"seed":d.seed()}
@prop.law(gen_pa, quick=40, rule="non-zero speed")
def patch(c, t):
	"""Aberration of a map of a part of the sky moves a blob inside of it to its Lorentz-transformed position, wherever the map is"""
	r = rng(c); ny, nx, res = c["ny"], c["nx"], c["res"]; cd = [res*(1 if c["flip"][1] else -1),res*(-1 if c["flip"][0] else 1)]; wcs = geo.make_wcs("car",[c["ra0"],0],cd,[(nx+1)/2-c["xoff"]/cd[0],(ny+1)/2-c["dec"]/cd[1]]); dt = np.dtype(c["dtype"]); t.mark_trivial(c["beta"]==0); n = sum(1+(s!=0) for s in c["spin"])
	pos = positions((ny,nx),wcs).reshape(2,-1); amp = r.uniform(.5,2,(n,1))*r.choice([-1,1],(n,1)); sig = 2.5*res*np.pi/180; mid = np.array([c["dec"]+c["at"][0]*res,c["ra0"]+c["xoff"]+c["at"][1]*res])*np.pi/180
	f = lambda p: amp*np.exp(-.5*((p[0]-mid[0])**2+((p[1]-mid[1]+np.pi)%(2*np.pi)-np.pi)**2)/sig**2)
	m = enmap.ndmap(f(pos).reshape(n,ny,nx).astype(dt),wcs); keep = m.copy(); o = aberration.aberrate_map(m,beta=c["beta"],dir=c["dir"],spin=c["spin"],boundary=c["boundary"]); dec, ra, gam, z = rest(pos,c["dir"],c["beta"]); t.eq(m,keep,"input modified"); t.true(o.shape==m.shape and o.dtype==dt and o.wcs.wcs.compare(wcs.wcs),"type")
	t.close(o,turn(f(np.array([dec,ra])),gam,c["spin"]).reshape(m.shape),"aberrated patch",atol=2e-4 if dt==np.float32 else 1e-6,rtol=0)

def gen_ip(d): return {"ny":d.int(1,7),"nx":d.int(1,4),"pre":geo.gen_pre(d,2,2),"n":d.int(1,6),"double":d.bool(),"dtype":d.choice(["float64","float64","float32"]),"seed":d.seed()}
@prop.law(gen_ip, quick=120, rule="more than one pixel")
def boundary(c, t):
	"""interpol_map is Fourier interpolation of the periodic map, or of the map continued over the poles"""
	r = rng(c); ny, nx = c["ny"], 2*c["nx"] if c["double"] else c["nx"]; t.mark_trivial(ny*nx<2); dt = np.dtype(c["dtype"]); m = r.standard_normal(tuple(c["pre"])+(ny,nx)); D = np.concatenate([m,np.roll(m[...,::-1,:],nx//2,-1)],-2) if c["double"] else m
	Y, X = D.shape[-2:]; p = np.array([r.uniform(-3,2*Y,c["n"]),r.uniform(-3,2*X,c["n"])]); F = np.fft.fft2(D); ky, kx = np.fft.fftfreq(Y)*Y, np.fft.fftfreq(X)*X
	ph = np.exp(2j*np.pi*(ky[:,None,None]*p[0]/Y+kx[None,:,None]*p[1]/X)); ref = np.einsum("...yx,yxn->...n",F,ph).real/(Y*X); mm = enmap.ndmap(m.astype(dt),geo.make_wcs("car",[0,0],[-1,1],[1,1])); o = aberration.interpol_map(mm,p.astype(dt),ydouble=c["double"]); t.true(o.shape==ref.shape and o.dtype==dt,"type"); t.close(o,ref,"interpolation",atol=3e-4 if dt==np.float32 else 1e-9,rtol=0)
	q = np.mgrid[:ny,:nx].reshape(2,-1); t.close(np.asarray(aberration.interpol_map(mm,q.astype(dt),ydouble=c["double"])).reshape(mm.shape),m,"pixel centres",atol=3e-4 if dt==np.float32 else 1e-9,rtol=0)

H, K, C = utils.h, utils.k, utils.c
def B(f, T): return 2*H*f**3/C**2/np.expm1(H*f/(K*T))*1e26
def dB(f, T): x = H*f/(K*T); return 2*H*f**3/C**2*np.exp(x)/np.expm1(x)**2*x/T*1e26
def iB(f, I): return H*f/K/np.log1p(2*H*f**3/C**2*1e26/I)
def model(m, A, mode, dipole, T0, f, u, spins, one):
	o = np.array(m,float); A = np.asarray(A,float)
	flat = o.reshape((-1,)+o.shape[-2:]) if one else o.reshape((-1,)+o.shape[-3:])
	n = 1 if one else o.shape[-3]; sp = [0] if one else [s for s in spins for _ in range(1+(s!=0))]; x = o.reshape((-1,n)+o.shape[-2:])
	for a in x:
		for i in range(n):
			dip = dipole and sp[i%len(sp)]==0; v = a[i]*u
			if mode in ("plain","T2T"): w = v*A+((A-1)*T0 if dip else 0)
			elif mode == "T2lin": w = (B(f,A*(v+T0))-(B(f,T0) if dip else B(f,A*T0)))/dB(f,T0)
			elif mode == "lin2T": w = A*iB(f,v*dB(f,T0)+(B(f,T0) if dip else B(f,T0/A)))-T0
			elif mode == "lin2lin": q = iB(f,v*dB(f,T0)+B(f,T0))-T0; w = (B(f,A*(q+T0))-(B(f,T0) if dip else B(f,A*T0)))/dB(f,T0)
			else: w = v
			a[i] = w/u
	return x.reshape(o.shape)
def gen_mod(d): c = gen_g(d); c.update({"ny":d.int(1,6),"nx":d.int(1,8),"beta":d.choice([.001235,.01,.1,.4,0]),"mode":d.choice(["T2lin","T2lin","lin2T","lin2lin","plain","T2T",None]),"dipole":d.bool(),"T0":d.choice([None,None,2.725,1.9]),"freq":d.choice([150e9,30e9,545e9]),"unit":d.choice([1e-6,1.]),"spin":d.choice([[0,2],[0],None]),"pre":d.choice([[],[],[2]]),"dtype":d.choice(["float64","float64","float32"]),"partial":d.bool(),"how":d.choice(["map","obj","boost","de"])}); return c
@prop.law(gen_mod, quick=150, rule="non-zero speed and a modulation")
def modulate(c, t):
	"""Modulation multiplies thermodynamic temperatures by the Doppler factor, in the requested input and output units, without touching its argument"""
	r = rng(c); ny, nx = c["ny"]+1, c["nx"]+1; wcs = geo.make_wcs("car",[c["ra0"],0],[3*(1 if c["flip"][0] else -1),5*(1 if c["flip"][1] else -1)],[nx/2,ny/2]) if c["partial"] else mkgeo(c,ny,nx); spins = [0] if c["spin"] is None else c["spin"]; n = sum(1+(s!=0) for s in spins); dt = np.dtype(c["dtype"]); pre = (tuple(c["pre"]) if c["spin"] is not None else ())+((n,) if c["spin"] is not None else ()); beta = c["beta"]*c["sign"]; t.mark_trivial(beta==0 or c["mode"] is None); t.label(str(c["mode"]))
	T0 = utils.T_cmb if c["T0"] is None else c["T0"]; m = enmap.ndmap((r.standard_normal(pre+(ny,nx))*1e-4/c["unit"]).astype(dt),wcs); keep = m.copy(); pos = positions((ny,nx),wcs).reshape(2,-1); A = gain(rest(pos,c["dir"],beta)[3],beta).reshape(ny,nx)
	kw = {"dir":c["dir"],"modulation":c["mode"],"T0":T0,"freq":c["freq"],"dipole":c["dipole"],"map_unit":c["unit"],"spin":[0,2] if c["spin"] is None else c["spin"]}
	if c["how"] == "map": o, a = aberration.modulate_map(m,beta=beta,return_modulation=True,**kw)
	elif c["how"] == "boost": o, a = aberration.boost_map(m,beta=beta,aberrate=False,return_modulation=True,**kw)
	elif c["how"] == "de": o, a = aberration.demodulate_map(m,beta=-beta,return_modulation=True,**kw)
	else: M = aberration.Modulator(m.shape,m.wcs,beta=beta,dtype=dt,**kw); M(m*2); o = M(m); a = M.A
	t.eq(m,keep,"input modified"); t.true(o.shape==m.shape and o.dtype==dt,"type"); t.close(np.asarray(a).reshape(ny,nx),A,"Doppler factor",atol=1e-5 if dt==np.float32 else 1e-8,rtol=0)
	ref = model(keep,A,c["mode"],c["dipole"],T0,c["freq"],c["unit"],spins,c["spin"] is None); sc = 1/c["unit"]; t.close(o,ref,"modulated map",atol=(1e-4 if dt==np.float32 else 1e-8)*sc*3,rtol=1e-6 if dt==np.float64 else 1e-5)

def gen_rt(d): c = gen_g(d); c.update({"L":d.int(2,3),"beta":d.choice([.001235,.02,.05]),"modes":d.choice([["T2lin","lin2T"],["plain","plain"],[None,None]]),"dipole":d.bool()}); return c
@prop.law(gen_rt, quick=30, rule="every generated case")
def roundtrip(c, t):
	"""deboost_map undoes boost_map on well-resolved maps, and boosting is modulation of the aberrated map"""
	r = rng(c); L = c["L"]; ny, nx = 18, 36; wcs = mkgeo(c,ny,nx); beta = c["beta"]*c["sign"]; alm = sht.rand_alm(r,(3,),L)*100; alm[1:,[l<2 for l,m in sht.lms(L,L)]] = 0; pos = positions((ny,nx),wcs).reshape(2,-1); m = enmap.ndmap(evalm(alm,pos,L,[0,2]).reshape(3,ny,nx),wcs); kw = {"dir":c["dir"],"dipole":c["dipole"]}; dip = c["dipole"] and c["modes"][0] is not None
	b = aberration.boost_map(m,beta=beta,modulation=c["modes"][0],**kw); d = aberration.deboost_map(b,beta=beta,modulation=c["modes"][1],**kw); t.close(d,m,"deboost of boost",atol=1e-4*np.abs(alm).max(),rtol=0)
	s = aberration.modulate_map(aberration.aberrate_map(m,beta=beta,dir=c["dir"]),beta=beta,modulation=c["modes"][0],**kw); t.close(b,s,"boost",rtol=1e-12)
	if c["modes"][0] == "plain" and dip: A = gain(rest(pos,c["dir"],beta)[3],beta).reshape(ny,nx); x = aberration.boost_map(m*0,beta=beta,modulation="plain",**kw); t.close(x[0],(A-1)*utils.T_cmb*1e6,"dipole of an empty sky",rtol=1e-8); t.true(np.all(np.asarray(x[1:])==0),"unpolarized")

@prop.law(lambda d: {"beta":d.float(-.99,.99),"seed":d.seed()}, quick=60, rule="every generated case")
def boost1d(c, t):
	"""calc_boost_1d is the relativistic aberration formula, with its inverse at minus the speed"""
	r = rng(c); b = c["beta"]; z = np.concatenate([r.uniform(-1,1,6),[1,-1,0]]); k = z.copy(); o, A = aberration.calc_boost_1d(z,b); t.eq(z,k,"input modified"); t.close(o,(z+b)/(1+z*b),"cosine",atol=1e-12); t.close(A,(1-b**2)**.5/(1-b*(z+b)/(1+z*b)),"modulation",rtol=1e-9); q, A2 = aberration.calc_boost_1d(o,-b); t.close(q,z,"inverse",atol=1e-9); t.close(A*A2,np.ones(len(z)),"modulation inverse",rtol=1e-8)
