import numpy as np, scipy.ndimage
from harness.core import Prop, rng
from harness import geo, sht
from pixell import enmap, curvedsky, lensing, utils
prop = Prop("P26", assumptions=["curved-sky maps stay away from the poles by more than the displacement", "the doubled polarization angle and the right ascension past a pole are known findings"])

def basis(p): return np.array([-np.sin(p[0])*np.cos(p[1]),-np.sin(p[0])*np.sin(p[1]),np.cos(p[0])]), np.array([-np.sin(p[1]),np.cos(p[1]),0*p[0]])
def endpoint(pos, g):
	"""Geodesic displacement of pos[{dec,ra},n] by g[{dec,ra*cos},n]: new dec, ra, the angle the frame turns relative to the geodesic, and whether it passes over a pole"""
	d = np.hypot(*g); u = np.where(d>0,d,1); ed, ea = basis(pos); v = np.array(geo.to_vec(pos[0],pos[1])).reshape(3,-1); dr = (g[0]*ed+g[1]*ea)/u
	q = v*np.cos(d)+dr*np.sin(d); tq = -v*np.sin(d)+dr*np.cos(d)
	dec, ra = np.arctan2(q[2],np.hypot(q[0],q[1])), np.arctan2(q[1],q[0]); ed2, ea2 = basis(np.array([dec,ra]))
	gam = np.arctan2((tq*ea2).sum(0),(tq*ed2).sum(0))-np.arctan2(g[1],g[0]); gam = np.where(d>0,gam,0)
	over = np.cos(d)*np.cos(pos[0])-np.sin(pos[0])*np.sin(d)*g[0]/u < 0
	return dec, ra, gam, over
def wrap(x): return (x+np.pi)%(2*np.pi)-np.pi

def gen_off(d): return {"n":d.int(1,8),"shape2":d.bool(),"amp":d.logfloat(1e-7,2),"pole":d.choice([None,None,1e-6,0.01,0.2]),"zero":d.bool(),"pol":d.choice([True,False,None]),"comps":d.choice([2,3]),"perp":d.bool(),"seed":d.seed()}
@prop.law(gen_off, quick=700, rule="displacement above 1e-6 radians")
def offset(c, t):
	"""offset_by_grad moves along geodesics, and turns polarization as parallel transport does"""
	r = rng(c); n = c["n"]*2; t.mark_trivial(c["amp"]<1e-6); dec = np.arcsin(r.uniform(-1,1,n))
	if c["pole"]: dec = np.sign(dec)*(np.pi/2-c["pole"]*r.uniform(.1,1,n))
	pos = np.array([dec,r.uniform(-7,7,n)]); g = r.standard_normal((2,n))*c["amp"]
	if c["perp"]: g[0] = 0
	if c["zero"]: g[:,0] = 0
	ip = pos if c["comps"]==2 else np.concatenate([pos,r.uniform(-1,1,(1,n))]); sh = (2,n//2) if c["shape2"] else (n,)
	ki, kg = ip.copy(), g.copy(); o = lensing.offset_by_grad(ip.reshape((-1,)+sh),g.reshape((2,)+sh),pol=c["pol"]); npol = 3 if c["pol"] or (c["pol"] is None and c["comps"]==3) else 2
	t.eq(ip,ki,"positions modified"); t.eq(g,kg,"gradient modified"); t.true(o.shape==(npol,)+sh,"shape %s" % (o.shape,)); o = o.reshape(npol,-1); t.true(np.all(np.isfinite(o)),"finite")
	edec, era, gam, over = endpoint(pos,g); t.label("over the pole" if np.any(over) else "ordinary")
	v = np.array(geo.to_vec(o[0],o[1])).reshape(3,-1); e = np.array(geo.to_vec(edec,era)).reshape(3,-1); e2 = np.array(geo.to_vec(edec,2*pos[1]+np.pi-era)).reshape(3,-1)
	d1 = np.sqrt(((v-e)**2).sum(0)); d2 = np.sqrt(((v-e2)**2).sum(0)); amb = over|(np.abs(np.cos(edec)*np.cos(era-pos[1]))<1e-6)
	t.true(np.where(amb,np.minimum(d1,d2),d1)<1e-7,"position off by %g" % np.where(amb,np.minimum(d1,d2),d1).max()); t.close(o[0],edec,"declination",atol=5e-8,rtol=0)
	if npol == 3:
		ang = o[2]-(ip[2] if c["comps"]==3 else 0); ok = (np.cos(edec)>1e-4)&(np.cos(pos[0])>1e-4); tol = 1e-6/np.minimum(np.cos(edec),np.cos(pos[0]))**2
		bad = np.minimum(np.abs(wrap(ang-gam)),np.abs(wrap(ang-2*gam)))>tol # the second is a known finding
		t.true(~bad|~ok,"rotation %s vs %s" % (ang,gam)); t.true((np.abs(ang)<1e-12)|(np.hypot(*g)>0),"no rotation without displacement")
	f = lensing.offset_by_grad(ip.reshape((-1,)+sh),g.reshape((2,)+sh),pol=c["pol"],geodesic=False).reshape(npol,-1)
	if np.max(np.abs(g)) < np.pi/2:
		e = np.array(geo.to_vec(pos[0]+g[0],pos[1]+g[1]/np.cos(pos[0]))).reshape(3,-1); t.close(np.array(geo.to_vec(f[0],f[1])).reshape(3,-1),e,"without geodesic",atol=1e-9,rtol=0); t.true(np.abs(f[0])<=np.pi/2+1e-12,"declination in range")
	if npol == 3: t.true(np.all(f[2]==0),"no rotation without geodesic")

def gen_pw(d): return {"pre":d.list(lambda: d.int(1,4),1,2),"seed":d.seed()}
@prop.law(gen_pw, quick=60, rule="some position beyond a pole")
def polewrap(c, t):
	"""pole_wrap brings declinations past a pole back onto the sphere at the same point"""
	r = rng(c); p = np.array([r.uniform(-1.5*np.pi,1.5*np.pi,c["pre"]),r.uniform(-9,9,c["pre"])]); t.mark_trivial(np.all(np.abs(p[0])<np.pi/2)); k = p.copy(); o = lensing.pole_wrap(p); t.eq(p,k,"input modified"); t.true(np.abs(o[0])<=np.pi/2+1e-12,"range"); t.close(np.array(geo.to_vec(o[0],o[1])),np.array(geo.to_vec(p[0],p[1])),"same point",atol=1e-12,rtol=0)
	ins = np.abs(p[0])<=np.pi/2; t.eq(o[:,ins],p[:,ins],"positions on the sphere unchanged")

def gen_curved(d):
	lo = d.float(-60,55); return {"lmax":d.int(2,7),"lphi":d.int(1,5),"ny":d.int(1,7),"nx":d.int(1,8),"dec0":lo,"res":[d.float(.5,4)*d.choice([1,-1]),d.float(.5,4)*d.choice([1,-1])],"ra0":d.float(-180,180),"spin":d.choice([[0,2],[0,2],[0],[2],None,[0,0],[0,0,0],[1],[0,1],[0,1,2]]),"amp":d.choice([0,1e-4,.02,.1]),"out":d.choice(["l","lu","u","ukpal","pk","a","al","kl"]),"dth":d.choice([None,.1,3,7,100]),"geo":d.choice([True,True,False]),"ainfo":d.bool(),"dtype":d.choice(["float64","float64","float32"]),"seed":d.seed()}
@prop.law(gen_curved, quick=250, rule="more than one pixel and a deflection")
def curved(c, t):
	"""lens_map_curved evaluates the unlensed field at the displaced positions; the other outputs are the field, potential, convergence and deflection"""
	r = rng(c); ny, nx = c["ny"], c["nx"]; L, Lp = c["lmax"], c["lphi"]; cd = [c["res"][1],c["res"][0]]
	while ny*abs(cd[1]) > 20: ny -= 1
	while nx*abs(cd[0]) > 350: nx -= 1
	wcs = geo.make_wcs("car",[c["ra0"],0],cd,[nx/2,1-c["dec0"]/cd[1]]); t.mark_trivial(ny*nx<2 or c["amp"]==0); spin = c["spin"]; n = {None:0}.get(spin,0) if spin is None else sum(1+(s!=0) for s in spin); dt = np.dtype(c["dtype"])
	cmb = sht.rand_alm(r,(max(n,1),),L); phi = sht.rand_alm(r,(),Lp)*c["amp"]/Lp**2
	for i,s in enumerate([0] if spin is None else [s for s in spin for _ in range(1+(s!=0))]): cmb[i,[l<s for l,m in sht.lms(L,L)]] = 0
	P = phi; ai = None
	if c["ainfo"]: # another layout: the coefficients in order of l
		ll = sht.lms(Lp,Lp); ai = curvedsky.alm_info(lmax=Lp,mmax=Lp,stride=1,layout="rect") if False else curvedsky.alm_info(lmax=Lp,layout="rect"); P = np.zeros(ai.nelem,complex)
		for k,(l,m) in enumerate(ll): P[ai.lm2ind(l,m)] = phi[k]
	ctype = np.result_type(dt,np.complex64); shape = ((n,) if n else ())+(ny,nx)
	kw = {} if c["geo"] else {"geodesic":False}
	if c["dth"]: kw["delta_theta"] = c["dth"]*utils.degree
	if spin is not None: kw["spin"] = spin
	kp, kc = P.copy(), cmb.copy(); res = lensing.lens_map_curved(shape,wcs,P.astype(ctype),(cmb if n else cmb[0]).astype(ctype),phi_ainfo=ai,dtype=dt.type,output=c["out"],**kw); t.eq(P,kp,"phi modified"); t.eq(cmb,kc,"cmb modified"); t.true(len(res)==len(c["out"]),"number of outputs")
	pos = geo.ref_posmap((ny,nx),wcs).reshape(2,-1); tol = 5e-5 if dt==np.float32 else 5e-6; spins = [0] if spin is None else spin
	def ev(p):
		o = []; i = 0
		for s in spins: k = 1+(s!=0); o.append(sht.synth(cmb[i:i+k],p,L,spin=s)); i += k
		return np.concatenate(o)
	g = sht.deriv(phi,pos,Lp)*[[-1],[1]]; ref = ev(pos); sc = np.abs(cmb).sum()
	for k, m in zip(c["out"],res):
		t.true(isinstance(m,enmap.ndmap) and m.dtype==dt and m.wcs.wcs.compare(wcs.wcs),"type of "+k); a = np.asarray(m)
		if k == "u": t.true(m.shape==shape,"shape of u"); t.close(a.reshape(-1,ny*nx),ref,"unlensed",rtol=0,atol=tol*sc)
		elif k == "p": t.close(a.reshape(-1),sht.synth(phi[None],pos,Lp)[0],"potential",rtol=0,atol=tol*np.abs(phi).sum())
		elif k == "k": t.close(a.reshape(-1),sht.synth((phi*[l*(l+1)/2 for l,m in sht.lms(Lp,Lp)])[None],pos,Lp)[0],"convergence",rtol=0,atol=tol*np.abs(phi).sum()*Lp**2)
		elif k == "a": t.true(m.shape==(2,ny,nx),"shape of a"); t.close(a.reshape(2,-1),g,"deflection",rtol=0,atol=tol*np.abs(phi).sum()*Lp)
		else:
			t.true(m.shape==shape,"shape of l")
			if c["geo"]: dec, ra, gam, over = endpoint(pos,g)
			else: dec, ra, gam = pos[0]+g[0],pos[1]+g[1]/np.cos(pos[0]),0*pos[0]
			e = ev(np.array([dec,ra])); ltol = (1e-4 if dt==np.float32 else 3e-5)*sc
			errs = []
			for f in [1,2]: # the second is a known finding
				x = e.copy(); i = 0
				for s in spins:
					if s: z = (x[i]+1j*x[i+1])*np.exp(1j*s*f*gam); x[i],x[i+1] = z.real,z.imag
					i += 1+(s!=0)
				errs.append(np.max(np.abs(a.reshape(-1,ny*nx)-x)))
			t.true(min(errs)<=ltol,"lensed map off by %s, scale %g" % (errs,sc))

def gen_kappa(d): return {"lmax":d.int(0,8),"pre":geo.gen_pre(d,2,3),"ainfo":d.bool(),"seed":d.seed()}
@prop.law(gen_kappa, quick=60, rule="lmax above zero")
def kappa(c, t):
	"""phi_to_kappa multiplies by l(l+1)/2, and kappa_to_phi undoes it except for the monopole"""
	r = rng(c); L = c["lmax"]; t.mark_trivial(L==0); phi = sht.rand_alm(r,c["pre"],L); ai = curvedsky.alm_info(lmax=L) if c["ainfo"] else None; keep = phi.copy(); l = np.array([l for l,m in sht.lms(L,L)])
	k = lensing.phi_to_kappa(phi,phi_ainfo=ai); t.close(k,phi*l*(l+1)/2,"kappa",rtol=1e-14); kk = k.copy(); p = lensing.kappa_to_phi(k,kappa_ainfo=ai); t.close(p,phi*(l>0),"back",rtol=1e-13); t.eq(phi,keep,"phi modified"); t.eq(k,kk,"kappa modified")

def gen_flat(d): return {"ny":d.int(2,12),"nx":d.int(2,12),"pre":geo.gen_pre(d,2,2),"order":d.choice([0,1,3,3,2,4,5]),"amp":d.choice([0,.3,3,20]),"flip":[d.bool(),d.bool()],"dtype":d.choice(["float64","float64","float32"]),"proj":d.choice(["car","tan"]),"kind":d.choice(["rand","shift"]),"seed":d.seed()}
@prop.law(gen_flat, quick=150, rule="a displacement")
def flat(c, t):
	"""lens_map and displace_map read the periodic map off at the displaced positions, and their transposes are adjoint"""
	r = rng(c); ny, nx = c["ny"], c["nx"]; s = [.1*(-1 if f else 1) for f in c["flip"]]; wcs = geo.make_wcs(c["proj"],[10,0],[s[1],s[0]],[nx/2,ny/2]); dt = np.dtype(c["dtype"]); m = enmap.ndmap(r.standard_normal(tuple(c["pre"])+(ny,nx)).astype(dt),wcs); t.mark_trivial(c["amp"]==0); o = c["order"]
	off = r.uniform(-1,1,(2,ny,nx))*c["amp"] if c["kind"]=="rand" else np.zeros((2,ny,nx))+np.round(r.uniform(-1,1,(2,1,1))*c["amp"]); pix = np.mgrid[:ny,:nx]+off; k = m.copy(); kpix = pix.copy()
	if o == 0: pix = np.where(np.abs(pix%1-.5)<1e-3,np.floor(pix)+.4,pix)
	got = lensing.displace_map(m,pix.astype(dt),order=o); t.true(got.shape==m.shape and got.dtype==dt and isinstance(got,enmap.ndmap),"type")
	pr = pix.astype(dt).astype(float); tol = 2e-5*(1+c["amp"]) if dt==np.float32 else 1e-11
	ref = np.array([scipy.ndimage.map_coordinates(np.asarray(a,float),pr,order=o,mode="grid-wrap") for a in np.asarray(m).reshape(-1,ny,nx)]).reshape(m.shape); t.close(got,ref,"displace_map",atol=tol,rtol=0); t.eq(m,k,"map modified")
	if c["kind"]=="shift": sh = off[:,0,0].astype(int); t.close(got,np.roll(np.asarray(m),(-sh[0],-sh[1]),(-2,-1)),"whole pixels",atol=tol,rtol=0)
	u = enmap.ndmap(r.standard_normal(m.shape).astype(dt),wcs); ku = u.copy(); tr = lensing.displace_map(u,pix.astype(dt),order=o,trans=True); t.eq(u,ku,"transpose modified its input"); t.close(np.vdot(np.asarray(tr,float),np.asarray(m,float)),np.vdot(np.asarray(u,float),np.asarray(got,float)),"transpose",rtol=0,atol=tol*ny*nx*30)
	if c["amp"] <= 3:
		# In terms of angles
		pos = np.array(enmap.posmap((ny,nx),wcs)); tgt = np.array(enmap.pix2sky((ny,nx),wcs,pix)); gr = enmap.ndmap(tgt-pos,wcs); kg = gr.copy()
		if o and dt==np.float64:
			L = lensing.lens_map(m,gr,order=o); t.close(L,ref,"lens_map",atol=1e-7,rtol=0); t.eq(gr,kg,"gradient modified"); T = lensing.lens_map(u,gr,order=o,trans=True); t.close(np.vdot(T,m),np.vdot(u,L),"lens_map transpose",rtol=0,atol=1e-9*ny*nx)

def gen_delens(d): return {"n":d.choice([16,24]),"amp":d.choice([.2,.6]),"seed":d.seed()}
@prop.law(gen_delens, quick=30, rule="every generated case")
def delens(c, t):
	"""delens_map undoes lens_map for smooth maps and small deflections; zero deflection changes nothing"""
	r = rng(c); n = c["n"]; wcs = geo.make_wcs("car",[0,0],[-.1,.1],[n/2,n/2]); y, x = np.mgrid[:n,:n]*2*np.pi/n; w = lambda: sum(r.standard_normal()*np.cos(a*y+b*x+r.uniform(0,7)) for a in range(-1,2) for b in range(2))
	m = enmap.ndmap(w(),wcs); g = enmap.ndmap(np.array([w(),w()]),wcs); g *= c["amp"]*.1*utils.degree/np.max(np.abs(g)); L = lensing.lens_map(m,g); B = lensing.delens_map(L,g,nstep=6); t.close(B,m,"delensed",atol=0.02*np.max(np.abs(L-m))+2e-4*np.max(np.abs(m)),rtol=0)
	t.close(lensing.lens_map(m,g*0),m,"zero deflection",atol=1e-9,rtol=0); t.close(lensing.delens_map(m,g*0),m,"zero deflection",atol=1e-9,rtol=0)
	q = lensing.delens_grad(g,nstep=20); t.close(lensing.lens_map(g,-q,order=3),q,"fixed point of the inverse deflection",rtol=1e-6)

def gen_pflat(d): return {"ny":d.int(4,12),"nx":d.int(4,12),"pre":geo.gen_pre(d,2,3),"amp":d.choice([0,.3,4]),"flip":[d.bool(),d.bool()],"seed":d.seed()}
@prop.law(gen_pflat, quick=60, rule="a deflection")
def mapflat(c, t):
	"""lens_map_flat displaces by the gradient of the potential in pixels, with periodic boundaries"""
	r = rng(c); ny, nx = c["ny"], c["nx"]; t.mark_trivial(c["amp"]==0); s = [.1*(-1 if f else 1) for f in c["flip"]]; wcs = geo.make_wcs("car",[10,0],[s[1],s[0]],[nx/2,ny/2]); y, x = np.mgrid[:ny,:nx]; a, b, ph = int(r.integers(-1,2)), int(r.integers(-1,2)), r.uniform(0,7)
	m = enmap.ndmap(r.standard_normal(tuple(c["pre"])+(ny,nx)),wcs); arg = 2*np.pi*(a*y/ny+b*x/nx)+ph; A = c["amp"]*(.1*utils.degree)**2; phi = enmap.ndmap(A*np.cos(arg),wcs); ext = enmap.extent((ny,nx),wcs)/[ny,nx]
	off = np.array([-A*np.sin(arg)*2*np.pi*a/ny/ext[0]**2,-A*np.sin(arg)*2*np.pi*b/nx/ext[1]**2]); pix = np.array([y,x])+off
	ref = np.array([scipy.ndimage.map_coordinates(q,pix,order=4,mode="grid-wrap") for q in np.asarray(m).reshape(-1,ny,nx)]).reshape(m.shape); got = lensing.lens_map_flat(m,phi); t.true(isinstance(got,enmap.ndmap),"type"); t.close(got,ref,"lensed",atol=1e-8*(1+c["amp"]),rtol=0)

def gen_rand(d): return {"ncomp":d.choice([1,3,None]),"nl":d.int(4,8),"lmax":d.choice([None,-1]),"s":d.int(0,100),"ps":d.choice([None,5,77]),"corr":d.bool(),"hist":d.bool(),"pol":d.bool(),"seed":d.seed()}
@prop.law(gen_rand, quick=60, rule="every generated case")
def draw(c, t):
	"""rand_alm and rand_map are functions of their seeds, with potential and sky drawn from the given spectra"""
	r = rng(c); A = r.standard_normal((4,4)); ps = (A@A.T+np.eye(4))[:,:,None]*np.ones(c["nl"]); L = c["nl"]-1+(c["lmax"] or 0)
	if not c["corr"]: ps[0,1:] = 0; ps[1:,0] = 0
	n = c["ncomp"]; nc = 3 if n is None else n; kw = {} if n is None else {"ncomp":n}
	if c["hist"]: np.random.standard_normal(7)
	phi, cmb, ai = lensing.rand_alm(ps,lmax=None if c["lmax"] is None else L,seed=c["s"],phi_seed=c["ps"],**kw); t.true(ai.lmax==L and phi.shape==(ai.nelem,) and cmb.shape==(nc,ai.nelem),"shapes")
	w, v = np.linalg.eigh(ps[:nc+1,:nc+1,0]); S = (v*np.sqrt(w))@v.T
	if c["ps"] is None: white = curvedsky.rand_alm_white(ai,pre=[nc+1],seed=c["s"])
	else: white = np.concatenate([curvedsky.rand_alm_white(ai,pre=[1],seed=c["ps"]),curvedsky.rand_alm_white(ai,pre=[nc],seed=c["s"])])
	m0 = np.array([m==0 for l,m in sht.lms(L,L)]); white = np.where(m0,white.real*2**.5,white)/2**.5; t.close(np.concatenate([phi[None],cmb]),S@white,"coefficients",rtol=1e-9); t.true(np.all(phi[m0].imag==0) and np.all(cmb[:,m0].imag==0),"m=0 real")
	if c["ps"] is not None and not c["corr"]:
		phi2, cmb2, _ = lensing.rand_alm(ps,seed=c["s"]+1,lmax=None if c["lmax"] is None else L,phi_seed=c["ps"],**kw); t.close(phi2,phi,"potential depends on its own seed only",rtol=1e-13); t.true(np.any(cmb2!=cmb),"sky depends on seed")
	ny, nx = 3, 4; wcs = geo.make_wcs("car",[0,0],[-2,2],[2,2]); sh = (3,ny,nx) if c["pol"] else (ny,nx); q = ps*1e-4; q[1:,1:] *= 1e4; a = lensing.rand_map(sh,wcs,q,lmax=L,seed=c["s"],phi_seed=c["ps"],output="lup"); b = lensing.rand_map(sh,wcs,q,lmax=L,seed=c["s"],phi_seed=c["ps"],output="lup")
	P, C, ai = lensing.rand_alm(q,lmax=L,seed=c["s"],phi_seed=c["ps"],ncomp=3 if c["pol"] else 1); e = lensing.lens_map_curved(sh,wcs,P,C if c["pol"] else C[0],output="lup")
	for x,y,z in zip(a,b,e): t.eq(x,y,"deterministic"); t.close(np.asarray(x).reshape(z.shape),z,"lensed draw",rtol=1e-10); t.true(x.shape==z.shape,"shape")

@prop.law(lambda d: {"extra":d.int(1,2000),"pol":d.choice([None,True]),"ext":d.bool(),"seed":d.seed()}, quick=4, rule="every generated case")
def many(c, t):
	"""More positions than are handled at a time are each moved as they would be on their own"""
	r = rng(c); n = 0x100000+c["extra"]; ip = np.array([r.uniform(-1.5,1.5,n),r.uniform(-4,4,n)]+([r.uniform(-1,1,n)] if c["ext"] else [])); g = r.normal(size=(2,n))*.05; o = lensing.offset_by_grad(ip,g,pol=c["pol"])
	for s in [slice(0,500),slice(0x100000-200,n),slice(n-50,n),slice(n//2,n//2+100)]: t.close(o[:,s],lensing.offset_by_grad(ip[:,s].copy(),g[:,s].copy(),pol=c["pol"]),"positions %d:%d" % (s.start,s.stop),rtol=0,atol=1e-11)
	t.true(np.all(np.isfinite(o)),"non-finite")
