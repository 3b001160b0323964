import warnings
import numpy as np, healpy
from scipy.spatial.transform import Rotation
from harness.core import Prop, rng
from harness import methods as _methods, geo, sht
from pixell import enmap, reproject, curvedsky, utils
prop = Prop("P28", assumptions=["galactic coordinates are those of the IAU J2000 definition, to three arcseconds","Healpix quadrature itself (map2alm_healpix) is P15's subject","spline lookups are checked away from ties and from the edge of the map"])
DEG = np.pi/180
# Galactic from ICRS (Hipparcos, ESA 1997)
GAL = np.array([[-.0548755604162154,-.8734370902348850,-.4838350155487132],[.4941094278755837,-.4448296299600112,.7469822444972189],[-.8676661490190047,-.1980763734312015,.4559837761750669]])
def Rz(a): c, s = np.cos(a), np.sin(a); return np.array([[c,-s,0],[s,c,0],[0,0,1]])
def Ry(a): c, s = np.cos(a), np.sin(a); return np.array([[c,0,s],[0,1,0],[-s,0,c]])
def mat(rot):
	"""The matrix that takes directions in the input system to directions in the output system"""
	if rot is None: return np.eye(3)
	if isinstance(rot,str):
		M = {"cel":np.eye(3),"equ":np.eye(3),"gal":GAL}; i, o = rot.split(","); return M[o]@M[i].T
	return Rz(rot[2])@Ry(rot[1])@Rz(rot[0])
def basis(p): return np.array([-np.sin(p[0])*np.cos(p[1]),-np.sin(p[0])*np.sin(p[1]),np.cos(p[0])]), np.array([-np.sin(p[1]),np.cos(p[1]),0*p[0]])
def pull(R, pos):
	"""Input-system positions of the output positions pos, and how much polarization turns on the way out"""
	v = R.T@geo.to_vec(pos[0],pos[1]); q = np.array([np.arctan2(v[2],np.hypot(v[0],v[1])),np.arctan2(v[1],v[0])])
	ed, ea = basis(pos); w = R.T@ed; qd, qa = basis(q); return q, np.arctan2((w*qa).sum(0),(w*qd).sum(0))
def comps(spins, n):
	o, i, k = [], 0, 0
	while i < n: s = spins[k%len(spins)]; o.append((i,s)); i += 1+(s!=0); k += 1
	return o
def turn(x, gam, spins):
	"""x[...,ncomp,npix]"""
	x = np.array(x,float)
	for i, s in comps(spins,x.shape[-2]):
		if s: z = (x[...,i,:]+1j*x[...,i+1,:])*np.exp(1j*s*gam); x[...,i,:], x[...,i+1,:] = z.real, z.imag
	return x
def evalm(alm, p, L, spins):
	"""alm[n,nlm] -> [n,npix]"""
	return np.concatenate([sht.synth(alm[i:i+1+(s!=0)],p,L,spin=s) for i, s in comps(spins,len(alm))])
def hpos(nside): th, ph = healpy.pix2ang(nside,np.arange(12*nside**2)); return np.array([np.pi/2-th,ph])
def gen_rot(d):
	k = d.choice(["none","euler","euler","str"])
	if k == "none": return None
	if k == "str": return d.choice(["gal,cel","cel,gal","equ,gal","gal,equ","cel,equ","gal,gal"])
	return [d.float(-4,4),d.float(-2,2),d.float(-4,4)]
SPINS = [([0,2],3),([0,2],3),([0,2],6),([2],2),([0],2),([0],None),([0],None),([1],2),([0,1],3)]
def gen_sp(d): return d.int(0,len(SPINS)-1)
def spec(c):
	s, n = SPINS[c["sp"]]; return s, (1 if n is None else n), (tuple(c["pre"])+(n,) if n is not None else ())
def mkalm(c, r, L):
	s, n, pre = spec(c); N = int(np.prod(pre[:-1])); a = sht.rand_alm(r,(N,n),L); ls = np.array([l for l,m in sht.lms(L,L)])
	for i, sp in comps(s,n):
		if sp: a[:,i:i+2,ls<sp] = 0
	return a, s, n, pre
def gen_c(d): return {"rot":gen_rot(d),"sp":gen_sp(d),"pre":d.choice([[],[],[],[2]]),"dtype":d.choice(["float64","float64","float32"]),"out":d.bool(),"seed":d.seed()}
def tol(c, alm, loose=False): return (3e-4 if isinstance(c["rot"],str) else 2e-4 if c["dtype"]=="float32" else 1e-9)*np.abs(alm).sum()/10

def gen_m2h(d): c = gen_c(d); c.update({"L":d.int(2,4),"nside":d.choice([1,2,3,4,8]),"g":None,"ny":d.int(0,5),"nx":d.int(0,5),"kind":d.choice(["F1","CC","CC","F2"]),"flip":[d.bool(),d.bool()],"ra0":d.choice([0.,180.,13.5]),"xoff":d.choice([0.,.5,-3.7]),"ext":d.bool()}); return c
@prop.law(gen_m2h, quick=150, rule="rotated, polarized or extensive")
def map2healpix_harm(c, t):
	"""Harmonic reprojection to healpix gives the band-limited sky at every healpix pixel, rotated"""
	r = rng(c); L = c["L"]; nside = c["nside"]; alm, s, n, pre = mkalm(c,r,L); t.mark_trivial(c["rot"] is None and n==1 and not c["ext"]); ny, nx = 2*L+4+c["ny"], 2*L+2+c["nx"]; g = sht.ducc_wcs(c["kind"],ny,nx,c["flip"],c["ra0"],c["xoff"]); shape, wcs = geo.build(g); pos = sht.posmap(g).reshape(2,-1); dt = np.dtype(c["dtype"])
	if c["kind"] == "CC" and any(s): pos[0] = np.clip(pos[0],-np.pi/2+1e-9,np.pi/2-1e-9)
	m = np.array([evalm(a,pos,L,s) for a in alm]).reshape(pre+shape); q, gam = pull(mat(c["rot"]),hpos(nside)); ref = np.array([turn(evalm(a,q,L,s),gam,s) for a in alm]).reshape(pre+(12*nside**2,))
	mm = enmap.ndmap(m.astype(dt),wcs); f = 1.
	if c["ext"]: a = enmap.ndmap(np.asarray(mm.pixsizemap(broadcastable=True)),wcs); mm = enmap.ndmap((m*np.asarray(a)).astype(dt),wcs); f = 4*np.pi/(12*nside**2); t.true(np.all(np.asarray(a)>0),"pixel areas")
	keep = mm.copy(); kw = {"lmax":L}
	if c["out"]: buf = np.full(ref.shape,7.,dt); o = reproject.map2healpix(mm,out=buf,rot=c["rot"],spin=s,extensive=c["ext"],**kw); t.true(o is buf or np.shares_memory(o,buf),"out used")
	else: o = reproject.map2healpix(mm,nside,rot=c["rot"],spin=s,extensive=c["ext"],**kw)
	t.eq(mm,keep,"input modified"); t.true(o.shape==ref.shape and o.dtype==dt,"type"); t.close(o,ref*f,"healpix map",atol=tol(c,alm)*f,rtol=0)

def gen_h2m(d): c = gen_c(d); c.update({"L":d.int(2,5),"nside":d.choice([1,2,3,4]),"g":sht.gen_sht(d),"ext":d.choice([False,False,True]),"niter":d.choice([0,0,2])}); return c
@prop.law(gen_h2m, quick=150, rule="rotated, polarized or extensive")
def healpix2map_harm(c, t):
	"""Harmonic reprojection from healpix evaluates the analysed sky at every output pixel, rotated"""
	r = rng(c); L = c["L"]; nside = c["nside"]; s, n, pre = spec(c); g = c["g"]; shape, wcs = geo.build(g); pos = sht.posmap(g).reshape(2,-1); dt = np.dtype(c["dtype"]); t.mark_trivial(c["rot"] is None and n==1 and not c["ext"])
	h = r.standard_normal(pre+(12*nside**2,)).astype(dt); keep = h.copy(); alm = np.asarray(curvedsky.map2alm_healpix(h.astype(float),lmax=L,spin=s,niter=c["niter"])).reshape(-1,n,len(sht.lms(L,L))); ok = np.all(np.isfinite(pos),0); t.mark_trivial(not ok.any())
	if not ok.any(): return
	q, gam = pull(mat(c["rot"]),pos[:,ok]); ref = np.zeros((len(alm),n,pos.shape[1])); ref[:,:,ok] = np.array([turn(evalm(a,q,L,s),gam,s) for a in alm]); ref = ref.reshape(pre+shape)
	# next to the poles the directions of polarization are not defined numerically
	pole = np.zeros(pos.shape[1],bool); pole[ok] = (np.abs(np.abs(q[0])-np.pi/2)<1e-4)|(np.abs(np.abs(pos[0,ok])-np.pi/2)<1e-4) if any(s) else False
	kw = {"lmax":L,"rot":c["rot"],"spin":s,"extensive":c["ext"],"niter":c["niter"]}
	if c["out"]: buf = enmap.full(pre+shape,wcs,7.,dt); o = reproject.healpix2map(h,out=buf,**kw); t.true(o is buf or np.shares_memory(o,buf),"out used")
	else: o = reproject.healpix2map(h,(5,)+shape,wcs,**kw)
	t.eq(h,keep,"input modified"); t.true(o.shape==ref.shape and o.dtype==dt and isinstance(o,enmap.ndmap) and o.wcs.wcs.compare(wcs.wcs),"type"); f = 1.
	if c["ext"]:
		f = np.asarray(enmap.pixsizemap(shape,wcs))/(4*np.pi/(12*nside**2))
		ok &= (np.isfinite(f)&(f>0)&(f<12*nside**2)).reshape(-1)&np.ones(pos.shape[1],bool) if f.size==pos.shape[1] else True
	e = np.abs(np.asarray(o)-ref*f).reshape(-1,pos.shape[1])[:,ok&~pole]; mx = np.max(np.broadcast_to(f,shape).reshape(-1)[ok],initial=1e-300); t.close(e,0*e,"map",atol=max(tol(c,alm),1e-5)*mx,rtol=0)

def lookup(m, y, x, order, wrap):
	"""m[...,ny,nx] nearest or bilinear at pixel coordinates, and which of them are clear of ties and edges"""
	ny, nx = m.shape[-2:]
	if wrap: x = x%nx; Y = np.concatenate([m,m[...,:1]],-1)
	else: Y = m
	X = Y.shape[-1]; ok = (y>1e-4)&(y<ny-1-1e-4)&(x>1e-4)&(x<X-1-1e-4)
	if order == 0:
		for v in (y,x): ok = ok&(np.abs(v-np.floor(v)-.5)>1e-3)
		return Y[...,np.clip(np.floor(np.where(ok,y,0)+.5).astype(int),0,ny-1),np.clip(np.floor(np.where(ok,x,0)+.5).astype(int),0,X-1)], ok
	yy, xx = np.where(ok,y,0.), np.where(ok,x,0.); i, j = np.minimum(np.floor(yy).astype(int),max(ny-2,0)), np.minimum(np.floor(xx).astype(int),max(X-2,0)); a, b = yy-i, xx-j; i1, j1 = np.minimum(i+1,ny-1), np.minimum(j+1,X-1)
	return Y[...,i,j]*(1-a)*(1-b)+Y[...,i1,j]*a*(1-b)+Y[...,i,j1]*(1-a)*b+Y[...,i1,j1]*a*b, ok
def gen_sp28(d): c = gen_c(d); c.update({"nside":d.choice([1,2,3,4,8]),"g":d.choice([0,1]),"order":d.choice([0,1,1]),"ext":d.bool(),"bsize":d.choice([1,7,100,100000]),"full":d.bool(),"gf":sht.gen_sht_full(d,4,12,16,("F1","CC"),4),"gc":geo.gen_cyl(d,3,12,projs=("car","cea"),res=(2,15))}); return c
@prop.law(gen_sp28, quick=150, rule="some healpix pixel inside the map")
def map2healpix_spline(c, t):
	"""Spline reprojection to healpix reads the map off at each rotated healpix pixel centre, whatever the batch size"""
	r = rng(c); nside = c["nside"]; s, n, pre = spec(c); g = c["gf"] if c["full"] else c["gc"]; shape, wcs = geo.build(g); dt = np.dtype(c["dtype"]); m = enmap.ndmap(r.standard_normal(pre+shape).astype(dt),wcs); keep = m.copy(); q, gam = pull(mat(c["rot"]),hpos(nside)); y, x = geo.cyl_sky2pix(g,q[0],q[1]); N = 360/abs(g["cdelt"][0]); y, x = np.asarray(y,float), np.asarray(x,float)
	if not c["full"]: x = (x-(shape[1]-1)/2+N/2)%N+(shape[1]-1)/2-N/2
	w = m/np.asarray(m.pixsizemap())*(4*np.pi/(12*nside**2)) if c["ext"] else m; val, ok = lookup(np.asarray(w,float),y,x,c["order"],c["full"]); t.mark_trivial(not ok.any())
	near = np.abs(np.abs(q[0])-np.pi/2)<1e-4; near |= np.abs(np.abs(hpos(nside)[0])-np.pi/2)<1e-4; ok &= ~near; ref = turn(val.reshape(-1,n,val.shape[-1]),gam if c["rot"] is not None else gam*0,s).reshape(val.shape)
	kw = {"rot":c["rot"],"spin":s,"method":"spline","order":c["order"],"extensive":c["ext"],"bsize":c["bsize"],"boundary":"grid-wrap" if c["full"] else "constant"}
	if c["out"]: buf = np.full(ref.shape,7.,dt); o = reproject.map2healpix(m,out=buf,**kw); t.true(o is buf or np.shares_memory(o,buf),"out used")
	else: o = reproject.map2healpix(m,nside,**kw)
	t.eq(m,keep,"input modified"); t.true(o.shape==ref.shape and o.dtype==dt,"type"); sc = np.max(np.abs(ref),initial=1e-300)
	if isinstance(c["rot"],str) and c["order"]==0: ok &= False
	t.close(o[...,ok],ref[...,ok],"values",atol=sc*(3e-4 if isinstance(c["rot"],str) else 2e-4 if dt==np.float32 else 1e-5)*10,rtol=0)
	if not c["full"]: far = (y<-1.5)|(y>shape[0]+.5)|(x<-1.5)|(x>shape[1]+.5); t.true(np.all(o[...,far]==0),"zero outside the map")

def gen_hs(d): c = gen_c(d); c.update({"nside":d.choice([1,2,4,8]),"g":sht.gen_sht(d),"order":d.choice([0,1,1]),"ext":d.bool(),"bsize":d.choice([1,7,30,100000])}); return c
@prop.law(gen_hs, quick=150, rule="more than one pixel on the sky")
def healpix2map_spline(c, t):
	"""Spline reprojection from healpix is healpix lookup or interpolation at the rotated pixel positions, whatever the batch size"""
	r = rng(c); nside = c["nside"]; s, n, pre = spec(c); g = c["g"]; shape, wcs = geo.build(g); pos = sht.posmap(g).reshape(2,-1); dt = np.dtype(c["dtype"]); h = r.standard_normal(pre+(12*nside**2,)).astype(dt); keep = h.copy(); fin = np.all(np.isfinite(pos),0); t.mark_trivial(fin.sum()<2)
	if not fin.all() or np.any(np.abs(pos[0])>np.pi/2+1e-12): t.mark_trivial(); return
	pos = np.array([np.clip(pos[0],-np.pi/2,np.pi/2),pos[1]]); q, gam = pull(mat(c["rot"]),pos); th, ph = np.pi/2-q[0], q[1]; ok = (np.abs(np.abs(q[0])-np.pi/2)>1e-3)&(np.abs(np.abs(pos[0])-np.pi/2)>1e-3)
	if c["order"] == 0:
		e = 3e-5 if isinstance(c["rot"],str) else 1e-7; ix = healpy.ang2pix(nside,np.clip(th,0,np.pi),ph); val = h[...,ix]
		for a, b in ((e,0),(-e,0),(0,e),(0,-e)): ok &= healpy.ang2pix(nside,np.clip(th+a,0,np.pi),ph+b)==ix
	else: val = np.array([healpy.get_interp_val(x.astype(float),th,ph) for x in h.reshape(-1,h.shape[-1])]).reshape(pre+(len(th),))
	ref = turn(val.reshape(-1,n,val.shape[-1]),gam if c["rot"] is not None else gam*0,s).reshape(val.shape); kw = {"rot":c["rot"],"spin":s,"method":"spline","order":c["order"],"extensive":c["ext"],"bsize":c["bsize"]}
	if c["out"]: buf = enmap.full(pre+shape,wcs,7.,dt); o = reproject.healpix2map(h,out=buf,**kw); t.true(o is buf or np.shares_memory(o,buf),"out used")
	else: o = reproject.healpix2map(h,shape,wcs,**kw)
	t.eq(h,keep,"input modified"); t.true(o.shape==pre+shape and o.dtype==dt and isinstance(o,enmap.ndmap),"type"); f = np.ones(shape).reshape(-1)
	if c["ext"]: f = np.asarray(enmap.pixsizemap(shape,wcs)).reshape(-1)/(4*np.pi/(12*nside**2))
	e = (np.asarray(o).reshape(ref.shape)-ref*f)[...,ok]; t.close(e,0*e,"values",atol=np.max(f[ok],initial=1e-300)*(5e-3 if isinstance(c["rot"],str) else 1e-4),rtol=0)

def gen_th(d): return {"n":d.choice([90,120,150]),"flip":[d.bool(),d.bool()],"ra0":d.choice([0.,180.,13.5]),"xoff":d.choice([0.,.5,-3.7]),"cens":d.list(lambda: [d.float(-55,55,2),d.float(-200,380,2)],1,3),"twod":d.bool(),"proj":d.choice([None,"car","tan"]),"kind":d.choice(["mixed","spline","nufft"]),"order":d.choice([1,3]),"over":d.choice([1,2,4]),"L":d.int(2,3),"sp":d.choice([0,5]),"pre":d.choice([[],[],[2]]),"pol":d.choice([None,None,True]),"ext":d.bool(),"own":d.bool(),"dtype":d.choice(["float64","float64","float32"]),"seed":d.seed()}
@prop.law(gen_th, quick=60, rule="every generated case")
def thumbs(c, t):
	"""Thumbnails show the sky around each position, turned so that the position is at the origin, for every interpolation method"""
	r = rng(c); L = c["L"]; s, n, pre = spec(c); N = c["n"]; h = 180./N*DEG; g = sht.ducc_wcs("F1",N,2*N,c["flip"],c["ra0"],c["xoff"]); shape, wcs = geo.build(g); pos = sht.posmap(g).reshape(2,-1); dt = np.dtype(c["dtype"]); alm, s, n, pre = mkalm(c,r,L); alm[:,:,0] += (4 if 2 not in s else 0)
	if 2 in s: alm[:,1:,[l<2 for l,m in sht.lms(L,L)]] = 0
	m = enmap.ndmap(np.array([evalm(a,pos,L,s) for a in alm]).reshape(pre+shape),wcs); cen = np.array(c["cens"])*DEG; 
	if c["ext"]: m = m*m.pixsizemap()
	m = m.astype(dt); keep = m.copy(); R = 4*h; kw = {"r":R,"res":h/2,"apod":6*h,"method":c["kind"],"order":c["order"],"oversample":c["over"],"extensive":c["ext"]}; pol = n == 3
	if pol and c["pol"] is not None: kw["pol"] = True
	if c["own"]: kw.update(dict(zip(("oshape","owcs"),enmap.thumbnail_geometry(r=R,res=h/2,proj=c["proj"] or "car"))))
	elif c["proj"]: kw["proj"] = c["proj"]
	o = reproject.thumbnails(m,cen[:,None] if c["twod"] else cen,**kw); t.eq(m,keep,"input modified"); t.true(o.dtype==dt and o.shape[:-2]==((len(cen),1) if c["twod"] else (len(cen),))+pre,"shape")
	op = np.asarray(o.posmap()).reshape(2,-1); y, x = o.shape[-2:]; t.close(o.sky2pix([0,0]),[(y-1)/2,(x-1)/2],"centred",atol=1e-6); rad = np.arccos(np.clip(np.cos(op[0])*np.cos(op[1]),-1,1)); ok = rad<R-h/2; area = np.asarray(o.pixsizemap()).reshape(-1) if c["ext"] else 1; t.true(rad.max()>R*.9,"size")
	for i, p in enumerate(cen):
		q, gam = pull((Rz(p[1])@Ry(-p[0])).T,op); ref = np.array([turn(evalm(a,q,L,s),gam,s) for a in alm]); got = np.asarray(o).reshape(len(cen),-1,n,op.shape[1])[i]/area; e = (got-ref)[...,ok]; t.close(e,0*e,"thumbnail %d" % i,atol=.02*np.abs(ref).max()+.01*np.abs(alm).max(),rtol=0)

def gen_te(d): return {"g":geo.gen_cyl(d,12,30,projs=("car","cea"),res=(1,4),maxdec=70),"cen":[d.float(.2,.8),d.float(.2,.8)],"npix":d.int(3,9),"order":d.choice([0,1]),"ext":d.bool(),"ivar":d.bool(),"sp":d.choice([0,4,5]),"pre":d.choice([[],[2]]),"proj":d.choice(["car","tan"]),"seed":d.seed()}
@prop.law(gen_te, quick=100, rule="some thumbnail pixel inside the map")
def thumbs_exact(c, t):
	"""Unapodized local thumbnails and thumbnails_ivar are nearest neighbour or bilinear lookups, scaled by pixel area for extensive quantities"""
	r = rng(c); s, n, pre = spec(c); g = c["g"]; shape, wcs = geo.build(g); m = enmap.ndmap(r.uniform(1,2,pre+shape),wcs); keep = m.copy(); cy, cx = c["cen"][0]*(shape[0]-1), c["cen"][1]*(shape[1]-1); dec, ra = geo.cyl_pix2sky(g,cy,cx); h = min(abs(g["cdelt"][0]),abs(g["cdelt"][1]))*DEG; R = c["npix"]*h; kw = {"r":R,"res":h,"order":c["order"],"extensive":c["ext"],"proj":c["proj"]}
	if c["ivar"]: o = reproject.thumbnails_ivar(m,[[dec,ra]],**kw)[0]
	else: o = reproject.thumbnails(m,[[dec,ra]],apod=0,pol=False if n==3 else None,method="spline",**kw)[0]
	t.eq(m,keep,"input modified"); op = np.asarray(o.posmap()).reshape(2,-1); q, gam = pull((Rz(ra)@Ry(-dec)).T,op); y, x = geo.cyl_sky2pix(g,q[0],q[1]); N = 360/abs(g["cdelt"][0]); x = (x-cx+N/2)%N+cx-N/2
	w = m/np.asarray(m.pixsizemap()) if c["ext"] else m; val, ok = lookup(np.asarray(w),y,x,c["order"],False); rad = np.arccos(np.clip(np.cos(op[0])*np.cos(op[1]),-1,1)); H = max(abs(g["cdelt"][0]),abs(g["cdelt"][1]))*DEG; ok &= rad<R-2*H; ok &= (y>1)&(y<shape[0]-2)&(x>1)&(x<shape[1]-2)
	t.mark_trivial(not ok.any()); a = np.asarray(o.pixsizemap()).reshape(-1) if c["ext"] else np.ones(op.shape[1]); t.close(np.asarray(o).reshape(val.shape)[...,ok],(val*a)[...,ok],"values",rtol=1e-6)

def gen_r(d): return {"rot":gen_rot(d) or [0,0,0],"nside":d.logfloat(.3,3000),"mode":d.choice(["pow2","mul32","any"]),"round":d.choice(["ceil","floor","round",None]),"N":d.int(1,400),"nmax":d.int(1,60)}
@prop.law(gen_r, quick=200, rule="every generated case")
def helpers(c, t):
	"""Rotation descriptions, nside restrictions and work division mean what they say"""
	with warnings.catch_warnings():
		warnings.simplefilter("ignore"); e = reproject.rot2euler(c["rot"])
	t.close(mat(e),mat(c["rot"]),"rotation matrix",atol=2e-5 if isinstance(c["rot"],str) else 1e-12); t.close(mat(reproject.inv_euler(e)),mat(e).T,"inverse",atol=1e-12); t.raises(ValueError,lambda: reproject.rot2euler("cel"),"no comma"); t.raises(ValueError,lambda: reproject.rot2euler("cel,foo"),"unknown system")
	f = {"ceil":np.ceil,"floor":np.floor,"round":np.round,None:np.ceil}[c["round"]]; n = c["nside"]; kw = {} if c["round"] is None else {"round":c["round"]}; o = reproject.restrict_nside(n,c["mode"],**kw)
	ref = {"any":lambda: f(n),"pow2":lambda: 2.**f(np.log2(n)),"mul32":lambda: f(n/32)*32 if 12*n**2>1024 else n}[c["mode"]](); t.true(isinstance(o,int) and o == max(1,int(ref)),"nside %s" % o)
	cells = reproject.distribute(c["N"],c["nmax"]); t.true(sum(cells)==c["N"] and all(x>0 for x in cells) and max(cells)<=c["nmax"],"distribute")

def gen_pop(d): return {"g":geo.gen_cyl(d,1,30,res=(.2,2)),"ty":d.int(1,20),"tx":d.int(1,20),"seed":d.seed()}
@prop.law(gen_pop, quick=40, rule="more than one tile")
def populate(c, t):
	"""populate fills every pixel with what the function gives for its tile's geometry"""
	shape, wcs = geo.build(c["g"]); n = [0]
	def f(s, w): n[0] += 1; t.true(s[-2]<=c["ty"] and s[-1]<=c["tx"],"tile size"); return enmap.posmap(s,w)[0]+10*np.sin(enmap.posmap(s,w)[1])
	import io, contextlib
	with contextlib.redirect_stdout(io.StringIO()): o = reproject.populate(shape,wcs,f,c["ty"],c["tx"])
	t.mark_trivial(n[0]<2); p = enmap.posmap(shape,wcs); t.close(o,p[0]+10*np.sin(p[1]),"populated",atol=1e-9)

def gen_old(d): return {"rot":d.choice([None,"gal,equ","gal,equ"]),"nside":d.choice([2,4]),"L":d.int(2,4),"g":geo.gen_cyl(d,2,10,res=(1,10)),"nc":d.choice([1,3]),"unit":d.choice([1,2.5]),"ip":d.bool(),"seed":d.seed()}
@prop.law(gen_old, quick=60, rule="every generated case")
def older(c, t):
	"""The older entry points give the same sky: enmap_from_healpix, enmap_from_healpix_interp, ivar_hp_to_cyl, healpix_from_enmap"""
	import io, contextlib
	r = rng(c); g = c["g"]; shape, wcs = geo.build(g); nside, L = c["nside"], c["L"]; pos = np.array(geo.cyl_pix2sky(g,*np.mgrid[:shape[0],:shape[1]])).reshape(2,-1); q, gam = pull(mat(c["rot"]),pos); n = c["nc"]; h = r.standard_normal((n,12*nside**2)); keep = h.copy()
	with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
		warnings.simplefilter("ignore")
		alm = curvedsky.map2alm_healpix(h/c["unit"],lmax=L).reshape(n,-1); fl = lambda l: 1/(1.+l); flv = np.array([fl(l) for l,m in sht.lms(L,L)])
		o, a = reproject.enmap_from_healpix(h,shape,wcs,ncomp=n,unit=c["unit"],lmax=L,rot=c["rot"],return_alm=True,f_ell=fl); ref = turn(evalm(alm*flv,q,L,[0,2]),gam if c["rot"] else gam*0,[0,2]); t.close(np.asarray(o).reshape(n,-1),ref,"enmap_from_healpix",atol=3e-4*np.abs(alm).sum(),rtol=0); t.close(np.asarray(a).reshape(n,-1),alm*flv,"alms",atol=1e-9)
		th, ph = np.pi/2-q[0], q[1]; e = 3e-5; ix = healpy.ang2pix(nside,np.clip(th,0,np.pi),ph); ok = np.ones(len(th),bool)
		for x, y in ((e,0),(-e,0),(0,e),(0,-e)): ok &= healpy.ang2pix(nside,np.clip(th+x,0,np.pi),ph+y)==ix
		o = reproject.enmap_from_healpix_interp(h[0],shape,wcs,rot=c["rot"],interpolate=c["ip"])
		if c["ip"]: t.close(np.asarray(o).reshape(-1),healpy.get_interp_val(h[0],th,ph),"interpolated",atol=2e-3)
		else: t.eq(np.asarray(o).reshape(-1)[ok],h[0,ix][ok],"nearest")
		iv = h[0]**2; o = reproject.ivar_hp_to_cyl(iv,shape,wcs,rot=c["rot"] is not None,extensive=c["ip"]); area = np.asarray(enmap.pixsizemap(shape,wcs)).reshape(-1) if c["ip"] else 4*np.pi/(12*nside**2); t.close(np.asarray(o).reshape(-1)[ok],(iv[ix]*area/(4*np.pi/(12*nside**2)))[ok],"inverse variance",rtol=1e-4,atol=1e-6)
		g2 = sht.ducc_wcs("F1",2*L+4,2*L+2,[True,False],0,0); s2, w2 = geo.build(g2); al = sht.rand_alm(r,(1,),L); m = enmap.ndmap(sht.synth(al,sht.posmap(g2).reshape(2,-1),L).reshape(s2),w2); t.close(reproject.healpix_from_enmap(m,L,nside),sht.synth(al,hpos(nside),L)[0],"healpix_from_enmap",atol=1e-8*np.abs(al).sum(),rtol=0)
	t.eq(h,keep,"input modified")

def gen_th2(d): return {"nside":d.choice([1,2,4,8]),"full":d.bool(),"gf":sht.gen_sht_full(d,4,12,16,("F1","CC"),4),"gc":geo.gen_cyl(d,3,12,projs=("car","cea"),res=(2,15)),"order":d.choice([0,1,1,3]),"chunk":d.choice([1,7,50,100000]),"pre":geo.gen_pre(d,2),"how":d.choice(["nside","omap","method"]),"seed":d.seed()}
@prop.law(gen_th2, quick=100, rule="some healpix pixel inside the map")
def to_healpix(c, t):
	"""enmap.to_healpix reads the map off at each healpix pixel centre, whatever the chunk size"""
	r = rng(c); nside = c["nside"]; pre = tuple(c["pre"]); g = c["gf"] if c["full"] else c["gc"]; shape, wcs = geo.build(g); m = enmap.ndmap(r.standard_normal(pre+shape),wcs); keep = np.array(m); q = hpos(nside); y, x = [np.asarray(v,float) for v in geo.cyl_sky2pix(g,q[0],q[1])]; N = 360/abs(g["cdelt"][0]); x = (x-(shape[1]-1)/2+N/2)%N+(shape[1]-1)/2-N/2
	val, ok = lookup(keep,y,x,min(c["order"],1),False); t.mark_trivial(not ok.any())
	with warnings.catch_warnings():
		warnings.simplefilter("ignore")
		kw = {"order":c["order"],"chunk":c["chunk"]}
		if   c["how"] == "nside": o = enmap.to_healpix(m,nside=nside,**kw)
		elif c["how"] == "method": o = m.to_healpix(nside=nside,**kw)
		else: buf = np.full(pre+(12*nside**2,),7.); o = enmap.to_healpix(m,omap=buf,**kw); t.true(o is buf,"omap used")
		if c["order"] > 1: val = np.asarray(m.at(q,order=c["order"],border="nearest"))
	t.eq(np.asarray(m),keep,"input modified"); t.true(o.shape==pre+(12*nside**2,),"shape"); t.close(np.asarray(o)[...,ok],val[...,ok],"values",atol=1e-6,rtol=1e-6)

def gen_loc(d): return {"g":geo.gen_cyl(d,8,30,projs=("car",),res=(.3,1.5),maxdec=60),"nc":d.choice([0,1,3]),"proj":d.choice(["car","cea"]),"how":d.choice(["all","box","pixbox"]),"h":d.float(.3,1),"w":d.float(.3,1),"own":d.bool(),"mul":d.choice([1.,1.,.5]),"noturn":d.choice([False,False,True]),"cut":[d.float(-.1,1.1),d.float(-.1,1.1)],"npix":d.choice([None,1,2,3,4,5]),"pad":d.choice([0,1,1,2]),"rs":d.choice([None,None,.7,1.3]),"seed":d.seed()}
@prop.law(gen_loc, quick=150, rule="a cutout that fits, or a submap, or polarization")
def older_local(c, t):
	"""The older local helpers: centered_map turns the middle of the map to the origin, cutouts surround their position, and the geometries are centered"""
	r = rng(c); g = c["g"]; shape, wcs = geo.build(g); n = c["nc"]; m = enmap.ndmap(r.standard_normal(((n,) if n else ())+shape),wcs); keep = m.copy(); h = np.abs(g["cdelt"])*DEG; res = h.min()*1.1; kw = {}; y0, x0, ny, nx = 0, 0, shape[0], shape[1]
	if c["how"] != "all":
		ny, nx = max(5,int(ny*c["h"])), max(5,int(nx*c["w"])); y0, x0 = int(r.integers(0,shape[0]-ny+1)), int(r.integers(0,shape[1]-nx+1)); pb = np.array([[y0,x0],[y0+ny,x0+nx]])
		if c["how"] == "pixbox": kw["pixbox"] = pb
		else: sub = m[...,y0:y0+ny,x0:x0+nx]; kw["box"] = np.array(geo.cyl_pix2sky(g,*(pb.T-.5))).T; t.label("box")
	if c["own"]: kw["width"], kw["height"] = res*7.3, res*5.3
	if c["mul"] != 1: kw["width_multiplier"] = c["mul"]
	if c["noturn"]: kw["rotate_pol"] = False
	with warnings.catch_warnings():
		warnings.simplefilter("ignore"); o, rpix = reproject.centered_map(m,res,proj=c["proj"],order=1,**kw)
	t.eq(m,keep,"input modified"); t.true(o.shape[:-2]==(max(n,1),),"shape"); cen = np.array(geo.cyl_pix2sky(g,y0+ny/2,x0+nx/2)); op = np.asarray(enmap.posmap(o.shape,o.wcs)).reshape(2,-1); t.close(enmap.sky2pix(o.shape,o.wcs,[0,0]),[(o.shape[-2]-1)/2,(o.shape[-1]-1)/2],"centred",atol=.51)
	q, gam = pull((Rz(cen[1])@Ry(-cen[0])).T,op); y, x = geo.cyl_sky2pix(g,q[0],q[1]); N = 360/abs(g["cdelt"][0]); y, x = y-y0, (x-x0-nx/2+N/2)%N+nx/2-N/2; P = np.asarray(rpix).reshape(3,-1); e = P[:2]-[y,x]; e[1] = (e[1]+N/2)%N-N/2; t.close(e,0*e,"where each pixel comes from",atol=1e-6)
	ok = (y>.01)&(y<ny-1.01)&(x>.01)&(x<nx-1.01); val, ok2 = lookup(np.asarray(m)[...,y0:y0+ny,x0:x0+nx].reshape(-1,ny,nx),y,x,1,False); ok &= ok2
	if n == 3 and not c["noturn"]: val = turn(val[None],gam,[0,2])[0]
	t.close(np.asarray(o).reshape(val.shape)[...,ok],val[...,ok],"values",atol=2e-4)
	with warnings.catch_warnings():
		warnings.simplefilter("ignore"); o2, rp2 = reproject.centered_map(m,res,proj=c["proj"],order=1,rpix=rpix,**kw)
	t.eq(np.nan_to_num(o2),np.nan_to_num(o),"with the pixels given"); t.true(rp2 is rpix,"given pixels returned")
	# cutouts
	ry, rx = c["cut"][0]*shape[0], c["cut"][1]*shape[1]; dec, ra = geo.cyl_pix2sky(g,ry,rx); ck = {"pad":c["pad"]}; ext = np.asarray(enmap.extent(shape,wcs))/shape; rs = ext.min()
	if c["rs"]: rs = ck["res"] = rs*c["rs"]
	if c["npix"]: ck["npix"] = k = c["npix"]
	else: W = ck["width"] = 4.6*h.min(); k = int(W/rs) 
	if not (abs(dec)<np.pi/2 and abs((rx-shape[1]/2))<N/2) or not all(abs(((v-k/2)%1)-.5)>1e-6 for v in (ry,rx)): t.mark_trivial(); return
	lo = [np.round(v-k/2) for v in (ry,rx)]; hi = [np.round(v+k/2) for v in (ry,rx)]; fits = min(lo)>=c["pad"] and all(b<=s-c["pad"] for b,s in zip(hi,shape)); o = reproject.cutout(m,ra=ra,dec=dec,**ck); t.true((o is not None)==fits,"given when it fits"); t.mark_trivial(not fits and c["how"]=="all" and n<3)
	if fits:
		a, b = [int(np.round(v-k/2+.5)) for v in (ry,rx)]; t.label("cutout"); ref = m[...,a:a+k,b:b+k]; t.eq(o,ref,"cutout")
		if o.size: t.close(enmap.pix2sky(o.shape,o.wcs,[0,0]),geo.cyl_pix2sky(g,a,b),"cutout geometry",atol=1e-9) if a+k<=shape[0] and b+k<=shape[1] else None
		t.eq(m[reproject.cutout(m,ra=ra,dec=dec,return_slice=True,**ck)],ref,"slice")
		if n: t.eq(reproject.cutout(m,ra=ra,dec=dec,sindex=n-1,**ck),ref[n-1],"one component")
	# geometries
	W, H = res*(5.3+c["w"]*9), (res*(4.3+c["h"]*9) if c["own"] else None); c0 = cen*[1,1]; bx = reproject.rect_box(W,center=c0,height=H); HH = W if H is None else H; t.close(bx,[[c0[0]-HH/2,c0[1]-W/2],[c0[0]+HH/2,c0[1]+W/2]],"box",atol=1e-12)
	gs, gw = reproject.gnomonic_pole_geometry(W,res,height=H); t.eq(gs,(int(HH/res),int(W/res)),"gnomonic shape"); t.close(enmap.pix2sky(gs,gw,[(gs[0]-1)/2,(gs[1]-1)/2]),[0,0],"gnomonic center",atol=1e-9); t.close(enmap.pix2sky(gs,gw,[(gs[0]+1)/2,(gs[1]+1)/2]),[np.arctan(res*np.cos(np.arctan(res))),np.arctan(res)],"gnomonic step",rtol=1e-6)
	hp = reproject.healpix_from_enmap_interp(m,nside=8,order=1); t.eq(np.nan_to_num(hp),np.nan_to_num(m.to_healpix(nside=8,order=1)),"healpix")

_methods.add_law(prop)
