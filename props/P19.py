import numpy as np
from scipy.spatial.transform import Rotation
import astropy.coordinates as ac, astropy.units as au
from harness.core import Prop, rng
from pixell import utils, coordinates
prop = Prop("P19", assumptions=["horizontal coordinates need the enlib package, which is not part of this repository, so systems reached through it are not covered", "polarization angles are only checked further than 0.02 radians from the poles of both systems, as transform documents"])

def vec(ra, dec): return np.array([np.cos(dec)*np.cos(ra),np.cos(dec)*np.sin(ra),np.sin(dec)])
def vdist(a, b): return np.arctan2(np.sqrt(np.sum(np.cross(a,b,axis=0)**2,0)),np.sum(a*b,0))
def gen_pts(d, n):
	"""Angles [{phi,theta},n], with poles and the seam over-represented"""
	out = []
	for _ in range(n):
		k = d.int(0,5)
		if k == 0: out.append([d.float(-7,7),d.choice([-1,1])*(np.pi/2-d.choice([0,1e-9,1e-6,1e-3]))])
		elif k == 1: out.append([d.choice([0,np.pi,-np.pi,2*np.pi,np.pi/2]),d.float(-1.5,1.5)])
		else: out.append([d.float(-7,7),d.float(-np.pi/2,np.pi/2)])
	return out

def gen_rect(d): return {"p":gen_pts(d,d.int(1,6)),"q":gen_pts(d,1),"small":d.choice([1,1e-3,1e-7]),"near":d.bool(),"axis":d.int(-3,2),"zen":d.bool(),"r":[d.logfloat(1e-3,1e3) for _ in range(2)]}
@prop.law(gen_rect, quick=700, rule="always")
def rect(c, t):
	p = np.array(c["p"]).T; n = p.shape[1]; v = vec(*p); zen = c["zen"]; q = p.copy()
	if zen: q[1] = np.pi/2-q[1]
	# the coordinate axis in any position
	arr = np.broadcast_to(q[:,:,None],(2,n,2)); mv = np.moveaxis(arr,0,c["axis"]); r = utils.ang2rect(mv,zenith=zen,axis=c["axis"])
	t.close(np.moveaxis(r,c["axis"],0),np.broadcast_to(v[:,:,None],(3,n,2)),"ang2rect",atol=1e-12)
	for sc in c["r"]:
		a = np.moveaxis(utils.rect2ang(np.asarray(r)*sc,zenith=zen,axis=c["axis"]),c["axis"],0)
		t.close(a[1],arr[1],"rect2ang theta",atol=1e-9); w = vec(a[0],np.pi/2-a[1] if zen else a[1]); t.close(w,np.broadcast_to(v[:,:,None],w.shape),"rect2ang direction",atol=1e-9)
		t.true((a[1]>=(0 if zen else -np.pi/2)-1e-12)&(a[1]<=(np.pi if zen else np.pi/2)+1e-12)&(np.abs(a[0])<=np.pi+1e-12),"rect2ang range")
	# distances, including tiny ones and nearly antipodal ones
	o = np.array(c["q"])[0]; b = np.broadcast_to(o[:,None],(2,n)).copy()
	if c["near"]: b = p+c["small"]*(o[:,None]-p)
	b[1] = np.clip(b[1],-np.pi/2,np.pi/2)
	want = vdist(v,vec(*b)); pz, bz = (q, np.array([b[0],np.pi/2-b[1]])) if zen else (p,b)
	t.close(utils.angdist(pz,bz,zenith=zen),want,"angdist",atol=1e-12,rtol=1e-6); t.close(utils.angdist(bz.T,pz.T,zenith=zen,axis=-1),want,"angdist over the last axis",atol=1e-12,rtol=1e-6)
	tol = lambda a,b: 6*np.sqrt(2.3e-16*max(a/b,b/a)) # rounding of the lengths limits small angles to this
	got = utils.vec_angdist(v*c["r"][0],vec(*b)*c["r"][1]); t.close(got,want,"vec_angdist",atol=tol(*c["r"]),rtol=1e-6)
	if c["r"][0] == c["r"][1] or c["near"]: t.close(utils.vec_angdist(v,vec(*b)),want,"vec_angdist of unit vectors",atol=1e-7,rtol=1e-6)
	t.close(utils.vec_angdist(v.T,vec(*b).T*c["r"][1],axis=-1),want,"vec_angdist over the last axis",atol=tol(1,c["r"][1]),rtol=1e-6)
	for s,wv in [(1.,0.),(-1.,np.pi)]: t.close(utils.vec_angdist(v,s*v*c["r"][0]),np.full(n,wv),"vec_angdist of (anti)parallel vectors",atol=tol(1,c["r"][0]))
	ang = np.linspace(0,np.pi,7)*c["small"]; ch = utils.ang2chord(ang); t.close(ch,np.sqrt(np.maximum(0,(np.cos(ang)-1)**2+np.sin(ang)**2)),"ang2chord",atol=1e-9*c["small"]+1e-12); t.close(utils.chord2ang(ch),ang,"chord2ang",atol=1e-7*c["small"])

def gen_rot(d): return {"ang":[[d.float(-7,7) for _ in range(3)] for _ in range(d.int(1,3))],"kind":"".join(d.choice("xyz") for _ in range(3)),"upper":d.bool(),"p":gen_pts(d,4),"ax":d.int(-3,2),"shape":d.choice([[],[2],[2,3],[3,2]]),"seed":d.seed()}
@prop.law(gen_rot, quick=500, rule="always")
def rotations(c, t):
	r = rng(c["seed"]); e = r.uniform(-6,6,size=c["shape"]); k = c["kind"][0]; nd = len(c["shape"])
	ax = max(-nd-1,min(nd,c["ax"])); R = utils.rotmatrix(e,(k.upper() if c["upper"] else k) if c["ax"]%2 else "xyz".index(k),axis=ax); at = ax if ax>=0 else nd+1+ax
	t.true(R.shape==tuple(c["shape"][:at])+(3,3)+tuple(c["shape"][at:]),"rotmatrix shape"); R = np.moveaxis(R,[at,at+1],[-2,-1])
	uvec = np.eye(3)["xyz".index(k)]; want = Rotation.from_rotvec(np.reshape(e,(-1,1))*uvec).as_matrix().reshape(tuple(c["shape"])+(3,3))
	t.close(R,want,"rotmatrix",atol=1e-10)
	p = np.array(c["p"]).T; al = np.array(c["ang"][0])
	M = Rotation.from_euler(c["kind"].upper(),al).as_matrix() if not (c["kind"][0]==c["kind"][1] or c["kind"][1]==c["kind"][2]) else np.linalg.multi_dot([Rotation.from_rotvec(a*np.eye(3)["xyz".index(x)]).as_matrix() for a,x in zip(al,c["kind"])])
	t.close(coordinates.euler_mat(al,c["kind"]),M,"euler_mat",atol=1e-10)
	o = coordinates.euler_rot(al,p,c["kind"]); t.close(vec(*o),M@vec(*p),"euler_rot",atol=1e-9)
	o3 = coordinates.euler_rot(al,p.reshape(2,2,2),c["kind"]); t.close(o3.reshape(2,-1),o,"euler_rot of a 2d set",atol=1e-12)
	# one rotation per point
	A = np.array([c["ang"][i%len(c["ang"])] for i in range(4)]).T; o = coordinates.euler_rot(A,p,c["kind"])
	for i in range(4): t.close(vec(*o[:,i]),vec(*coordinates.euler_rot(A[:,i],p[:,i],c["kind"])),"euler_rot with per-point angles",atol=1e-9)
	te = coordinates.transform_euler(al,p); t.close(vec(*te),vec(*coordinates.euler_rot(al,p)),"transform_euler",atol=1e-9)

def gen_recenter(d): return {"p":gen_pts(d,4),"c":gen_pts(d,2),"n":d.choice([2,4]),"multi":d.bool(),"restore":d.bool()}
@prop.law(gen_recenter, quick=500, rule="always")
def recenter(c, t):
	p = np.array(c["p"]).T; a, b = np.array(c["c"])[0], np.array(c["c"])[1]; cen = np.concatenate([a,b]) if c["n"]==4 else a; to = b if c["n"]==4 else np.array([0,np.pi/2])
	if c["multi"]: cen = np.array([cen]*4).T
	rs = c["restore"]; keep = cen.copy(); o = coordinates.recenter(p,cen,restore=rs); t.eq(cen,keep,"recenter modifies its center")
	back = coordinates.decenter(o,cen,restore=rs); t.close(vec(*back),vec(*p),"decenter undoes recenter",atol=1e-9); t.eq(cen,keep,"decenter modifies its center")
	vo, vp = vec(*o), vec(*p); t.close(vo.T@vo,vp.T@vp,"recenter preserves distances",atol=1e-9)
	m = coordinates.recenter(a[:,None],cen if not c["multi"] else cen[:,:1],restore=rs); want = to+[a[0] if rs else 0,0]; t.close(vec(*m)[:,0],vec(*want),"recenter moves the center to its place",atol=1e-9)
	# the meridian through the center stays a meridian
	dd = 0.3*(1 if a[1]<0 else -1); m2 = coordinates.recenter((a+[0,dd])[:,None],cen if not c["multi"] else cen[:,:1],restore=rs); w = vec(want[0],want[1]+dd); t.close(vec(*m2)[:,0],w,"recenter keeps the local north",atol=1e-9)

SYS = {"gal":"galactic","galactic":"galactic","cel":"icrs","equ":"icrs","icrs":"icrs","ecl":"barycentrictrueecliptic","ecliptic":"barycentrictrueecliptic"}
_mats = {}
def sysmat(a, b):
	"""3x3 matrix from system a to b, straight from astropy"""
	if (a,b) not in _mats:
		v = ac.SkyCoord([0,90,0],[0,0,90],unit="deg",frame=SYS[a]).transform_to(SYS[b]).cartesian.xyz.value
		_mats[a,b] = v/np.sqrt(np.sum(v**2,0))
	return _mats[a,b]
def basis(ra, dec):
	e = np.array([-np.sin(ra),np.cos(ra),0*ra]); n = np.array([-np.sin(dec)*np.cos(ra),-np.sin(dec)*np.sin(ra),np.cos(dec)]); return e, n
def gen_trans(d):
	return {"a":d.choice(sorted(SYS)),"b":d.choice(sorted(SYS)),"p":gen_pts(d,d.choice([4,6])),"shape":d.choice(["flat","2d","one"]),"ref":d.choice([0,0,1,2,3]),"rp":[d.float(0,359,2),d.float(-89,89,2),d.float(0,359,2),d.float(-89,89,2)],"rsys":d.choice(["","cel","gal"]),"mode":d.choice(["pos","pol","mag","both","psi","psimag"]),"psi":d.float(-3,3),"time":d.choice([None,55500,51544.5]),"case":d.bool()}
@prop.law(gen_trans, quick=350, rule="the systems differ")
def transform(c, t):
	a, b = c["a"], c["b"]; p = np.array(c["p"]).T; t.mark_trivial(SYS[a]==SYS[b] and not c["ref"])
	if c["shape"] == "2d": p = p.reshape(2,2,-1)
	elif c["shape"] == "one": p = p[:,:1]
	M = sysmat(a,b); spec_b = b.upper() if c["case"] else b; ra,de,rb,df = c["rp"]
	if c["ref"]:
		t.label("recentered")
		rs = c["rsys"]; r0 = np.array([ra,de])*np.pi/180; r1 = np.array([rb,df])*np.pi/180
		spec_b += ":%g_%g" % (ra,de) + (":"+rs if rs else "")
		m = lambda x: sysmat(rs or b,b)@vec(*x)
		v0 = m(r0); l0 = [np.arctan2(v0[1],v0[0]),np.arctan2(v0[2],np.hypot(v0[0],v0[1]))]
		if c["ref"] == 1: l1 = [0.,np.pi/2]
		elif c["ref"] == 2:  spec_b += "/%g_%g" % (rb,df); v1 = m(r1)   # in the same system as the first
		else: spec_b += "/%g_%g:%s" % (rb,df,b); v1 = vec(*r1)
		if c["ref"] > 1: l1 = [np.arctan2(v1[1],v1[0]),np.arctan2(v1[2],np.hypot(v1[0],v1[1]))]
		Rz = lambda x: Rotation.from_rotvec([0,0,x]).as_matrix(); Ry = lambda x: Rotation.from_rotvec([0,x,0]).as_matrix()
		M = Rz(l1[0])@Ry(l0[1]-l1[1])@Rz(-l0[0])@M
	kw = {} if c["time"] == 55500 or (c["time"] is None and c["ref"]) else {"time":c["time"]}
	inp = p; mode = c["mode"]
	if mode == "pol": kw["pol"] = True
	elif mode == "mag": kw["mag"] = True
	elif mode == "both": kw["pol"] = kw["mag"] = True
	elif mode in ["psi","psimag"]: inp = np.concatenate([p,np.full((1,)+p.shape[1:],c["psi"])]+([np.full((1,)+p.shape[1:],2.)] if mode=="psimag" else []))
	keep = inp.copy(); o = coordinates.transform(a,spec_b,inp,**kw); t.eq(inp,keep,"transform modifies its input")
	nf = {"pos":0,"pol":1,"mag":1,"both":2,"psi":1,"psimag":2}[mode]; t.true(o.shape==(2+nf,)+p.shape[1:],"transform shape %s" % (o.shape,))
	fo = o[:2].reshape(2,-1); fp = p.reshape(2,-1); w = M@vec(*fp); t.close(vec(*fo),w,"transform %s -> %s" % (a,spec_b),atol=2e-7)
	bk = coordinates.transform(spec_b,a,o[:2],**({"time":c["time"]} if "time" in kw else {})); t.close(vec(*bk.reshape(2,-1)),vec(*fp),"transform back",atol=3e-7)
	ok = (np.abs(fo[1])<np.pi/2-0.02)&(np.abs(fp[1])<np.pi/2-0.02); of = o.reshape(2+nf,-1)
	if mode in ["pol","both","psi","psimag"] and np.any(ok):
		t.label("pol"); e,n = basis(*fp); e2,n2 = basis(*fo); re = M@e; ang = np.arctan2(np.sum(re*n2,0),np.sum(re*e2,0))+(c["psi"] if mode.startswith("psi") else 0)
		t.close_ang(of[2][ok],ang[ok],"rotation of the local axes",atol=2e-3)
	if mode in ["mag","both","psimag"] and np.any(ok):
		mg = np.cos(fp[1])/np.cos(fo[1])*(2. if mode=="psimag" else 1.); t.close(of[-1][ok],mg[ok],"magnification",rtol=1e-9)

def gen_cyc(d): return {"n":d.int(1,12),"shape":d.int(1,3),"period":d.choice([2*np.pi,360.,1.,24.]),"ref":d.float(-2,2),"auto":d.bool(),"mode":d.choice(["left","middle"]),"nan":d.bool(),"axis":d.int(0,1),"a":d.float(-10,10),"b":d.float(0,1),"lats":[[d.float(-12,12),d.float(-9,9)] for _ in range(3)],"seed":d.seed()}
@prop.law(gen_cyc, quick=600, rule="more than one sample")
def cyclic(c, t):
	P, r = c["period"], rng(c["seed"]); t.mark_trivial(c["n"]==1)
	a = r.uniform(-3,3,size=(c["shape"],c["n"]))*P; ref = c["ref"]*P
	w = utils.rewind(a,ref=ref,period=P); k = (w-a)/P; t.close(k,np.round(k),"rewind moves by whole periods",atol=1e-9); t.true((w>=ref-P/2-1e-9*P)&(w<=ref+P/2+1e-9*P),"rewind range")
	if c["auto"]: w2 = utils.rewind(a,ref="auto",period=P); k = (w2-a)/P; t.close(k,np.round(k),"rewind auto moves by whole periods",atol=1e-9); t.true(np.ptp(w2)<=P*(1+1e-9),"rewind auto range")
	# unwind a smooth curve that has been wrapped
	smooth = np.cumsum(r.uniform(-.45,.45,size=(c["shape"],c["n"])),-1)*P+c["a"]*P
	off = np.round(r.uniform(-3,3,size=smooth.shape)); x = smooth+off*P; ax = c["axis"]
	if ax == 0: x = x.T
	keep = x.copy(); u = utils.unwind(x,period=P,axes=[-1 if ax else 0],ref=ref,refmode=c["mode"]); t.eq(x,keep,"unwind modifies its input")
	if ax == 0: u = u.T
	d = (u-smooth)/P; t.close(d,np.round(d),"unwind moves by whole periods",atol=1e-8); t.true(np.abs(d-d[:,:1])<1e-8,"unwind restores the continuous curve")
	i = 0 if c["mode"]=="left" else c["n"]//2; t.true((u[:,i]>=ref-P/2-1e-9*P)&(u[:,i]<=ref+P/2+1e-9*P),"unwind keeps the reference sample")
	if c["nan"]:
		y = (x.T if ax == 0 else x).copy(); bad = r.uniform(size=y.shape)<.3; y[bad] = np.nan; z = utils.unwind(y,period=P,ref=ref,mask_nan=True); t.eq(np.isnan(z),bad,"unwind keeps NaNs"); q = ((z-y)/P)[~bad]; t.close(q,np.round(q),"unwind with NaNs",atol=1e-8)
	ra = c["a"]; rb = ra+c["b"]*P; val = r.uniform(-3,3,size=9)*P; inside = utils.between_angles(val,[ra,rb],period=P); x = (val-ra)%P; edge = (np.abs(x)<1e-6)|(np.abs(x-P)<1e-6)|(np.abs(x-c["b"]*P)<1e-6); t.eq(inside[~edge],(x<c["b"]*P)[~edge],"between_angles")
	L = np.array(c["lats"]).T; o = utils.pole_wrap(L); t.true(np.abs(o[0])<=np.pi/2+1e-9,"pole_wrap range"); t.close(vec(o[1],o[0]),vec(L[1],L[0]),"pole_wrap keeps the point",atol=1e-9)
	inr = np.abs(L[0])<np.pi/2-1e-9; t.close(o[:,inr],L[:,inr],"pole_wrap leaves normal coordinates alone",atol=1e-12)
	l = np.abs(val)+.1; t.close(utils.ang2l(utils.l2ang(l)),l,"ang2l and l2ang",rtol=1e-9)

def gen_match(d): return {"n1":d.int(0,40),"n2":d.int(0,40),"rmax":d.logfloat(.02,3.),"coords":d.choice(["auto","radec","phitheta","cartesian"]),"nd":d.choice([2,3]),"mode":d.choice(["all","closest","first"]),"cluster":d.bool(),"seed":d.seed()}
@prop.law(gen_match, quick=300, rule="at least one pair matches")
def crossmatch(c, t):
	r = rng(c["seed"]); co = c["coords"]; nd = c["nd"] if co in ["auto","cartesian"] else 2; eff = ("radec" if nd==2 else "cartesian") if co=="auto" else co
	def pts(n):
		if eff == "cartesian": return r.standard_normal((n,nd))
		ph = r.uniform(-7,7,n)*(.05 if c["cluster"] else 1); th = np.arcsin(r.uniform(-1,1,n)) if not c["cluster"] else r.uniform(1.2,np.pi/2,n); return np.array([ph,th if eff=="radec" else np.pi/2-th]).T
	p, q = pts(c["n1"]), pts(c["n2"])
	if eff == "cartesian": D = np.sqrt(np.sum((p[:,None]-q[None])**2,-1))
	else:
		f = lambda x: vec(x[:,0],x[:,1] if eff=="radec" else np.pi/2-x[:,1]); a,b = f(p),f(q); D = vdist(a[:,:,None],b[:,None,:])
	rm = c["rmax"]
	while np.any(np.abs(D-rm)<1e-9): rm *= 1.0001
	res = utils.crossmatch(p,q,rm,mode=c["mode"],coords=co); res = [tuple(int(v) for v in x) for x in res]
	al = [(i,j) for i in range(len(p)) for j in range(len(q)) if D[i,j]<rm]; t.mark_trivial(not al); t.label(c["mode"])
	if c["mode"] == "all": t.true(len(res)==len(al) and set(res)==set(al),"all pairs within the radius")
	else:
		order = al if c["mode"]=="first" else sorted(al,key=lambda x:D[x]); d1,d2,want = set(),set(),[]
		for i,j in order:
			if i in d1 or j in d2: continue
			d1.add(i); d2.add(j); want.append((i,j))
		t.true(set(res)==set(want) and len(res)==len(want),"crossmatch mode %s" % c["mode"])

def gen_poly(d): return {"nv":d.int(3,7),"lattice":d.bool(),"star":d.bool(),"shape":d.choice([[],[5],[2,3],[3,2]]),"many":d.bool(),"near":d.bool(),"scale":d.choice([1,1,.1,.01,.001]),"seed":d.seed()}
@prop.law(gen_poly, quick=300, rule="some points inside and some outside")
def polygons(c, t):
	r = rng(c["seed"]); nv = c["nv"]; ang = np.sort(r.uniform(0,2*np.pi,nv)); rad = r.uniform(1,5,nv) if c["star"] else np.full(nv,4.); poly = np.array([rad*np.cos(ang),rad*np.sin(ang)]).T
	P = r.uniform(-4,4,size=c["shape"]+[2])
	if c["lattice"]: poly, P = np.round(poly), np.round(P)
	def edge(p):
		m = np.inf
		for i in range(nv):
			a,b = poly[i-1],poly[i]; e = b-a; L = e@e; s = np.clip((p-a)@e/L,0,1) if L>0 else 0; m = min(m,np.hypot(*(p-a-s*e)))
		return m
	def wind(p): # winding number parity from the summed angle
		v = poly-p; a = np.arctan2(v[:,1],v[:,0]); d = np.diff(np.concatenate([a,a[:1]])); d = (d+np.pi)%(2*np.pi)-np.pi; return int(np.round(np.sum(d)/(2*np.pi)))
	fp = P.reshape(-1,2); ok = np.array([edge(p)>1e-9 for p in fp]); want = np.array([wind(p)%2==1 for p in fp])
	got = utils.point_in_polygon(P,poly if not c["many"] else np.broadcast_to(poly,tuple(c["shape"])+(nv,2))); t.true(np.shape(got)==tuple(c["shape"]),"point_in_polygon shape %s for points %s" % (np.shape(got),c["shape"]))
	got = np.asarray(got).reshape(-1); t.mark_trivial(len(set(want.tolist()))<2); t.eq(got[ok],want[ok],"point_in_polygon %s in %s" % (fp.tolist(),poly.tolist()))
	# distance to the edges on the sphere
	sc = c["scale"]; mid = np.array([r.uniform(0,6),r.uniform(-.5,.5)]); sp = mid+poly*[.2,.15]*sc; sp[:,1] = np.clip(sp[:,1],-1.5,1.5); keep = [i for i in range(nv) if np.sum((sp[i]-sp[i-1])**2)>1e-4*sc**2]
	if len(keep) >= 3:
		sp = sp[keep]; q = np.array([r.uniform(-7,7,size=c["shape"]),np.arcsin(r.uniform(-1,1,size=c["shape"]))]); q = np.moveaxis(q,0,-1)
		if c["near"]: q = mid+r.uniform(-9,9,size=c["shape"]+[2])*[.2,.15]*sc; q[...,1] = np.clip(q[...,1],-1.57,1.57)
		got = np.asarray(utils.poly_edge_dist(q,sp)).reshape(-1); V = vec(sp[:,0],sp[:,1]).T; Q = vec(q[...,0].reshape(-1),q[...,1].reshape(-1)); Q = Q.reshape(3,-1).T; m = np.full(len(Q),np.inf)
		for i in range(len(V)):
			a,b = V[i-1],V[i]; n = np.cross(a,b); n /= np.sum(n**2)**.5; inside = (Q@np.cross(n,a)>=0)&(Q@np.cross(b,n)>=0)
			m = np.minimum(m,np.where(inside,np.abs(np.arcsin(np.clip(Q@n,-1,1))),np.minimum(vdist(Q.T,a[:,None]),vdist(Q.T,b[:,None]))))
		t.close(got,m,"poly_edge_dist from %s to %s" % (q.tolist(),sp.tolist()),atol=1e-7)

def gen_tele(d): return {"p":gen_pts(d,4),"b":gen_pts(d,4),"one":d.bool(),"from":d.choice(["bore","tele","hor"]),"to":d.choice(["bore","tele","hor","altaz","azel"])}
@prop.law(gen_tele, quick=200, rule="the systems differ")
def telescope(c, t):
	p, b = np.array(c["p"]).T, np.array(c["b"]).T; t.mark_trivial(c["from"][0]==c["to"][0])
	if c["one"]: b = b[:,:1]
	o = coordinates.transform(c["from"],c["to"],p,bore=b); back = coordinates.transform(c["to"],c["from"],o,bore=b); t.close(vec(*back),vec(*p),"transform %s -> %s and back" % (c["from"],c["to"]),atol=1e-9)
	if c["from"] == "tele" and c["to"] == "bore":
		z = coordinates.transform("tele","bore",b,bore=b); t.close(z[1],np.full(b.shape[1],np.pi/2),"the boresight is at the zenith of boresight coordinates",atol=1e-7)
		t.close(vdist(vec(*p),vec(*b)),np.pi/2-o[1],"elevation in boresight coordinates is 90 degrees minus the distance",atol=1e-7)
	if c["from"] == "hor" and c["to"] == "tele":
		s = coordinates.default_site; az,ti = s.base_az*np.pi/180,s.base_tilt*np.pi/180; M = Rotation.from_euler("ZYZ",[az,-ti,-az]).as_matrix(); t.close(vec(*o),M@vec(*p),"tilt of the telescope base",atol=1e-9)
