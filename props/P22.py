import numpy as np, os
from harness.core import Prop, rng
from harness import geo
from pixell import enmap, multimap, utils, wcsutils
prop = Prop("P22", assumptions=["slicing is along the non-pixel axes; slices along the flattened pixel axis are plain data"])

def gen_maps(d, nmin=1, pre=None, real=True, square=False):
	return {"geos":[geo.gen_any(d,2,7) for _ in range(d.int(nmin,3))],"pre":d.choice([[],[],[2],[3],[2,2]]) if pre is None else pre,"dtype":d.choice(["float64","float64","float32"]+([] if real else ["complex128","int32"])),"seed":d.seed()}
def maps_of(c):
	r = rng(c["seed"]); out = []
	for g in c["geos"]:
		s,w = geo.build(g); a = r.standard_normal(c["pre"]+list(s))*10
		if c["dtype"] == "complex128": a = a+1j*r.standard_normal(a.shape)
		out.append(enmap.ndmap(a.astype(c["dtype"]),w))
	return out
def same(t, mm, ref, msg, rtol=1e-10, dtype=True):
	"""mm is the multimap of the list ref"""
	t.true(isinstance(mm,multimap.ndmaps),msg+": not a multimap"); t.true(mm.nmap==len(ref)==len(mm.maps)==len(mm.geometries),msg+": number of maps")
	off = 0
	for i,r in enumerate(ref):
		v = mm.maps[i]; t.true(v.shape==r.shape,msg+": shape %s of map %d should be %s" % (v.shape,i,r.shape)); t.close(np.asarray(v),np.asarray(r),msg+": map %d" % i,rtol=rtol,atol=1e-12)
		t.true(wcsutils.equal(v.wcs,r.wcs,tol=1e-9),msg+": wcs of map %d" % i); n = r.shape[-2]*r.shape[-1]
		t.eq(np.asarray(mm)[...,off:off+n].reshape(r.shape),np.asarray(v),msg+": flat storage"); off += n
		if dtype: t.true(mm.dtype==r.dtype,msg+": dtype %s instead of %s" % (mm.dtype,r.dtype))
	t.true(mm.shape[-1]==off and (not ref or tuple(mm.pre)==ref[0].shape[:-2]),msg+": total shape"); t.true([int(x) for x in mm.npixs]==[r.shape[-2]*r.shape[-1] for r in ref] and int(mm.ntot)==off,msg+": npixs and ntot")

def gen_build(d): c = gen_maps(d,0,real=False); c.update(val=d.int(-4,4),i=d.int(0,5),k=d.int(0,5)); return c
@prop.law(gen_build, quick=300, rule="more than one map")
def build(c, t):
	ms = maps_of(c); t.mark_trivial(len(ms)<2); mm = multimap.multimap(ms); r = rng(c["seed"]+1)
	if not ms:
		for f in [lambda: mm,lambda: multimap.zeros([]),lambda: multimap.empty([]),lambda: multimap.full([],1)]: t.true(f().nmap==0 and f().size==0,"empty multimap")
		return
	same(t,mm,ms,"multimap"); keep = [np.array(m) for m in ms]; same(t,mm.copy(),ms,"copy"); same(t,mm.contig(),ms,"contig")
	cp = mm.copy(); cp[:] = 0; same(t,mm,ms,"original after changing a copy")
	geos = [m.geometry for m in ms]; dt = c["dtype"]
	same(t,multimap.zeros(geos,dtype=dt),[m*0 for m in ms],"zeros"); e = multimap.empty(geos,dtype=dt); e[:] = 0; same(t,e,[m*0 for m in ms],"empty")
	same(t,multimap.full(geos,c["val"],dtype=dt),[m*0+m.dtype.type(c["val"]) for m in ms],"full")
	v = r.integers(-5,5,size=c["pre"]+[len(ms)]); same(t,multimap.full(geos,v),[enmap.ndmap(np.broadcast_to(v[...,i,None,None],m.shape),m.wcs) for i,m in enumerate(ms)],"full with one value per map")
	v = r.standard_normal(len(ms)); same(t,multimap.full(geos,v,dtype="float32"),[enmap.ndmap(np.broadcast_to(v[i],m.shape).astype("float32"),m.wcs) for i,m in enumerate(ms)],"full with one value per map",rtol=1e-6)
	# views
	i = c["i"]%len(ms); mm.maps[i] = 3; ms[i][:] = 3; same(t,mm,ms,"assigning a map"); mm.maps[i,...,0] = 7; ms[i][...,0] = 7; same(t,mm,ms,"assigning part of a map"); mm.maps[i][...,0,:] = 2; ms[i][...,0,:] = 2; same(t,mm,ms,"maps are views")
	j = i-len(ms); t.eq(np.asarray(mm.maps[j]),np.asarray(ms[i]),"maps counted from the end"); t.true(wcsutils.equal(mm.maps[j].wcs,ms[i].wcs),"wcs of maps counted from the end"); mm.maps[j,...,-1] = 4; ms[i][...,-1] = 4; same(t,mm,ms,"assigning to a map counted from the end"); t.raises(IndexError,lambda: mm.maps[len(ms)],"a map that does not exist")
	new = (r.standard_normal(ms[i].shape)*5).astype(dt); mm.maps[i] = new; ms[i][:] = new; same(t,mm,ms,"assigning an array")
	t.eq(np.asarray(mm.maps[i,...,1:,:1]),np.asarray(ms[i][...,1:,:1]),"slicing a map view"); s = mm.maps[i,...,1:,:1]; t.true(wcsutils.equal(s.wcs,ms[i][...,1:,:1].wcs),"wcs of a sliced view")
	for a,b in zip(mm.maps,ms): t.eq(np.asarray(a),np.asarray(b),"iterating over the maps")
	if c["pre"]:
		k = c["k"]%c["pre"][0]; same(t,mm[k],[m[k] for m in ms],"slicing a component"); same(t,mm[k:],[m[k:] for m in ms],"slicing components"); same(t,mm[::-1],[m[::-1] for m in ms],"reversing components"); mm[k] = 1
		for m in ms: m[k] = 1
		same(t,mm,ms,"assigning a component")
	t.raises(ValueError,lambda: multimap.multimap([ms[0],enmap.zeros((9,)+ms[0].shape,ms[0].wcs)]),"incompatible maps")
	same(t,multimap.samegeos(np.array(mm),mm),ms,"samegeos"); t.true(all(len(g.shape)==2 for g in multimap.nopre(geos)),"nopre")

def gen_arith(d): c = gen_maps(d); c.update(op=d.choice(["add","sub","mul","div","gt","cos","abs","neg","pow","iadd","imul","rsub","where","scalar","map_mul","rotpol"]),v=d.choice([2,-3,.5]),seed2=d.seed(),n=d.int(1,3)); return c
@prop.law(gen_arith, quick=400, rule="more than one map")
def arithmetic(c, t):
	a = maps_of(c); b = maps_of({**c,"seed":c["seed2"]}); A,B = multimap.multimap(a),multimap.multimap(b); op = c["op"]; v = c["v"]; t.mark_trivial(len(a)<2); t.label(op); rt = 1e-5 if c["dtype"]=="float32" else 1e-11
	f = {"add":lambda x,y:x+y,"sub":lambda x,y:x-y,"mul":lambda x,y:x*y,"div":lambda x,y:x/(y*y+1),"gt":lambda x,y:x>y,"cos":lambda x,y:np.cos(x),"abs":lambda x,y:np.abs(x),"neg":lambda x,y:-x,"pow":lambda x,y:abs(x)**1.5,"rsub":lambda x,y:v-x,"scalar":lambda x,y:x*v+1,"where":lambda x,y:np.maximum(x,y)}
	if op in f: same(t,f[op](A,B),[f[op](x,y) for x,y in zip(a,b)],op,rtol=rt); same(t,A,a,"operand after "+op)
	elif op == "iadd": A += B; same(t,A,[x+y for x,y in zip(a,b)],op,rtol=rt)
	elif op == "imul": A *= v; same(t,A,[x*v for x in a],op,rtol=rt)
	elif op == "map_mul":
		r = rng(c["seed2"]); n = c["n"]; M = [enmap.ndmap(r.standard_normal(c["pre"][:1]+[n,n]+list(x.shape[-2:])),x.wcs) for x in a]; V = [enmap.ndmap(r.standard_normal(c["pre"][:1]+[n]+list(x.shape[-2:])),x.wcs) for x in a]
		same(t,multimap.map_mul(multimap.multimap(M),multimap.multimap(V)),[enmap.map_mul(m,x) for m,x in zip(M,V)],op)
	elif op == "rotpol" and c["pre"] and c["pre"][-1] > 1: same(t,multimap.rotate_pol(A,v),[enmap.rotate_pol(x,v) for x in a],op,rtol=rt); same(t,A,a,"operand after rotate_pol")
	for name in ["mean","median","max","min","var","std"]: t.close(getattr(multimap,name)(A),np.array([getattr(np,name)(np.asarray(x),axis=(-2,-1)) for x in ([x for x in A.maps])]),name,rtol=1e-4 if rt>1e-8 else 1e-10)

def gen_coord(d): c = gen_maps(d); c.update(which=d.choice(["posmap","pixmap","pixsize","pixsizemap","lmap","modlmap","modrmap","queb"]),method=d.bool(),dtype2=d.choice(["float64","float32"]),corner=d.bool(),safe=d.bool(),iau=d.bool(),inv=d.bool(),spin=d.int(0,3)); return c
@prop.law(gen_coord, quick=300, rule="more than one map")
def coords(c, t):
	a = maps_of(c); A = multimap.multimap(a); t.mark_trivial(len(a)<2); w = c["which"]; t.label(w); geos = [enmap.Geometry(*x.geometry).nopre for x in a]; dt = c["dtype2"]; rt = 1e-5 if dt=="float32" else 1e-11
	if w == "queb": L = [enmap.lmap(*g) for g in geos]; return same(t,multimap.queb_rotmat(multimap.multimap(L),inverse=c["inv"],iau=c["iau"],spin=c["spin"]),[enmap.queb_rotmat(l,inverse=c["inv"],iau=c["iau"],spin=c["spin"]) for l in L],w)
	kw = {"posmap":{"safe":c["safe"],"corner":c["corner"]},"modrmap":{"safe":c["safe"],"corner":c["corner"],**({"ref":[[.05,.02],"center"][c["spin"]-1]} if c["spin"] in (1,2) else {})},"lmap":{"oversample":max(c["spin"],1)} if min(min(x.shape[-2:]) for x in a) >= 3 else {},"modlmap":{"oversample":max(c["spin"],1)} if min(min(x.shape[-2:]) for x in a) >= 3 else {}}.get(w,{})
	if w == "pixsizemap": got = multimap.pixsizemap(geos,dtype=dt)
	elif c["method"]: got = getattr(A,w)(dtype=dt,**kw)
	else: got = getattr(multimap,w)(geos,dtype=dt,**kw)
	ref = [getattr(enmap,w)(g.shape,g.wcs,**kw) for g in geos]
	if w == "pixsize": t.close(got,np.array(ref),w,rtol=rt)
	else: same(t,got,[enmap.ndmap(np.asarray(x).astype(dt),x.wcs) for x in ref],w,rtol=rt)

def gen_harm(d): c = gen_maps(d,pre=d.choice([[],[1],[2],[3],[2,3]])); c.update(f=d.choice(["fft","ifft","dct","idct","fft_adjoint","ifft_adjoint","dct_adjoint","idct_adjoint","map2harm","harm2map","map2harm_adjoint","harm2map_adjoint"]),norm=d.choice([True,False,"phys"]),spin=d.choice([[0],[0,2],[0,1],[2]]),iau=d.bool(),keep=d.bool(),omap=d.bool()); return c
@prop.law(gen_harm, quick=400, rule="more than one map")
def harmonic(c, t):
	a = maps_of(c); f = c["f"]; t.mark_trivial(len(a)<2); t.label(f); rt = 1e-4 if c["dtype"]=="float32" else 1e-10; kw = {"normalize":c["norm"]}; nc = (c["pre"] or [1])[-1]
	if "harm" in f:
		if not c["pre"] : kw["spin"] = [0]
		else: kw["spin"] = {1:[0],2:[2],3:[0,2]}[nc] if c["spin"] != [0] else [0]
		kw["iau"] = c["iau"]
	if f in ["ifft","fft_adjoint","harm2map","map2harm_adjoint"]: a = [enmap.fft(x)*(1+.3j) for x in a]
	if f in ["harm2map","map2harm_adjoint"]: kw["keep_imag"] = c["keep"]
	A = multimap.multimap(a); keep = A.copy(); got = getattr(multimap,f)(A,**kw)
	ref = [getattr(enmap,f)(x,**kw) for x in a]
	same(t,got,ref,f,rtol=rt); t.eq(np.asarray(A),np.asarray(keep),f+" modifies its input")
	if c["omap"] and f in ["fft","ifft"]: o = got*0; g2 = getattr(multimap,f)(A,omap=o,**kw); same(t,g2,ref,f+" with omap",rtol=rt); same(t,o,ref,f+" fills omap",rtol=rt)

def gen_io(d): c = gen_maps(d,real=False); c["dtype"] = d.choice(["float64","float32","int32"]); c.update(sel=d.bool(),k=d.int(0,5)); return c
@prop.law(gen_io, quick=120, rule="more than one map")
def io(c, t):
	a = maps_of(c); A = multimap.multimap(a); t.mark_trivial(len(a)<2); f = os.path.join(t.tmpdir,"mm.fits"); multimap.write_map(f,A,extra={"MYKEY":17})
	same(t,multimap.read_map(f),a,"read_map",rtol=0)
	import astropy.io.fits
	with astropy.io.fits.open(f) as hd: t.true(len(hd)==len(a) and all(h.header.get("MYKEY")==17 for h in hd),"extra header keys")
	for i,x in enumerate(a): y = enmap.read_map(f,hdu=i); t.eq(np.asarray(y),np.asarray(x),"map %d read alone" % i)
	if c["pre"]: k = c["k"]%c["pre"][0]; same(t,multimap.read_map(f,sel=(k,)),[x[k] for x in a],"read_map with sel",rtol=0)
	same(t,multimap.read_map(f,sel=(Ellipsis,slice(0,1),slice(None,None,1))),[x[...,:1,:] for x in a],"read_map of a subset",rtol=0); same(t,A,a,"map after writing")

def gen_pol(d): c = gen_maps(d,pre=d.choice([[2],[3],[2,3],[4]])); c.update(ang=d.float(-4,4),comps=d.choice([None,None,[0,1],[-1,0]]),inv=d.bool(),iau=d.bool(),spin=d.choice([1,2,2]),per=d.bool()); return c
@prop.law(gen_pol, quick=200, rule="more than one map")
def polarization(c, t):
	"""Polarization rotation, the E/B rotation matrix and the default harmonic transforms act map by map"""
	a = maps_of(c); A = multimap.multimap(a); t.mark_trivial(len(a)<2); rt = 1e-4 if c["dtype"]=="float32" else 1e-10; kw = {} if c["comps"] is None else {"comps":c["comps"]}; keep = A.copy(); i, j = c["comps"] or [-2,-1]; cs, sn = np.cos(2*c["ang"]), np.sin(2*c["ang"]); ref = []
	for x in a:
		y = np.array(x); p, q = np.array(y[...,i,:,:]), np.array(y[...,j,:,:]); y[...,i,:,:] = cs*p-sn*q; y[...,j,:,:] = sn*p+cs*q; ref.append(enmap.ndmap(y,x.wcs))
	same(t,multimap.rotate_pol(A,c["ang"],**kw),ref,"rotate_pol",rtol=rt*10); t.eq(np.asarray(A),np.asarray(keep),"rotate_pol modifies its input")
	geos = A.geometries; L = multimap.lmap(geos); R = [enmap.queb_rotmat(enmap.lmap(x.shape,x.wcs),inverse=c["inv"],iau=c["iau"],spin=c["spin"]) for x in a]; same(t,multimap.queb_rotmat(L,inverse=c["inv"],iau=c["iau"],spin=c["spin"]),[enmap.ndmap(np.asarray(r_),x.wcs) for r_,x in zip(R,a)],"queb_rotmat",rtol=1e-10)
	if c["pre"][-1] == 3:
		same(t,multimap.map2harm(A),[enmap.map2harm(x) for x in a],"map2harm",rtol=rt); F = multimap.fft(A); same(t,multimap.harm2map(F),[enmap.harm2map(x) for x in F.maps],"harm2map",rtol=rt); same(t,multimap.map2harm_adjoint(F),[enmap.map2harm_adjoint(x) for x in F.maps],"map2harm_adjoint",rtol=rt); same(t,multimap.harm2map_adjoint(A),[enmap.harm2map_adjoint(x) for x in a],"harm2map_adjoint",rtol=rt)
	if not np.iscomplexobj(A):
		for f in ["fft","dct","idct","ifft_adjoint","dct_adjoint","idct_adjoint"]: same(t,getattr(multimap,f)(A),[getattr(enmap,f)(x) for x in a],f+" by default",rtol=rt)
	n = np.arange(A.npix if hasattr(A,"npix") else A.shape[-1]); s = multimap.samegeos(n.astype(float),A); o = 0
	for x, m in zip(s.maps,a): k = m.shape[-2]*m.shape[-1]; t.eq(np.asarray(x).reshape(-1),n[o:o+k],"samegeos"); o += k
	t.true(multimap.samegeos(n,3) is n,"samegeos without maps"); p = A.posmap(); same(t,p,[enmap.posmap(x.shape,x.wcs) for x in a],"posmap",rtol=1e-9)
