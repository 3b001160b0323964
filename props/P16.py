import numpy as np
from harness.core import Prop, rng
from harness import geo, sht
from pixell import enmap, curvedsky, utils
prop = Prop("P16", assumptions=["coefficients are stored with stride 1, except for lm2ind and transfer_alm, which support any stride", "the m=0 coefficients are real, as for any real field"])

def gen_lay(d, lmax=None):
	lmax = d.int(0,9) if lmax is None else lmax
	mmax = lmax if d.bool() else d.int(0,lmax)
	return {"lmax":lmax,"mmax":mmax,"layout":d.choice(["tri","tri","rect","own"]),"stride":1,"off":d.int(0,3)}
def ainfo_of(a):
	"""-> alm_info, dict (l,m)->index"""
	L, M, s = a["lmax"], a["mmax"], a["stride"]
	if a["layout"] == "tri":
		ms = [s*(m*(2*L+1-m)//2) for m in range(M+1)]; info = curvedsky.alm_info(lmax=L,mmax=M,stride=s)
	elif a["layout"] == "rect":
		ms = [s*m*(L+1) for m in range(M+1)]; info = curvedsky.alm_info(lmax=L,mmax=M,stride=s,layout="rectangular")
	else: # gaps between the m-blocks
		ms = [s*(m*(L+1)+m*a["off"]) for m in range(M+1)]; info = curvedsky.alm_info(lmax=L,mmax=M,stride=s,layout=np.array(ms))
	return info, {(l,m):ms[m]+l*s for m in range(M+1) for l in range(m,L+1)}
def cgauss(r, shape, dtype="complex128"): return (r.standard_normal(shape)+1j*r.standard_normal(shape)).astype(dtype)
def real0(a, ind):
	for (l,m),i in ind.items():
		if m == 0: a[...,i] = a[...,i].real
	return a

def gen_info(d):
	a = gen_lay(d); a["stride"] = d.choice([1,1,2,3]); return {"a":a,"big":d.int(0,60000),"seed":d.seed()}
@prop.law(gen_info, quick=600, rule="lmax > 0")
def index(c, t):
	info, ind = ainfo_of(c["a"]); a = c["a"]; t.mark_trivial(a["lmax"]==0); t.label(a["layout"])
	t.true((info.lmax,info.mmax,info.nl,info.nm)==(a["lmax"],a["mmax"],a["lmax"]+1,a["mmax"]+1),"lmax, mmax, nl and nm")
	L = np.array([k[0] for k in ind]); M = np.array([k[1] for k in ind]); I = np.array([ind[k] for k in ind])
	t.eq(info.lm2ind(L,M),I,"lm2ind"); t.true(int(info.lm2ind(L[-1],M[-1]))==I[-1],"scalar lm2ind")
	t.true(len(set(I.tolist()))==len(I),"indices are distinct"); t.true(info.nelem > I.max(),"nelem covers all the elements")
	if a["layout"] == "tri" and a["stride"] == 1:
		t.eq(I,np.arange(len(I)),"triangular order"); t.true(info.nelem==len(I),"triangular nelem")
	l = c["big"]; n = (l+1)*(l+2)//2
	t.true(curvedsky.nalm2lmax(n)==l,"nalm2lmax(%d)" % n); i2 = curvedsky.alm_info(nalm=n) if l < 3000 else None
	if i2 is not None: t.true(i2.lmax==l and i2.mmax==l and i2.nelem==n,"alm_info(nalm)")

def gen_lmul(d):
	return {"a":gen_lay(d),"pre":geo.gen_pre(d,2,3),"fpre":d.choice(["none","same","first","extra","ones"]),"nf":d.int(-3,4),"dtype":d.choice(["complex128","complex64"]),"out":d.choice(["none","new","self","view"]),"api":d.choice(["lmul","almxfl","call"]),"seed":d.seed()}
@prop.law(gen_lmul, quick=700, rule="lmax > 0")
def filtering(c, t):
	"""res[...,lm] = f[...,l] alm[...,lm]; f is zero beyond its end"""
	info, ind = ainfo_of(c["a"]); r = rng(c); t.mark_trivial(c["a"]["lmax"]==0); pre = tuple(c["pre"]); L = c["a"]["lmax"]
	a = cgauss(r,pre+(info.nelem,),c["dtype"]); nf = max(1,L+1+c["nf"])
	fp = {"none":(),"same":pre,"first":pre[1:],"extra":(2,)+pre,"ones":(1,)*len(pre)}[c["fpre"]]
	if len(fp) == 2 and len(pre) == 1: fp = pre # would be a matrix product
	api = c["api"]
	if api == "call": fp = (); nf = L+1
	f = r.standard_normal(fp+(nf,)); rt = a.real.dtype
	fun = (lambda l: np.cos(l*0.3)+0.1*l)
	if api == "call": f = fun(np.arange(L+1.))
	opre = np.broadcast_shapes(pre,fp); keep, fkeep = a.copy(), f.copy()
	out = None
	if c["out"] == "new": out = np.zeros(opre+(info.nelem,),c["dtype"])
	elif c["out"] == "view": out = np.zeros(opre[:-1]+(2*opre[-1] if opre else 1,info.nelem),c["dtype"]); out = out[...,::2,:] if opre else out[0]
	elif c["out"] == "self" and opre == pre: out = a
	arg = fun if api=="call" else f
	if api == "lmul": res = info.lmul(a,f,out=out)
	else: res = curvedsky.almxfl(a,arg,ainfo=info,out=out)
	t.label(api,c["out"])
	if out is not None: t.eq(out,res,"out argument holds the result")
	if out is not a: t.eq(a,keep,"alm modified")
	t.eq(f,fkeep,"filter modified")
	t.true(res.shape==opre+(info.nelem,) and res.dtype==np.dtype(c["dtype"]),"shape and dtype")
	F = np.zeros(fp+(L+1,)); n = min(nf,L+1); F[...,:n] = f[...,:n]
	for (l,m),i in ind.items():
		t.close(res[...,i],np.broadcast_to(keep[...,i]*F[...,l],opre),"element l=%d m=%d" % (l,m),rtol=1e-6 if c["dtype"]=="complex64" else 1e-13,atol=1e-12)
	if api == "almxfl" and c["a"]["layout"] == "tri" and c["a"]["mmax"] == L: t.eq(curvedsky.almxfl(keep,f),res,"almxfl without ainfo")

def gen_mat(d):
	a = gen_lay(d); return {"a":a,"N":d.int(1,4),"M":d.int(1,4),"nf":d.int(-3,5),"dtype":d.choice(["complex128","complex64"]),"out":d.choice(["none","new","self"]),"api":d.choice(["lmul","almxfl"]),"seed":d.seed()}
@prop.law(gen_mat, quick=600, rule="a matrix larger than 1x1 and lmax > 0")
def matrix(c, t):
	"""res[a,lm] = lmat[a,b,l] alm[b,lm]"""
	info, ind = ainfo_of(c["a"]); r = rng(c); N, M, L = c["N"], c["M"], c["a"]["lmax"]; t.mark_trivial(L==0 or N*M==1)
	if c["out"] == "self": N = M
	# guard elements around the array show writes outside of it
	guard = 40; buf = cgauss(r,(M,info.nelem+2*guard),c["dtype"]); a = buf[:,guard:guard+info.nelem]; keep = a.copy(); gkeep = buf.copy()
	nf = max(1,L+1+c["nf"]); f = r.standard_normal((N,M,nf)); obuf = np.full((N,info.nelem+2*guard),5+0j).astype(c["dtype"])
	out = {"none":None,"new":obuf[:,guard:guard+info.nelem],"self":a}[c["out"]]
	if c["api"] == "lmul": res = info.lmul(a,f,out=out)
	else: res = curvedsky.almxfl(a,f,ainfo=info,out=out)
	if out is not None: t.eq(out,res,"out argument holds the result")
	for b, ref in [(buf,gkeep),(obuf,np.full(obuf.shape,5+0j))]:
		t.eq(b[:,:guard],ref[:,:guard].astype(b.dtype),"memory before the array"); t.eq(b[:,-guard:],ref[:,-guard:].astype(b.dtype),"memory after the array")
	if c["out"] != "self": t.eq(a,keep,"alm modified")
	F = np.zeros((N,M,L+1)); n = min(nf,L+1); F[...,:n] = f[...,:n]
	for (l,m),i in ind.items(): t.close(res[:,i],F[:,:,l]@keep[:,i],"element l=%d m=%d" % (l,m),rtol=3e-6 if c["dtype"]=="complex64" else 1e-12,atol=1e-5 if c["dtype"]=="complex64" else 1e-12)

def gen_cl(d): return {"a":gen_lay(d),"kind":d.choice(["auto","cross","matrix","crossmatrix","bcast"]),"n":d.int(1,3),"k":d.int(1,3),"dtype":d.choice(["complex128","complex64"]),"mixed":d.bool(),"api":d.bool(),"seed":d.seed()}
@prop.law(gen_cl, quick=700, rule="lmax > 0")
def spectra(c, t):
	info, ind = ainfo_of(c["a"]); r = rng(c); L, M = c["a"]["lmax"], c["a"]["mmax"]; t.mark_trivial(L==0); n, k = c["n"], c["k"]
	mk = lambda sh: real0(cgauss(r,sh+(info.nelem,),c["dtype"]),ind)
	if   c["kind"] == "auto":   A = mk((n,k)); a, b = A, None
	elif c["kind"] == "cross":  a, b = mk((n,)), mk((n,))
	elif c["kind"] == "matrix": A = mk((n,)); a, b = A[:,None], A[None]
	elif c["kind"] == "crossmatrix": a, b = mk((n,))[:,None], mk((k,))[None]
	else: a, b = mk(()), mk((k,n))
	if b is not None and c["mixed"] and c["kind"] != "matrix": b = b.astype("complex64")
	cl = curvedsky.alm2cl(a,b,ainfo=info) if c["api"] else info.alm2cl(a,b)
	B = a if b is None else b; t.label(c["kind"])
	sh = np.broadcast_shapes(a.shape[:-1],B.shape[:-1])
	t.true(cl.shape==sh+(L+1,),"shape %s" % (cl.shape,)); t.true(cl.dtype==np.result_type(a,B).type(0).real.dtype,"dtype")
	ref = np.zeros(sh+(L+1,)); sc = np.zeros(L+1)
	for (l,m),i in ind.items():
		v = np.real(a[...,i].astype(complex)*np.conj(B[...,i])); ref[...,l] += v if m==0 else 2*v
	ref /= 2*np.arange(L+1)+1.
	t.close(cl,ref,"alm2cl",rtol=1e-5 if "complex64" in [str(a.dtype),str(B.dtype)] else 1e-12,scale=1+np.max(np.abs(ref)))
	if c["a"]["layout"] == "tri" and M == L: t.close(curvedsky.alm2cl(a,b),cl,"alm2cl without ainfo",rtol=1e-5 if np.asarray(cl).dtype==np.float32 else 1e-12)

def gen_tr(d): return {"a":gen_lay(d),"pre":geo.gen_pre(d,2,3),"dtype":d.choice(["complex128","complex64"]),"out":d.choice(["none","new","self"]),"seed":d.seed()}
@prop.law(gen_tr, quick=400, rule="lmax > 0")
def transpose(c, t):
	"""The k'th number in storage order becomes the k'th (l,m) pair in l-major order"""
	info, ind = ainfo_of(c["a"]); r = rng(c); t.mark_trivial(c["a"]["lmax"]==0); a = cgauss(r,tuple(c["pre"])+(info.nelem,),c["dtype"]); keep = a.copy()
	out = {"none":None,"new":np.zeros_like(a),"self":a}[c["out"]]
	res = info.transpose_alm(a,out)
	if out is not None: t.true(res is out or np.shares_memory(res,out),"out holds the result")
	if c["out"] != "self": t.eq(a,keep,"alm modified")
	mmaj = sorted(ind,key=lambda k:(k[1],k[0])); lmaj = sorted(ind)
	t.eq(res[...,[ind[k] for k in lmaj]],keep[...,[ind[k] for k in mmaj]],"transpose_alm")

def gen_xfer(d):
	a, b = gen_lay(d), gen_lay(d); a["stride"] = d.choice([1,1,2]); b["stride"] = d.choice([1,1,2]); return {"a":a,"b":b,"pre":geo.gen_pre(d,2,3),"dtype":d.choice(["complex128","complex64"]),"out":d.choice(["none","over","add"]),"seed":d.seed()}
@prop.law(gen_xfer, quick=500, rule="the two layouts differ")
def transfer(c, t):
	i1, d1 = ainfo_of(c["a"]); i2, d2 = ainfo_of(c["b"]); r = rng(c); pre = tuple(c["pre"]); t.mark_trivial(c["a"]==c["b"])
	a = cgauss(r,pre+(i1.nelem,),c["dtype"]); keep = a.copy()
	if c["out"] == "none": ref = np.zeros(pre+(i2.nelem,),c["dtype"]); res = curvedsky.transfer_alm(i1,a,i2)
	else:
		o = cgauss(r,pre+(i2.nelem,),c["dtype"]); ref = o.copy()
		if c["out"] == "over": res = curvedsky.transfer_alm(i1,a,i2,o)
		else: res = curvedsky.transfer_alm(i1,a,i2,o,op=lambda x,y:x+y)
		t.eq(o,res,"oalm holds the result")
	t.eq(a,keep,"ialm modified")
	for k in d1:
		if k in d2: ref[...,d2[k]] = a[...,d1[k]]+(ref[...,d2[k]] if c["out"]=="add" else 0)
	t.eq(res,ref,"transfer_alm")

def rotz(a): c, s = np.cos(a), np.sin(a); return np.array([[c,-s,0],[s,c,0],[0,0,1]])
def roty(a): c, s = np.cos(a), np.sin(a); return np.array([[c,0,s],[0,1,0],[-s,0,c]])
def gen_rot(d): return {"lmax":d.int(0,8),"ang":[d.float(-7,7,3) for _ in range(3)],"sys":d.choice([None,None,["gal","equ"],["equ","gal"]]),"pre":geo.gen_pre(d,2,2),"dtype":d.choice(["complex128","complex64"]),"inplace":d.bool(),"method":d.choice(["auto","ducc0","healpy"]),"seed":d.seed()}
@prop.law(gen_rot, quick=400, rule="lmax > 0")
def rotation(c, t):
	"""The field rotates with the zyz rotation"""
	r = rng(c); L = c["lmax"]; t.mark_trivial(L==0); psi, theta, phi = c["ang"] if c["sys"] is None else curvedsky.euler_angs[tuple(c["sys"])]
	dt = "complex128" if c["method"]=="healpy" else c["dtype"]
	a = sht.rand_alm(r,tuple(c["pre"]),L).astype(dt); keep = a.copy()
	res = curvedsky.rotate_alm(a,psi,theta,phi,method=c["method"],inplace=c["inplace"])
	t.true(res.dtype==a.dtype and res.shape==a.shape,"shape and dtype")
	if c["inplace"]: t.eq(a,res,"in place")
	else: t.eq(a,keep,"alm modified")
	x = r.standard_normal((3,7)); x /= np.sqrt(np.sum(x**2,0)); R = rotz(phi)@roty(theta)@rotz(psi); y = R@x
	pos = lambda v: np.array([np.arcsin(np.clip(v[2],-1,1)),np.arctan2(v[1],v[0])])
	for p, q in zip(keep.reshape(-1,a.shape[-1]),res.reshape(-1,a.shape[-1])):
		t.close(sht.synth(q[None],pos(y),L),sht.synth(p[None],pos(x),L),"rotated field",rtol=0,atol=(2e-4 if dt=="complex64" else 1e-8)*(1+np.max(np.abs(p))*(L+1)))
		t.close(sht.aprod(q,q,L),sht.aprod(p,p,L),"norm",rtol=1e-4 if dt=="complex64" else 1e-10)
	if c["sys"]:
		from astropy.coordinates import SkyCoord
		v = pos(x); f = {"gal":"galactic","equ":"icrs"}; s = SkyCoord(v[1],v[0],unit="rad",frame=f[c["sys"][0]]).transform_to(f[c["sys"][1]])
		w = np.array([s.dec.rad,s.ra.rad] if c["sys"][1]=="equ" else [s.b.rad,s.l.rad])
		t.close(geo.sky_dist(w,pos(y)),np.zeros(7),"euler_angs",atol=2e-5)

def gen_prof(d): return {"lmax":d.int(0,40),"pre":geo.gen_pre(d,2,2),"nr":d.int(1,12),"sig":d.float(0.03,0.3),"rmax":d.float(0.5,3.14159),"n":d.int(300,2000),"kind":d.choice(["gauss","band"]),"seed":d.seed()}
@prop.law(gen_prof, quick=300, rule="every generated case")
def profiles(c, t):
	"""harm2profile evaluates sum (2l+1)/4pi b_l P_l(cos r), and profile2harm is the corresponding integral"""
	r = rng(c); L = c["lmax"]; pre = tuple(c["pre"]); bl = r.standard_normal(pre+(L+1,)); rr = np.sort(r.uniform(0,np.pi,c["nr"])); l = np.arange(L+1)
	res = curvedsky.harm2profile(bl,rr); leg = lambda x: np.array([np.polynomial.legendre.legval(np.cos(x),np.eye(L+1)[i]) for i in l])
	ref = np.einsum("...l,lr->...r",bl*(2*l+1)/(4*np.pi),leg(rr))
	t.close(res,ref,"harm2profile",rtol=0,atol=1e-9*(1+np.sum(np.abs(bl)*(2*l+1))))
	# full-range profile of a band-limited function comes back, up to the linear interpolation
	n = c["n"]; x = np.linspace(0,np.pi,n); prof = np.einsum("...l,lr->...r",bl*(2*l+1)/(4*np.pi),leg(x))
	b2 = curvedsky.profile2harm(prof,x,lmax=L); t.true(b2.shape==bl.shape,"shape")
	t.close(b2,bl,"profile2harm(harm2profile)",rtol=0,atol=1e-6*(1+np.max(np.abs(bl))*(L+1))+20./n**2*np.max(np.abs(prof)))
	# a compact profile
	s = c["sig"]; rm = min(np.pi,max(c["rmax"],8*s)); x = np.linspace(0,rm,n); p = np.exp(-0.5*x**2/s**2)
	b3 = curvedsky.profile2harm(p,x,lmax=L); xx = np.linspace(0,rm,20001); w = np.exp(-0.5*xx**2/s**2)*np.sin(xx)*2*np.pi
	ref = np.trapezoid(leg(xx)*w,xx,axis=-1)
	t.close(b3,ref,"profile2harm of a compact profile",rtol=5e-3,scale=2*np.pi*s**2)
	t.close(curvedsky.profile2harm(list(p),list(x),lmax=L),b3,"lists"); t.close(curvedsky.harm2profile(list(b3),list(rr)),curvedsky.harm2profile(b3,rr),"lists")
	b4 = curvedsky.profile2harm(p,x); t.true(len(b4) == int((utils.nint(np.pi/(x[1]-x[0]))+1)//2-1)+1,"default lmax"); k = min(L+1,len(b4)); t.close(b4[:k],b3[:k],"default lmax",rtol=1e-6,scale=2*np.pi*s**2)
	# a profile that starts further out, continued inwards with a constant
	j = max(1,n//3); q = p.copy(); q[:j] = 3.; b5 = curvedsky.profile2harm(p[j:],x[j:],lmax=L,left=3.); b6 = curvedsky.profile2harm(q,x,lmax=L); t.close(b5,b6,"inner value",rtol=0,atol=2*np.pi*np.sin(min(x[j],1.5))*4*(x[1]-x[0])*3+5e-3*s**2)

def gen_p2a(d): return {"n":d.int(6,16),"geo":d.choice(["CC","F1"]),"dir":[d.float(-3,7,3),d.float(-1.5,1.5,3)],"spin":d.choice([0]),"pre":geo.gen_pre(d,2,2),"norot":d.bool(),"seed":d.seed()}
@prop.law(gen_p2a, quick=250, rule="every generated case")
def oriented_profiles(c, t):
	r = rng(c); n = c["n"]; lim = n-2 if c["geo"]=="CC" else n-1; L = min(lim,8); th = np.pi*np.arange(n)/(n-1) if c["geo"]=="CC" else np.pi*(np.arange(n)+.5)/n
	pre = tuple(c["pre"]); co = r.standard_normal(pre+(L+1,)); f = lambda x: np.polynomial.legendre.legval(np.cos(x),np.moveaxis(co,-1,0),tensor=True)
	prof = f(th); alm = curvedsky.prof2alm(prof,dir=c["dir"],spin=c["spin"],geometry=c["geo"],norot=c["norot"])
	pos = np.array([np.arcsin(r.uniform(-1,1,6)),r.uniform(0,6.28,6)])
	if c["norot"]: d0 = np.pi/2-pos[0]; ai = curvedsky.alm_info(lmax=lim,mmax=0)
	else: d0 = geo.sky_dist(pos,np.array([[c["dir"][1]],[c["dir"][0]]])+np.zeros(pos.shape)); ai = curvedsky.alm_info(lmax=lim)
	t.true(alm.shape==pre+(ai.nelem,),"shape")
	for a, ref in zip(alm.reshape(-1,alm.shape[-1]),f(d0).reshape(-1,6)):
		t.close(sht.synth(a[None],pos,lim,ai.mmax)[0],ref,"field around the given direction",rtol=0,atol=1e-8*(1+np.max(np.abs(co))*(L+1)))

def gen_filt(d): return {"ny":d.int(6,14),"grid":d.choice(["CC","F1"]),"flips":[d.bool(),d.bool()],"pre":geo.gen_pre(d,2,2),"lmax":d.int(0,9),"call":d.bool(),"seed":d.seed()}
@prop.law(gen_filt, quick=250, rule="lmax > 0")
def map_filter(c, t):
	r = rng(c); L = min(c["lmax"],c["ny"]-2); t.mark_trivial(L==0)
	g = sht.ducc_wcs(c["grid"],c["ny"],2*L+2,c["flips"],10.,0.); shape, wcs = geo.build(g); pre = tuple(c["pre"]); a = sht.rand_alm(r,pre,L); pos = sht.posmap(g)
	syn = lambda al: np.array([sht.synth(x[None],pos,L)[0].reshape(shape) for x in al.reshape(-1,al.shape[-1])]).reshape(pre+shape)
	m = enmap.ndmap(syn(a),wcs); f = np.cos(0.4*np.arange(L+1))+0.2; keep = m.copy()
	res = curvedsky.filter(m,(lambda l: np.cos(0.4*l)+0.2) if c["call"] else f,lmax=L)
	t.eq(m,keep,"map modified"); fl = np.array([f[l] for l,_ in sht.lms(L,L)])
	t.close(np.asarray(res),syn(a*fl),"filter",rtol=0,atol=1e-8*(1+np.max(np.abs(m))))
