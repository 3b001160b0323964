import numpy as np, os
from harness.core import Prop, rng
from harness import geo
from pixell import enmap, utils
prop = Prop("P20", assumptions=["systems given to CG and Minres are positive definite with condition number up to about 1e3"])

def orth(r, n): return np.linalg.qr(r.standard_normal((n,n)))[0]
def spd(r, n, cond, shape=(), sing=0):
	"""Symmetric matrices [{shape},n,n] with known eigenvalues"""
	N = int(np.prod(shape)); out = np.zeros((N,n,n)); ev = np.zeros((N,n)); Q = np.zeros((N,n,n))
	for i in range(N):
		e = np.exp(r.uniform(0,np.log(cond),n))*np.exp(r.uniform(-6,6)); e[:sing] = 0; q = orth(r,n); out[i] = (q*e)@q.T; ev[i] = e; Q[i] = q
	return out.reshape(shape+(n,n)), ev.reshape(shape+(n,)), Q.reshape(shape+(n,n))
def gen_mat(d, nmax=5): return {"n":d.int(1,nmax),"shape":d.choice([[],[3],[2,3],[3,2,2]]),"axes":d.choice([[-2,-1],[0,1],[1,0],[0,-1],[-1,0],[1,2]]),"cond":d.choice([2.,1e3]),"seed":d.seed()}
def place(A, shape, axes):
	"""Move the matrix axes of A[{shape},n,n] to axes; -> array, axes valid for its ndim"""
	nd = len(shape)+2; ax = [a if -nd<=a<nd else -1 for a in axes]
	if ax[0]%nd == ax[1]%nd: ax = [-2,-1]
	return np.moveaxis(A,[-2,-1],ax), ax

def gen_eig(d): c = gen_mat(d); c.update(e=d.choice([-2,-1,-.5,.5,1,2,.3,0,-1.5,3]),sing=d.choice([0,0,1]),neg=d.bool(),dtype=d.choice(["float64","float64","float32"]),emap=d.bool()); return c
@prop.law(gen_eig, quick=700, rule="the matrix is larger than 1x1")
def eigpow(c, t):
	r = rng(c["seed"]); n, e = c["n"], c["e"]; t.mark_trivial(n==1); sh = tuple(c["shape"]); sing = min(c["sing"],n-1); f32 = c["dtype"]=="float32"
	cond = 10. if f32 else c["cond"]
	A, ev, Q = spd(r,n,cond,sh,sing)
	if c["neg"] and n > 1 and e != 0: ev[...,-1] *= -1; A = np.einsum("...ij,...j,...kj->...ik",Q,ev,Q); t.label("negative eigenvalue")
	if sing and f32 and e < 0: return t.mark_trivial() # the default limits are too tight for rounding here
	if e == 0 and sing: return t.mark_trivial()
	if sing and 0 < e < 1: return t.mark_trivial() # rounding in the zero eigenvalues is amplified
	good = ev != 0
	if e != int(e): good &= ev > 0
	p = np.where(good,np.sign(ev)**(int(e) if e==int(e) else 0)*np.abs(np.where(good,ev,1.))**e,0); want = np.einsum("...ij,...j,...kj->...ik",Q,p,Q)
	kw = {} if not (sing and e < 0) else {"rlim":1e-9}
	A2, ax = place(A.astype(c["dtype"]),sh,c["axes"]); keep = A2.copy(); got = utils.eigpow(A2,e,axes=ax,**kw); t.eq(A2,keep,"eigpow modifies its input")
	got = np.moveaxis(got,ax,[-2,-1]); sc = np.max(np.abs(want),(-2,-1),keepdims=True)+1e-300; tol = (1e-9 if not f32 else 2e-4)*cond**max(1,abs(e)) if not f32 else 2e-2
	t.true(got.shape==want.shape,"eigpow shape"); t.close(got/sc,want/sc,"eigpow(%g)" % e,atol=min(1e-2,tol))
	# absolute and relative limits
	if e < 0 and not f32 and n > 1 and not sing:
		aev = np.abs(ev); lim = np.sqrt(aev.min(-1)*aev.max(-1)); cut = 3e-2; near = np.abs(np.log(aev/aev.max(-1,keepdims=True)/cut))<1e-3
		if not np.any(near):
			p2 = np.where(aev>=cut*aev.max(-1,keepdims=True),p,0); t.close(np.moveaxis(utils.eigpow(A2,e,axes=ax,rlim=cut),ax,[-2,-1])/sc,np.einsum("...ij,...j,...kj->...ik",Q,p2,Q)/sc,"eigpow with rlim",atol=1e-6)
	if c["emap"] and not sh and not sing:
		M, ev, Q = spd(r,n,cond,(2,3)); m = enmap.ndmap(np.moveaxis(M,[-2,-1],[0,1]),geo.make_wcs("car",(2,3),(.1,.1),(0,0))); o = enmap.multi_pow(m,e); w = np.moveaxis(np.einsum("...ij,...j,...kj->...ik",Q,ev**e,Q),[-2,-1],[0,1]); t.close(np.asarray(o)/np.max(np.abs(w),(0,1)),w/np.max(np.abs(w),(0,1)),"multi_pow",atol=1e-5); t.true(o.wcs is not None,"multi_pow wcs")

def gen_solve(d): c = gen_mat(d); c.update(mat=d.bool(),k=d.int(1,4),masked=d.bool()); return c
@prop.law(gen_solve, quick=600, rule="the matrix is larger than 1x1")
def solve(c, t):
	r = rng(c["seed"]); n = c["n"]; sh = tuple(c["shape"]); t.mark_trivial(n==1); A = r.standard_normal(sh+(n,n))+4*np.eye(n)
	zero = np.zeros(sh,bool)
	if c["masked"]: zero = r.uniform(size=sh)<.4; A[zero] = 0
	nd = len(sh)+2; ax = [-2,-1] if c["axes"][0]>c["axes"][1] else c["axes"]
	A2, ax = place(A,sh,ax)
	if c["mat"]: b = r.standard_normal(sh+(n,c["k"])); b2 = np.moveaxis(b,[-2,-1],ax)
	else: b = r.standard_normal(sh+(n,)); b2 = np.moveaxis(b,-1,ax[0]%nd if ax[0]%nd<nd-1 else nd-2)
	if not c["mat"] and ax[0]%nd > ax[1]%nd: return t.mark_trivial()
	keep = b2.copy(); x2 = utils.solve(A2,b2,axes=ax,masked=c["masked"]); t.eq(b2,keep,"solve modifies b"); t.true(x2.shape==b2.shape,"solve shape")
	x = np.moveaxis(x2,ax,[-2,-1]) if c["mat"] else np.moveaxis(x2,ax[0]%nd if ax[0]%nd<nd-1 else nd-2,-1)
	t.close(np.einsum("...ij,...jk->...ik",A,x if c["mat"] else x[...,None]),(b if c["mat"] else b[...,None])*~zero[...,None,None],"Ax = b",atol=1e-8)
	if np.any(zero): t.true(x[zero]==0,"masked entries are zero")

def gen_cond(d): c = gen_mat(d,6); c["n"] = max(2,c["n"]); c.update(m=d.int(1,5),zero=d.bool()); return c
@prop.law(gen_cond, quick=300, rule="always")
def conditional(c, t):
	r = rng(c["seed"]); n = c["n"]; sh = tuple(c["shape"]); m = min(c["m"],n-1); C, ev, Q = spd(r,n,50.,sh); k = np.sort(r.permutation(n)[:m]); u = np.array([i for i in range(n) if i not in k])
	zero = np.zeros(sh,bool)
	if c["zero"] and sh: zero = r.uniform(size=sh)<.3; C[zero] = 0
	C2, ax = place(C,sh,c["axes"]); A, V = utils.build_conditional(C2,k,axes=ax); A, V = np.moveaxis(A,ax,[-2,-1]), np.moveaxis(V,ax,[-2,-1])
	t.true(A.shape==sh+(n-m,m) and V.shape==sh+(n-m,n-m),"build_conditional shapes")
	g = ~zero; t.true((A[zero]==0).all() and (V[zero]==0).all(),"masked entries are zero")
	kk, uk, uu = C[g][...,k,:][...,:,k], C[g][...,u,:][...,:,k], C[g][...,u,:][...,:,u]
	if np.any(g):
		wA = np.einsum("...ij,...jk->...ik",uk,np.linalg.inv(kk)); t.close(A[g],wA,"conditional mean",atol=1e-8*np.max(np.abs(wA))); wV = uu-np.einsum("...ij,...kj->...ik",wA,uk); t.close(V[g],wV,"conditional covariance",atol=1e-8*np.max(np.abs(wV)))

def gen_small(d): return {"n":d.int(1,6),"nmax":d.choice([None,1,2,3]),"k":d.int(1,3),"sig":[d.logfloat(.1,10),d.logfloat(.1,10)],"phi":d.float(-4,4),"seed":d.seed()}
@prop.law(gen_small, quick=400, rule="the matrix is larger than 1x1")
def small(c, t):
	r = rng(c["seed"]); n = c["n"]; t.mark_trivial(n==1); C, ev, Q = spd(r,n,100.); w = np.sort(ev)[::-1][:c["nmax"]]; sc = np.max(ev)
	E, V = utils.eigsort(C,nmax=c["nmax"]); t.close(E/sc,w/sc,"eigsort eigenvalues",atol=1e-9); t.close(C@V/sc,V*E/sc,"eigsort vectors",atol=1e-9); t.close(V.T@V,np.eye(len(E)),"eigsort vectors are orthonormal",atol=1e-9)
	q = utils.eigsort(C,nmax=c["nmax"],merged=True); t.close(q@q.T/sc,(V*E)@V.T/sc,"merged eigsort",atol=1e-9)
	keep = C.copy(); nd = utils.nodiag(C); t.eq(C,keep,"nodiag modifies its input"); t.eq(nd,C*(1-np.eye(n)),"nodiag")
	co, std = utils.cov2corr(C); t.close(np.diag(co),np.ones(n),"cov2corr diagonal",atol=1e-12); t.close(std**2,np.diag(C),"cov2corr std",rtol=1e-12); t.close(utils.corr2cov(co,std),C,"corr2cov",rtol=1e-10,atol=1e-12*sc)
	k = min(c["k"],n); B = Q[:k]*r.uniform(.5,2,(k,1))+.1*Q[:1]; co = r.standard_normal((4,k)); t.close(utils.decomp_basis(B,co@B),co,"decomp_basis",atol=1e-8)
	s, phi = sorted(c["sig"])[::-1], c["phi"]; ir = utils.compress_beam(s,phi); s2, p2 = utils.expand_beam(ir); t.close(s2,s,"beam widths",rtol=1e-8)
	if s[0]/s[1] > 1.01: t.true(abs((p2-phi+np.pi/2)%np.pi-np.pi/2)<1e-6,"beam angle"); t.true(0<=p2<=np.pi,"beam angle range")
	R = np.array([[np.cos(phi),-np.sin(phi)],[np.sin(phi),np.cos(phi)]]); Ci = R@np.diag(np.array(s)**-2.)@R.T; t.close(ir,[Ci[0,0],Ci[1,1],Ci[0,1]],"compress_beam",rtol=1e-9,atol=1e-12)

def gen_cg(d): return {"n":d.int(1,20),"cond":d.choice([1.,10.,1e3]),"x0":d.bool(),"M":d.choice(["none","jacobi","exact"]),"dot":d.choice(["default","custom","split"]),"save":d.int(0,6),"cplx":d.bool(),"destroy":d.bool(),"alg":d.choice(["cg","cg","minres"]),"shape2":d.bool(),"seed":d.seed()}
@prop.law(gen_cg, quick=300, rule="more than one unknown")
def solver(c, t):
	r = rng(c["seed"]); n = c["n"]; t.mark_trivial(n==1); t.label(c["alg"]); C, ev, Q = spd(r,n,c["cond"]); C = C/np.max(ev); cp = c["cplx"] and c["dot"] != "default"
	if cp: t.label("complex"); H = r.standard_normal((n,n))+1j*r.standard_normal((n,n)); q = np.linalg.qr(H)[0]; C = (q*(ev/np.max(ev)))@np.conj(q.T)
	xt = r.standard_normal(n)+(1j*r.standard_normal(n) if cp else 0); b = C@xt; sc = np.sqrt(np.sum(np.abs(xt)**2))
	two = c["shape2"] and c["dot"] != "default" and n%2==0; shp = (2,n//2) if two else (n,)
	A = lambda x: (C@x.reshape(-1)).reshape(shp); kw = {}; b = b.reshape(shp); xt = xt.reshape(shp)
	if c["dot"] == "custom": kw["dot"] = lambda a,b: float(np.real(np.sum(a*np.conj(b))))
	elif c["dot"] == "split": kw["dot"] = lambda a,b: float(np.real(np.sum((a*np.conj(b)).reshape(-1)[::2]))+np.real(np.sum((a*np.conj(b)).reshape(-1)[1::2])))
	x0 = None
	if c["x0"]: x0 = xt+r.standard_normal(shp); kw["x0"] = x0
	cg = c["alg"] == "cg"; bin = b.copy(); x0k = None if x0 is None else x0.copy()
	if cg:
		if c["M"] == "jacobi": dg = np.real(np.diag(C)).reshape(shp); kw["M"] = lambda x: x/dg
		elif c["M"] == "exact": Ci = np.linalg.inv(C); kw["M"] = lambda x: (Ci@x.reshape(-1)).reshape(shp)
		if c["destroy"]: kw["destroy_b"] = True
	make = lambda: (utils.CG if cg else utils.Minres)(A,bin.copy() if c["destroy"] else bin,**kw)
	s = make(); enorm = lambda x: np.sqrt(abs(np.sum(np.conj(x-xt)*A(x-xt)))) if cg else np.sqrt(np.sum(np.abs(A(x)-b)**2))
	prev = enorm(s.x); first = prev; nit = 4*n+20; saved = None; f = os.path.join(t.tmpdir,"cg.h5") if t.tmpdir else None
	for i in range(nit):
		if i == c["save"] and cg and f: s.save(f); saved = i; ref = (s.x.copy(),)
		s.step(); t.true(s.i==i+1,"iteration counter"); e = enorm(s.x)
		if i < 6 or e > 1e-8*sc: t.true(e <= prev*(1+1e-6)+1e-9*sc,"the error norm grows from %g to %g in step %d" % (prev,e,i)); prev = e
		# the bookkept residual is the real one
		if i < 5: t.close(s.r,b-A(s.x),"residual",atol=1e-9*sc)
		if e < 1e-9*sc or s.rz == 0: break
	done = s.i
	t.true(np.sqrt(np.sum(np.abs(s.x-xt)**2)) < 1e-5*sc*np.sqrt(c["cond"])+1e-9,"%s has not converged after %d steps" % (c["alg"],done)); t.true(np.abs(s.err)<1e-8,"err after convergence")
	if c["M"] == "exact" and cg: 
		s3 = make(); s3.step(); t.close(s3.x,xt,"exact preconditioner solves in one step",atol=1e-7*sc*c["cond"])
	if x0 is not None: t.eq(x0,x0k,"the starting guess is modified")
	t.eq(bin,b,"the right-hand side is modified")
	if saved is not None and cg:
		s2 = make() if i%2 else utils.CG(A,bin,x0=2*xt+1,**{k:v for k,v in kw.items() if k in ("M","dot")}); s2.load(f); t.true(s2.i==saved,"resumed iteration number"); t.eq(s2.x,ref[0],"resumed solution")
		for i in range(saved,done): s2.step()
		t.eq(s2.x,s.x,"resumed iteration gives another result"); t.eq(s2.err,s.err,"resumed err")
