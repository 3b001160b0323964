import numpy as np, scipy.interpolate
from harness.core import Prop, rng
from pixell import interpol, array_ops, colorize, utils, enmap
prop = Prop("P30", assumptions=["convolution has orders 0, 1 and 3, splines 0-5, lanczos 0-4","derivatives of linear interpolation are not defined at the nodes themselves","zero and nearest borders: splines of order > 1 are only checked away from the edges, where the border is not felt, through their weights and through their adjoint","colour scheme control points are distinct"])

def bspline(n, x):
	"""Central B-spline of degree n at |x|, from its truncated power definition"""
	from math import comb, factorial
	x = np.asarray(x,float); return sum((-1)**k*comb(n+1,k)*np.maximum(x+(n+1)/2-k,0)**n for k in range(n+2))/factorial(n)
def kernel(mode, order, x):
	x = np.asarray(x,float); a = np.abs(x)
	if mode == "lanczos": return np.where(a<order,np.sinc(x)*np.sinc(x/order),0)
	if mode == "conv" and order == 3: return np.where(a<1,1.5*a**3-2.5*a**2+1,np.where(a<2,-.5*a**3+2.5*a**2-4*a+2,0))
	return bspline(order,x)
def dkernel(mode, order, x):
	"""Derivative of kernel, by Richardson extrapolated central differences inside each polynomial piece"""
	if mode == "lanczos":
		d = lambda x: np.where(np.abs(x)<1e-9,0.,(np.cos(np.pi*x)-np.sinc(x))/np.where(np.abs(x)<1e-9,1,x)); return np.where(np.abs(x)<order,d(x)*np.sinc(x/order)+np.sinc(x)*d(x/order)/order,0)
	if mode == "conv" and order == 3:
		a, s = np.abs(x), np.sign(x); return s*np.where(a<1,4.5*a**2-5*a,np.where(a<2,-1.5*a**2+5*a-4,0))
	if order == 1: return np.where(np.abs(x)<1,-np.sign(x),0.)
	return bspline(order-1,x+.5)-bspline(order-1,x-.5)
def mapind(i, n, border):
	if 0 <= i < n: return i
	if border == "zero": return None
	if border == "nearest": return 0 if i < 0 else n-1
	if border == "cyclic": return i%n
	v = list(range(n))+list(range(n-2,0,-1)); return v[i%len(v)]
def matrix(p, n, mode, order, border, deriv=False):
	"""Interpolation matrix [npoint,n] along one axis"""
	A = np.zeros((len(p),n))
	for s, x in enumerate(p):
		if order == 0: js = [int(np.floor(x+.5))] # callers stay clear of ties
		else: js = range(int(np.floor(x))-6,int(np.floor(x))+8)
		for j in js:
			k = mapind(j,n,border)
			if k is None: continue
			A[s,k] += (0. if deriv else 1.) if order == 0 else float((dkernel if deriv else kernel)(mode,order,x-j))
	return A
def apply(idata, pts, ndim, mode, order, border, daxis=None):
	pre = idata.shape[:-ndim]; f = np.asarray(idata,float).reshape((-1,)+idata.shape[-ndim:]); r = f; N = pts.shape[1]
	M = [matrix(pts[i],idata.shape[-ndim+i],mode,order,border,daxis==i) for i in range(ndim)]
	if   ndim == 1: o = np.einsum("pa,sa->ps",r,*M)
	elif ndim == 2: o = np.einsum("pab,sa,sb->ps",r,*M)
	else:           o = np.einsum("pabc,sa,sb,sc->ps",r,*M)
	return o.reshape(pre+(N,))
def filt(idata, ndim, order, border):
	"""Spline coefficients that interpolate the data"""
	a = np.asarray(idata,float)
	for ax in range(a.ndim-ndim,a.ndim):
		n = a.shape[ax]; S = matrix(np.arange(n).astype(float),n,"spline",order,border); a = np.moveaxis(np.linalg.solve(S,np.moveaxis(a,ax,0).reshape(n,-1)).reshape(np.moveaxis(a,ax,0).shape),0,ax)
	return a

def gen_map(d):
	ndim = d.choice([1,2,2,2,3]); mode = d.choice(["spline","spline","conv","lanczos"])
	return {"dims":d.list(lambda: d.int(1,[30,12,6][ndim-1]),ndim,ndim),"pre":d.choice([[],[],[2],[3],[2,2],[1]]),"pdims":d.choice([[],[5],[3,2],[1],[40]]),"mode":mode,"order":d.choice({"spline":[0,1,2,3,3,4,5],"conv":[0,1,3],"lanczos":[0,1,2,3,4]}[mode]),"border":d.choice(["zero","nearest","cyclic","mirror","reflect"]),"dtype":d.choice(["float64","float64","float32"]),"where":d.choice(["in","in","near","far","nodes"]),"lay":d.choice(["c","c","c","f","step"]),"deriv":d.bool(),"given":d.bool(),"seed":d.seed()}
def layout(a, lay):
	"""The same values in a different memory layout"""
	if lay == "f" and a.ndim: return np.asfortranarray(a)
	if lay == "step" and a.ndim:
		b = np.zeros(a.shape[:-1]+(a.shape[-1]*2,),a.dtype); b[...,::2] = a; return b[...,::2]
	return a
def points(c, r, avoid):
	n = np.array(c["dims"]); N = int(np.prod(c["pdims"])); nd = len(n); w = c["where"]
	if w == "nodes": p = r.integers(0,n[:,None],(nd,N)).astype(float)
	else:
		lo, hi = {"in":(0*n,n-1),"near":(-3+0*n,n+2),"far":(-3*n-5,4*n+5)}[w]; p = r.uniform(lo[:,None],hi[:,None]+1e-9,(nd,N))
	p = np.round(p*64)/64 if w != "nodes" else p # exact in single precision
	if avoid == "half": p = np.where(p%1==.5,p+1/64,p)
	if avoid == "node": p = np.where(p%1==0,p+1/64,p)
	return p
@prop.law(gen_map, quick=450, rule="more than one sample and at least one point")
def map_coordinates(c, t):
	"""Interpolation equals the sum over neighbours of the mode's kernel, with the border's index mapping, for any layout"""
	r = rng(c); nd = len(c["dims"]); dt = np.dtype(c["dtype"]); mode, order, border = c["mode"], c["order"], c["border"]; pre, pd = tuple(c["pre"]), tuple(c["pdims"]); t.mark_trivial(np.prod(c["dims"])<2)
	deriv = c["deriv"] and order > 0; p = points(c,r,"half" if order==0 else "node" if deriv and (order==1 or mode=="lanczos") else None); e = 2e-3 if dt==np.float32 else 1e-8
	if deriv and order == 2 and mode == "spline": e *= 10
	a = r.standard_normal(pre+tuple(c["dims"])).astype(dt); idata = layout(a,c["lay"]); pts = p.reshape((nd,)+pd)
	kw = dict(mode=mode,order=order,border=border,deriv=deriv); oshape = ((nd,) if deriv else ())+pre+pd; odata = layout(np.full(oshape,7.,dt),c["lay"]) if c["given"] else None
	ref = lambda x: (np.array([apply(x,p,nd,mode,order,border,i) for i in range(nd)]) if deriv else apply(x,p,nd,mode,order,border)).reshape(oshape); S = 1+np.abs(a).max()
	o = interpol.map_coordinates(idata,pts,odata,prefilter=False,**kw); t.eq(idata,a,"input modified"); t.true(o.shape==oshape and o.dtype==dt,"shape or type"); t.close(o,ref(a),"weights",atol=e*S,rtol=0)
	if c["given"]: t.true(o is odata,"returned"); t.eq(odata,o,"given output")
	f = interpol.spline_filter(idata,order=order,border=border,ndim=nd) if mode=="spline" else a; t.eq(idata,a,"input modified by filter"); q = interpol.map_coordinates(idata,pts,**kw); t.eq(idata,a,"input modified"); sc = 1+np.abs(f).max()
	t.close(q,ref(np.asarray(f)),"prefiltered",atol=e*sc,rtol=0); t.label(mode+str(order),border,"deriv" if deriv else "value")
	if mode != "spline" or order < 2 or border in ("cyclic","mirror","reflect"):
		if mode == "spline" and order > 1 and min(c["dims"]) > 1: t.close(f,filt(a,nd,order,border),"filter",atol=e*sc*10,rtol=0)
		if c["where"] == "nodes" and not deriv and (min(c["dims"])>1 or order<2): t.close(np.asarray(q,float),np.asarray(a,float)[(Ellipsis,)+tuple(p.astype(int).reshape((nd,)+pd))],"value at nodes",atol=e*sc*10,rtol=0)
	else:
		g = interpol.spline_filter(a,order=order,border="cyclic",ndim=nd); m = 27; sl = (Ellipsis,)+tuple(slice(m,n-m) for n in c["dims"]); t.close(f[sl],g[sl],"filter away from edges",atol=e*10,rtol=0)

@prop.law(gen_map, quick=350, rule="more than one sample")
def adjoint(c, t):
	"""trans=True is the transpose of the forward operation, including the filter and the derivatives"""
	r = rng(c); nd = len(c["dims"]); dt = np.dtype(c["dtype"]); pre, pd = tuple(c["pre"]), tuple(c["pdims"]); t.mark_trivial(np.prod(c["dims"])<2); p = points(c,r,None).reshape((nd,)+pd)
	kw = dict(mode=c["mode"],order=c["order"],border=c["border"],deriv=c["deriv"]); a = r.standard_normal(pre+tuple(c["dims"])).astype(dt); o = interpol.map_coordinates(a,p,**kw); b = r.standard_normal(o.shape).astype(dt); keep = b.copy(); x = layout(np.full(a.shape,3.,dt),c["lay"]); y = interpol.map_coordinates(x,p,layout(b,c["lay"]),trans=True,**kw)
	t.eq(b,keep,"input modified"); t.true(y is x,"returned"); l, q = np.sum(np.asarray(o,float)*b), np.sum(np.asarray(a,float)*x); S = np.sum(np.abs(np.asarray(o,float)*b))+np.sum(np.abs(np.asarray(a,float)*x))+1; t.true(abs(l-q)<=(2e-5 if dt==np.float32 else 1e-10)*S,"adjoint %r != %r" % (l,q))
	if c["mode"] == "spline":
		g = interpol.spline_filter(a,order=c["order"],border=c["border"],ndim=nd); z = r.standard_normal(a.shape).astype(dt); h = interpol.spline_filter(z,order=c["order"],border=c["border"],ndim=nd,trans=True); l, q = np.sum(np.asarray(g,float)*z), np.sum(np.asarray(a,float)*h); S = np.sum(np.abs(np.asarray(g,float)*z))+1; t.true(abs(l-q)<=(1e-4 if dt==np.float32 else 1e-10)*S,"filter adjoint")

def gen_build(d): return {"nin":d.int(1,3),"nout":d.int(1,4),"ip":d.choice(["linear","ndimage1","ndimage3","grad"]),"kind":d.choice(["linear","smooth","smooth"]),"err":d.choice([1e-2,1e-3]),"ekind":d.choice(["scalar","vec"]),"ret":d.choice(["none","obox","status","both"]),"max":d.choice([None,None,20]),"seed":d.seed()}
@prop.law(gen_build, quick=80, rule="every generated case")
def build(c, t):
	"""build returns an interpolator with the requested accuracy, the range of the function, and stops where it is told to"""
	r = rng(c); nin, nout = c["nin"], c["nout"]; box = np.sort(r.uniform(-1,1,(2,nin)),0); box[1] += .2; A = r.uniform(-1,1,(nout,nin)); B = r.uniform(-1,1,nout); smooth = c["kind"]=="smooth" or c["ip"]=="grad"
	func = lambda x: (np.sin(np.einsum("oi,i...->o...",A,x)+B.reshape((-1,)+(1,)*(x.ndim-1))) if smooth else np.einsum("oi,i...->o...",A,x)+B.reshape((-1,)+(1,)*(x.ndim-1)))
	cls, kw = {"linear":(interpol.ip_linear,{}),"grad":(interpol.ip_grad,{}),"ndimage1":(interpol.ip_ndimage,{"order":1}),"ndimage3":(interpol.ip_ndimage,{"order":3})}[c["ip"]]; err = c["err"]*(1 if nin<3 else 10); errlim = err if c["ekind"]=="scalar" else np.full(nout,err)*np.arange(1,nout+1); args = dict(return_obox=c["ret"] in ("obox","both"),return_status=c["ret"] in ("status","both"),maxsize=c["max"] if nin < 3 else 20000); status = True
	try: res = interpol.build(func,cls,box,errlim,**args,**kw)
	except OverflowError: t.true(args["maxsize"] is not None and not args["return_status"],"gave up without being told to"); t.label("overflow"); return
	if args["return_status"]:
		t.true(len(res)==(4 if args["return_obox"] else 3),"number of results"); status, e = res[-2:]
	elif args["return_obox"]: t.true(len(res)==2,"number of results")
	ip = res if c["ret"]=="none" else res[0]
	if not status: t.true(args["maxsize"] is not None,"failed"); t.label("stopped"); x = utils.grid(box,[3]*nin); t.close(ip(x).shape,func(x).shape,"shape"); return
	x = box[0][:,None]+(box[1]-box[0])[:,None]*r.uniform(0,1,(nin,200)); x[:,0] = box[0]; x[:,1] = box[1]; y, z = ip(x), func(x); t.true(y.shape==z.shape,"shape"); lim = np.zeros(nout)+errlim
	tol = lim*nin*3 if smooth or c["ip"]=="ndimage3" else np.full(nout,1e-9)
	if c["ip"] == "grad": tol = lim*nin*4
	for i in range(nout): t.true(np.max(np.abs(y[i]-z[i]))<=tol[i],"accuracy %g > %g" % (np.max(np.abs(y[i]-z[i])),tol[i]))
	x2 = x.reshape(nin,20,10); t.close(ip(x2),y.reshape(nout,20,10),"shape of positions",atol=1e-12)
	if args["return_obox"]:
		ob = res[1]; t.true(ob.shape==(2,nout),"range shape"); t.true(np.all(ob[0]<=ob[1]+1e-12),"ordered"); fine = func(utils.grid(box,[9]*nin)).reshape(nout,-1); w = np.ptp(fine,1)+1e-6; t.true(np.all(np.abs(ob[0]-fine.min(1))<=.3*w+2*lim) and np.all(np.abs(ob[1]-fine.max(1))<=.3*w+2*lim),"range of the function")

def gen_der(d): return {"n":d.list(lambda: d.int(2,6),1,3),"pre":d.choice([[],[2],[3,1]]),"seed":d.seed()}
@prop.law(gen_der, quick=60, rule="every generated case")
def derivs(c, t):
	"""lin_derivs_forward and grad_forward are the forward differences"""
	r = rng(c); n, pre = tuple(c["n"]), tuple(c["pre"]); k, m = len(n), len(pre); y = r.standard_normal(pre+n); ys = interpol.lin_derivs_forward(y,m); t.true(ys.shape==(2,)*k+pre+tuple(v-1 for v in n),"shape")
	for I in np.ndindex(*(2,)*k):
		v = y
		for i in range(k): v = np.diff(v,axis=m+i) if I[i] else v[(slice(None),)*(m+i)+(slice(0,-1),)]
		t.close(ys[I],v,"derivatives",atol=1e-12)

def gen_mm(d): return {"n":d.int(1,4),"m":d.int(1,4),"k":d.choice([None,None,1,2,3]),"post":d.list(lambda: d.int(1,4),0,3),"axes":d.choice(["last","first","mixed"]),"dt":d.choice([["float64","float64"],["float32","float32"],["float32","float64"],["float64","float32"]]),"lay":d.choice(["c","f","step"]),"seed":d.seed()}
@prop.law(gen_mm, quick=150, rule="more than one matrix")
def matmul(c, t):
	"""array_ops.matmul and matmul_sym are the matrix products along the given axes"""
	r = rng(c); n, m, k = c["n"], c["m"], c["k"]; post = tuple(c["post"]); t.mark_trivial(np.prod(post)<2); dA, dB = [np.dtype(x) for x in c["dt"]]; A = r.standard_normal(post+(n,m)).astype(dA); B = r.standard_normal(post+((m,) if k is None else (k,m))).astype(dB); X = np.einsum("...ij,...j->...i",A,B) if k is None else np.einsum("...ij,...kj->...ki",A,B); e = 1e-4 if "float32" in c["dt"] else 1e-12
	nb = B.ndim-len(post)
	if c["axes"] == "last": axes = [-2,-1]; fA = fB = lambda x, q: x; ax = [len(post),len(post)+1]
	if c["axes"] == "first" or (c["axes"] == "mixed" and len(post)<1): ax = [0,1]
	elif c["axes"] == "mixed": ax = [0,2]
	else: ax = [len(post),len(post)+1]
	mv = lambda x, q: np.moveaxis(x,list(range(len(post),len(post)+q)),ax[:q])
	# negative axes count from the end of A
	axes = [a-A.ndim for a in ax] if (c["seed"]%2 and nb==2) else ax
	if nb == 1 and ax[0] > B.ndim-1: return
	A2, B2 = layout(np.ascontiguousarray(mv(A,2)),c["lay"]), layout(np.ascontiguousarray(mv(B,nb)),c["lay"]); kA, kB = A2.copy(), B2.copy(); o = array_ops.matmul(A2,B2,axes=axes); t.close(o,mv(X,nb),"matmul",atol=e*10,rtol=0); t.eq(A2,kA,"A modified"); t.eq(B2,kB,"B modified"); t.true(o.dtype==np.result_type(dA,dB),"type")
	if ax == [A.ndim-2,A.ndim-1]: t.eq(array_ops.matmul(A2,B2),o,"the last two axes are the default")
	if n == m and dA == dB:
		S = A+np.swapaxes(A,-1,-2); X = np.einsum("...ij,...j->...i",S,B) if k is None else np.einsum("...ij,...kj->...ki",S,B); o = array_ops.matmul_sym(layout(np.ascontiguousarray(mv(S,2)),c["lay"]),B2,axes=axes); t.close(o,mv(X,nb),"matmul_sym",atol=e*20,rtol=0); t.eq(B2,kB,"B modified")
		if ax == [A.ndim-2,A.ndim-1]: t.eq(array_ops.matmul_sym(layout(np.ascontiguousarray(mv(S,2)),c["lay"]),B2),o,"the last two axes are the default")

def gen_roll(d): return {"pre":d.choice([[],[2],[2,2]]),"ny":d.int(1,6),"nx":d.int(1,9),"big":d.bool(),"dt":d.choice(["float64","float32"]),"lay":d.choice(["c","f","step"]),"given":d.bool(),"seed":d.seed()}
@prop.law(gen_roll, quick=120, rule="more than one column")
def roll_rows(c, t):
	"""roll_rows rolls each row cyclically by its own offset"""
	r = rng(c); ny, nx = c["ny"], c["nx"]; t.mark_trivial(nx<2); m = r.standard_normal(tuple(c["pre"])+(ny,nx)).astype(c["dt"]); B = 3*nx if c["big"] else nx-1; off = r.integers(-B,B+1,ny); k = layout(m,c["lay"]); om = np.full(m.shape,9.,m.dtype) if c["given"] else None; o = array_ops.roll_rows(k,off,om); ref = np.array([[np.roll(x[y],off[y]) for y in range(ny)] for x in m.reshape(-1,ny,nx)]).reshape(m.shape); t.eq(o,ref,"roll"); t.eq(k,m,"input modified")
	if c["given"]: t.true(o is om,"given output")

def gen_cont(d): return {"ny":d.int(1,7),"nx":d.int(1,7),"nv":d.int(0,4),"nan":d.bool(),"dt":d.choice(["float64","float32"]),"lay":d.choice(["c","f","step"]),"map":d.bool(),"seed":d.seed()}
@prop.law(gen_cont, quick=120, rule="at least one contour")
def find_contours(c, t):
	"""find_contours marks a pixel with the lowest level separating it from its next pixel along x, or else along y"""
	r = rng(c); ny, nx = c["ny"], c["nx"]; m = (r.integers(-6,7,(ny,nx))/2.).astype(c["dt"]); v = np.sort(r.choice(np.arange(-5,6),c["nv"],replace=False))/2.; t.mark_trivial(len(v)<1)
	if c["nan"]: m[r.uniform(size=m.shape)<.15] = np.nan
	k = layout(m,c["lay"]); k = enmap.ndmap(k,enmap.geometry(pos=[0,0],res=.01,shape=(ny,nx),proj="car")[1]) if c["map"] else k; o = array_ops.find_contours(k,v); b = np.where(np.isnan(m),1,1+np.searchsorted(v,np.where(np.isnan(m),0,m),side="right")); ref = np.zeros((ny,nx),int)
	for y in range(ny-1):
		for x in range(nx-1):
			if b[y,x] != b[y,x+1]: ref[y,x] = min(b[y,x],b[y,x+1])
			elif b[y,x] != b[y+1,x]: ref[y,x] = min(b[y,x],b[y+1,x])
	t.eq(o,ref,"contours"); t.eq(k,m,"input modified")

@prop.law(lambda d: {"n":d.int(0,30),"dt":d.choice(["float64","float32"]),"lay":d.choice(["c","f","step"]),"seed":d.seed()}, quick=60, rule="at least one position")
def ang2rect(c, t):
	"""array_ops.ang2rect gives the unit vectors of (lon,lat)"""
	r = rng(c); a = np.stack([r.uniform(-7,7,c["n"]),r.uniform(-np.pi/2,np.pi/2,c["n"])],1).astype(c["dt"]); t.mark_trivial(c["n"]<1); k = layout(a,c["lay"]); o = array_ops.ang2rect(k); t.close(o,np.stack([np.cos(a[:,0])*np.cos(a[:,1]),np.sin(a[:,0])*np.cos(a[:,1]),np.sin(a[:,1])],1),"vectors",atol=1e-5 if c["dt"]=="float32" else 1e-12,rtol=0); t.true(o.dtype==a.dtype,"type")

HEX = "0123456789abcdef"
def gen_col(d): return {"scheme":d.choice(["list","list","list","const","planck","gray","viridis","nozero","wmap"]),"pts":sorted({d.int(-20,120) for _ in range(d.int(2,5))}),"alpha":d.list(d.bool,5,5),"drv":d.choice(["auto","fortran","python"]),"shape":d.choice([[],[5],[3,4],[2,3,2],[200]]),"dt":d.choice(["float64","float64","float32"]),"bad":d.bool(),"inf":d.bool(),"shuffle":d.bool(),"rev":d.bool(),"seed":d.seed()}
@prop.law(gen_col, quick=250, rule="at least one value")
def colorize_scalar(c, t):
	"""Scalar colours interpolate linearly between the scheme's colours, saturate at its ends, and are transparent for NaN"""
	r = rng(c); pts = c["pts"] if len(c["pts"])>1 else [0,100]; cols = r.integers(0,256,(len(pts),4)); cols[:,3] = np.where(c["alpha"][:len(pts)],cols[:,3],255); vals = np.array(pts)/100.
	if c["scheme"] == "list":
		toks = ["%g:%s" % (v,"".join("%02x" % x for x in (col if al else col[:3]))) for v,col,al in zip(vals,cols,c["alpha"])]
		if c["shuffle"]: toks = [toks[i] for i in r.permutation(len(toks))]
		desc = ",".join(toks)
	elif c["scheme"] == "const": desc = "".join("%02x" % x for x in cols[0]); vals, cols = np.array([0.,1.]), np.array([cols[0],cols[0]])
	else: desc = c["scheme"]; s = colorize.schemes[desc]; vals, cols = s.vals, s.cols
	s = colorize.Colorscheme(desc); t.close(s.vals,vals,"scheme values",atol=1e-12); t.eq(s.cols,cols,"scheme colours"); k0 = (s.vals.copy(),s.cols.copy())
	if c["rev"]:
		s = s.reverse(); vals, cols = 1-vals[::-1], cols[::-1]; t.close(s.vals,vals,"reversed values",atol=1e-12); t.eq(s.cols,cols,"reversed colours"); s2 = colorize.Colorscheme(desc); t.eq(s2.vals,k0[0],"original changed"); desc = s
	a = r.uniform(-.5,1.5,c["shape"]).astype(c["dt"]); f = a.reshape(-1)
	if f.size and c["bad"]: f[r.integers(0,f.size)] = np.nan
	if f.size and c["inf"]: f[r.integers(0,f.size)] = r.choice([np.inf,-np.inf])
	if f.size > 2: f[0] = vals[0]; f[1] = vals[-1]
	keep = a.copy(); o = colorize.colorize(a,desc,driver=c["drv"]); t.eq(a,keep,"input modified"); t.true(o.shape==a.shape+(4,) and o.dtype==np.uint8,"shape"); x = np.asarray(keep,float); ref = np.stack([np.interp(np.where(np.isnan(x),0,x),vals,cols[:,i]) for i in range(4)],-1); nan = np.isnan(x); slope = max([1]+[1/q for q in np.diff(vals)]); tol = .5+1e-9+(1e-6*256*slope if c["dt"]=="float32" or slope>1e4 else 1e-9*slope)
	t.true(np.all(o[nan]==0),"NaN not transparent"); t.true(np.all(np.abs(o[~nan].astype(float)-ref[~nan])<=tol),"colour")

def gen_dir(d): return {"nc":d.choice([3,4]),"mode":d.choice(["direct","direct","direct_colorcap"]),"drv":d.choice(["auto","fortran","python"]),"shape":d.choice([[5],[3,4],[1],[2,3,2],[70,80]]),"bad":d.bool(),"dt":d.choice(["float64","float32"]),"seed":d.seed()}
@prop.law(gen_dir, quick=120, rule="every generated case")
def colorize_direct(c, t):
	"""Direct colours are 256 times the input limited to 0-255; with colour cap the brightness is limited keeping the hue; invalid is transparent"""
	r = rng(c); drv = "fortran" if c["mode"]=="direct_colorcap" and c["drv"]=="python" else c["drv"]; a = r.uniform(-.3,1.5,[c["nc"]]+c["shape"]).astype(c["dt"]); nan = np.zeros(c["shape"],bool)
	if c["bad"]:
		i = tuple(r.integers(0,n) for n in c["shape"]); a[(r.integers(0,3),)+i] = np.nan; nan[i] = True
	keep = a.copy(); o = colorize.colorize(a,mode=c["mode"],driver=drv); t.eq(a,keep,"input modified"); t.true(o.shape==tuple(c["shape"])+(4,) and o.dtype==np.uint8,"shape %s %s" % (o.shape,o.dtype)); x = np.moveaxis(np.asarray(keep,float),0,-1); x = np.where(np.isnan(x),0,x)
	if c["mode"] == "direct_colorcap": amp = np.maximum(np.sqrt(np.sum(x[...,:3]**2,-1)),1e-200)[...,None]; x = np.concatenate([x[...,:3]/amp*np.minimum(amp,1),x[...,3:]],-1)
	ref = np.clip(x*256,0,255); ref = np.concatenate([ref,np.full(ref.shape[:-1]+(4-c["nc"],),255.)],-1); t.true(np.all(o[nan]==0),"invalid not transparent"); t.true(np.all(np.abs(o[~nan].astype(float)-ref[~nan])<=.5+1e-4),"colour")
