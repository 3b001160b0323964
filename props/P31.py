import numpy as np, itertools, os
from harness.core import Prop, rng
from pixell import utils
prop = Prop("P31", assumptions=["arrays are numeric or string without NaN unless the function is about NaN","weights are non-negative"])
def L(a): return [int(x) for x in np.asarray(a).reshape(-1)]

def arr(r, n, kind, hi=8):
	if kind == "int": return r.integers(-hi,hi+1,n)
	if kind == "float": return r.integers(-hi,hi+1,n)/4.
	if kind == "str": return np.array(["v%d" % i for i in r.integers(0,hi,n)]) if n else np.zeros(0,"U2")
	return r.integers(0,hi,n).astype(np.uint8)
def gen_find(d): return {"n":d.int(0,10),"m":d.int(0,10),"kind":d.choice(["int","float","str"]),"hi":d.choice([3,8,40]),"default":d.choice([None,-1,-7,99]),"nd":d.bool(),"seed":d.seed()}
@prop.law(gen_find, quick=300, rule="both arrays non-empty")
def find(c, t):
	"""find, find_any and contains: position and presence of values in an unsorted array"""
	r = rng(c); a, v = arr(r,c["n"],c["kind"],c["hi"]), arr(r,c["m"],c["kind"],c["hi"]); t.mark_trivial(c["n"]<1 or c["m"]<1); ka, kv = a.copy(), v.copy(); missing = [x for x in v if x not in list(a)]
	sh = (2,c["m"]//2) if c["nd"] and c["m"]%2==0 and c["m"]>0 else v.shape; vv = v.reshape(sh)
	if missing and c["default"] is None: t.raises(ValueError,lambda: utils.find(a,vv),"missing value not reported")
	else:
		i = np.asarray(utils.find(a,vv) if c["default"] is None else utils.find(a,vv,default=c["default"])); t.true(i.shape==sh,"shape")
		for x, k in zip(v,i.reshape(-1)):
			if x in list(a): t.true(0<=k<len(a) and a[k]==x,"found the wrong element")
			else: t.true(k==c["default"],"default")
	i = utils.find_any(a,v); t.true(len(i)==c["m"]-len(missing) and all(a[k]==x for k,x in zip(i,[x for x in v if x in list(a)])),"find_any"); t.eq(utils.contains(a,v),np.array([x in list(v) for x in a],bool),"contains"); t.eq(a,ka,"input modified"); t.eq(v,kv,"input modified")
	if c["kind"] != "str" and c["n"] > 0 and c["m"] > 0:
		for s in (False,True):
			b = np.sort(a) if s else a; x = v+r.choice([0,.3,.25],len(v)); i = np.asarray(utils.nearest_ind(b,x,sorted=s)); t.true(np.all(np.abs(b[i]-x)<=np.min(np.abs(b[:,None]-x[None]),0)+1e-12),"nearest_ind")

def gen_sets(d): return {"k":d.int(1,4),"n":[d.int(0,10) for _ in range(4)],"hi":d.choice([4,10]),"kind":d.choice(["int","float","str"]),"seed":d.seed()}
@prop.law(gen_sets, quick=150, rule="several non-empty arrays")
def sets(c, t):
	"""common_vals, common_inds, union: intersection and union of several arrays"""
	r = rng(c); As = [arr(r,c["n"][i],c["kind"],c["hi"]) for i in range(c["k"])]; t.mark_trivial(c["k"]<2 or min(c["n"][:c["k"]])<1)
	if c["k"] > 1:
		S = sorted(set.intersection(*[set(a.tolist()) for a in As])); v = utils.common_vals(As); t.true(list(np.asarray(v).tolist())==S,"common_vals"); I = utils.common_inds(As); t.true(len(I)==len(As),"common_inds")
		for a, i in zip(As,I): t.true(np.asarray(a)[np.asarray(i,int)].tolist()==S,"common_inds")
		t.true(np.asarray(utils.union(As)).tolist()==sorted(set.union(*[set(a.tolist()) for a in As])),"union")
	n = c["n"][0]; o = r.permutation(n); inv = utils.inverse_order(o); x = r.standard_normal(n); t.eq(x[o][inv],x,"inverse_order"); t.eq(x[inv][o],x,"inverse_order"); sub = [i for i in range(n) if r.uniform()<.5]; t.true(L(utils.complement_inds(sub,n))==[i for i in range(n) if i not in sub],"complement_inds"); t.true(len(utils.complement_inds(None,n))==0,"complement of all")
	a = As[0]; t.true(utils.dedup(a).tolist()==[k for k,g in itertools.groupby(a.tolist())],"dedup")
	nr, nc = r.integers(1,6,2); M = np.arange(nr*nc).reshape(nr,nc); ii = r.integers(0,nr*nc,5); t.eq(M.T.reshape(-1)[utils.transpose_inds(ii,nr,nc)],M.reshape(-1)[ii],"transpose_inds")

def gen_grp(d): return {"n":d.int(1,14),"m":d.choice([None,1,2,3]),"hi":d.choice([1,2,4]),"kind":d.choice(["int","float","str"]),"tol":d.choice([0,0,.1]),"seed":d.seed()}
@prop.law(gen_grp, quick=200, rule="more than one element")
def groups(c, t):
	"""find_equal_groups(_fast), label_unique, label_multi: equal elements share a group, different ones do not"""
	r = rng(c); n, m = c["n"], c["m"]; t.mark_trivial(n<2); a = arr(r,n*(m or 1),c["kind"],c["hi"]); a = a if m is None else a.reshape(n,m); rows = [tuple(np.atleast_1d(x).tolist()) for x in a]; b = a; tol = c["tol"] if c["kind"]!="str" else 0
	if tol: b = a+r.uniform(-1,1,a.shape)*tol/20 # clusters much tighter than the tolerance
	G = utils.find_equal_groups(b,tol=tol); t.true(sorted(sum([L(g) for g in G],[]))==list(range(n)),"partition")
	for g in G: t.true(len({rows[i] for i in g})==1,"different elements in a group")
	t.true(len(G)==len(set(rows)),"equal elements in different groups")
	if c["kind"] != "str":
		lab = utils.label_unique(b,axes=() if m is None else (1,),**({"atol":tol} if tol else {})); t.true(lab.shape==(n,),"shape"); t.true(sorted(set(L(lab)))==list(range(len(set(rows)))),"labels contiguous"); t.true(all((rows[i]==rows[j])==(lab[i]==lab[j]) for i in range(n) for j in range(n)),"label_unique")
		if m is not None: t.eq(utils.label_unique(b.T,axes=(0,),**({"atol":tol} if tol else {})),lab,"label_unique axes")
	if m is None: u, o, e = utils.find_equal_groups_fast(a); t.true(u.tolist()==sorted(set(a.tolist())),"unique values"); t.true(len(e)==len(u)+1 and e[0]==0 and e[-1]==n and sorted(L(o))==list(range(n)),"edges"); t.true(all(np.all(a[o[e[i]:e[i+1]]]==u[i]) for i in range(len(u))),"groups"); t.true(all(np.all(np.diff(o[e[i]:e[i+1]])>0) for i in range(len(u))),"stable")
	k = int(r.integers(1,5)); cols = [arr(r,n,["int","str","float","int"][i%4],[1,3,2,4][i%4]) for i in range(k)]; lab = utils.label_multi(cols); R = list(zip(*[x.tolist() for x in cols])); t.true(all((R[i]==R[j])==(lab[i]==lab[j]) for i in range(n) for j in range(n)),"label_multi"); t.true(sorted(set(L(lab)))==list(range(len(set(R)))),"label_multi contiguous")

def gen_split(d): return {"n":d.int(0,14),"k":d.int(1,5),"kind":d.choice(["float","int","equal"]),"seed":d.seed()}
@prop.law(gen_split, quick=150, rule="more elements than groups")
def splits(c, t):
	"""equal_split, greedy_split(_simple): a partition where no group outweighs another by more than one element"""
	r = rng(c); n, k = c["n"], c["k"]; t.mark_trivial(n<=k); w = r.uniform(0,5,n) if c["kind"]=="float" else r.integers(0,6,n) if c["kind"]=="int" else np.ones(n); B = [utils.greedy_split_simple(w,k)]
	if n: B.append(utils.equal_split(w,k)); g, cost, work = utils.greedy_split(list(w),k); B.append(g); s = [sum(w[i] for i in x) for x in g]; t.close(np.array(work,float),np.array(s,float),"work",atol=1e-9); t.close(cost,max(s),"cost",atol=1e-9)
	for b in B:
		t.true(len(b)==k and sorted(sum([L(x) for x in b],[]))==list(range(n)),"partition"); s = [sum(w[i] for i in x) for x in b]; t.true(n==0 or max(s)-min(s)<=w.max()+1e-9,"unbalanced")
	if n:
		sq = lambda x: sum([v**2 for v in x]); g, cost, work = utils.greedy_split(list(w),k,costfun=sq,workfun=lambda a,x: 0 if x is None else x+a); t.true(sorted(sum([L(x) for x in g],[]))==list(range(n)),"partition"); t.close(cost,sum(sum(w[i] for i in x)**2 for x in g),"custom cost",atol=1e-9)
	cap = r.integers(0,6,k); q = utils.cumsplit(w,cap); cw, cc = np.cumsum(w), np.cumsum(cap); t.true(L(q)==[int(np.sum(cw<=x)) for x in cc],"cumsplit")
	lens = r.integers(0,4,k); pieces = [r.standard_normal(x) for x in lens]; o = utils.uncat(np.concatenate(pieces),lens); t.true(len(o)==k and all(np.array_equal(x,y) for x,y in zip(o,pieces)),"uncat")

def gen_ax(d): return {"shape":d.list(lambda: d.int(1,4),1,4),"axes":d.list(lambda: d.int(-4,3),0,3),"pos":d.int(-3,3),"n":d.int(-4,5),"mode":d.choice(["rwc","rw","rc","w"]),"lay":d.choice(["c","f"]),"seed":d.seed()}
@prop.law(gen_ax, quick=300, rule="more than one axis")
def axes(c, t):
	"""partial_flatten/expand, flatview, addaxes/delaxes, preflat/postflat, to_Nd and friends reshape as documented and invert each other"""
	r = rng(c); sh = tuple(c["shape"]); nd = len(sh); t.mark_trivial(nd<2); a = np.arange(int(np.prod(sh))).reshape(sh).astype(float); a = np.asfortranarray(a) if c["lay"]=="f" else a; ax = []
	for x in c["axes"]:
		if -nd <= x < nd and x%nd not in [y%nd for y in ax]: ax.append(x)
	rest = [i for i in range(nd) if i not in [y%nd for y in ax]]; pos = max(-len(ax)-1,min(len(ax),c["pos"])); f = utils.partial_flatten(a,ax,pos); ref = np.moveaxis(np.transpose(a,[y%nd for y in ax]+rest).reshape([sh[y] for y in ax]+[-1]),-1,pos); t.eq(f,ref,"partial_flatten")
	if ax: t.eq(utils.partial_expand(f,sh,ax,pos),a,"partial_expand")
	b = a.copy(); keep = a.copy()
	if ax:
		with utils.flatview(b,ax,mode=c["mode"] if "r" in c["mode"] else "rwc",pos=pos) as v:
			t.eq(v,f,"flatview"); v += 1
		if "w" in c["mode"]: t.eq(b,keep+1,"changes through flatview")
		elif not np.shares_memory(b,v): t.eq(b,keep,"read-only flatview wrote back")
	if ax:
		o = utils.addaxes(a,ax); q = list(sh)
		for x in sorted([y%nd for y in ax])[::-1]: q.insert(x,1)
		t.true(o.shape==tuple(q),"addaxes shape %s %s" % (o.shape,q)); t.eq(o.reshape(sh),a,"addaxes"); t.eq(utils.delaxes(a,ax),a[tuple(0 if i in [y%nd for y in ax] else slice(None) for i in range(nd))],"delaxes")
		t.eq(utils.moveaxes(a,[ax[0]],[ax[-1]]),np.moveaxis(a,ax[0],ax[-1]),"moveaxes")
	n = max(-nd,min(nd,c["n"])); p = utils.preflat(a,n); kk = n if n>=0 else nd+n; t.eq(p,np.asarray(a).reshape((-1,)+sh[kk:]),"preflat"); kk = n if n>=0 else nd+n; p = utils.postflat(a,n); t.eq(p,np.asarray(a).reshape(sh[:nd-kk]+(-1,)),"postflat")
	N = abs(c["n"]); o = utils.atleast_Nd(a,N); t.eq(o,a.reshape((1,)*max(0,N-nd)+sh),"atleast_Nd"); t.eq(utils.atleast_3d(a),a.reshape((1,)*max(0,3-nd)+sh),"atleast_3d")
	if N >= 1:
		for x in range(-min(N,nd),min(N,nd)):
			o, inv = utils.to_Nd(a,N,axis=x,return_inverse=True); t.true(o.ndim==N and o.size==a.size and tuple(inv)==sh,"to_Nd"); t.eq(o.reshape(inv),a,"to_Nd order"); xx = x if x>=0 else (nd+1+x if N>=nd else N+x); t.true(o.shape==(sh[:xx]+(1,)*(N-nd)+sh[xx:] if N>=nd else sh[:xx]+(int(np.prod(sh[xx:xx+1+nd-N])),)+sh[xx+1+nd-N:]),"to_Nd shape")
	t.eq(a,keep,"input modified"); s = utils.argmax(a*(1 if c["seed"]%2 else -1)); t.true(a[s]==(a.max() if c["seed"]%2 else a.min()),"argmax")
	z = a[tuple(None if r.uniform()<.4 else slice(None) for _ in range(1))+(Ellipsis,)][...,None]; w = utils.fix_zero_strides(z); t.eq(w,z,"fix_zero_strides"); t.true(0 not in w.strides and np.shares_memory(w,a),"zero strides left")
	t.true(utils.same_array(a,a) and utils.same_array(a,a[:]) and not utils.same_array(a,a.copy()) and not utils.same_array(a,a+1),"same_array"); t.true(utils.iscontig(np.ascontiguousarray(a)) or 1 in sh,"iscontig")
	if 1 not in sh: t.true(utils.iscontig(a)==a.flags.c_contiguous,"iscontig")
	I = list(utils.nditer(sh)); t.true(I==list(np.ndindex(*sh)),"nditer"); t.true(list(utils.nditer(()))==[()],"nditer of scalar"); t.true(list(utils.nditer((0,)+sh))==[],"nditer of empty"); J = list(utils.nditer(sh,axes=ax)); A = sorted(y%nd for y in ax); t.true(J==[tuple(dict(zip(A,i)).get(k,slice(None)) for k in range(nd)) for i in itertools.product(*[range(sh[k]) for k in A])],"nditer axes")
	t.true(utils.without_inds(sh,ax)==tuple(v for i,v in enumerate(sh) if i not in [y%nd for y in ax]) and utils.only_inds(sh,ax)==tuple(sh[i] for i in ax),"without_inds")

def gen_bc(d): return {"full":d.list(lambda: d.int(1,4),0,3),"arrs":d.list(lambda: [d.int(0,3),d.list(d.bool,3,3),d.bool()],1,4),"at":d.choice([0,0,-1]),"npre":d.int(0,2),"npost":d.int(0,2),"bad":d.bool(),"seed":d.seed()}
@prop.law(gen_bc, quick=250, rule="more than one array")
def broadcast(c, t):
	"""broadcast_shape and broadcast_arrays follow numpy's rules with new axes inserted at the given place, passing None through"""
	r = rng(c); F = tuple(c["full"]); nd = len(F); shapes, As = [], []; at, npre, npost = c["at"], c["npre"], c["npost"]; t.mark_trivial(len(c["arrs"])<2)
	for k, ones, none in c["arrs"]:
		k = min(k,nd); s = F[nd-k:] if at == 0 else F[:k]; s = tuple(1 if o else v for v,o in zip(s,ones)); shapes.append(s); As.append(None if none else r.standard_normal((2,3)[:npre]+s+(3,2)[:npost]))
	pad = lambda s, n: (1,)*(n-len(s))+s if at == 0 else s+(1,)*(n-len(s)); n = max(len(s) for s in shapes); ref = tuple(max(pad(s,n)[i] for s in shapes) for i in range(n)); t.true(utils.broadcast_shape(*shapes,at=at)==ref,"broadcast_shape")
	if any(v>1 for v in ref):
		b = tuple(v+1 if v>1 else v for v in ref); t.raises(ValueError,lambda: utils.broadcast_shape(*(shapes+[b]),at=at),"incompatible shapes accepted")
	if all(a is None for a in As): return
	S = [s for s,a in zip(shapes,As) if a is not None]; n = max(len(s) for s in S); ref = tuple(max(pad(s,n)[i] for s in S) for i in range(n)); o = utils.broadcast_arrays(*As,npre=npre,npost=npost,at=at); t.true(len(o)==len(As),"number")
	for a, x, s in zip(As,o,shapes):
		if a is None: t.true(x is None,"None not passed through"); continue
		t.eq(x,np.broadcast_to(a.reshape(a.shape[:npre]+pad(s,n)+a.shape[a.ndim-npost:]),a.shape[:npre]+ref+a.shape[a.ndim-npost:]),"broadcast_arrays")

def gen_q(d): return {"pre":d.list(lambda: d.int(1,3),0,2),"n":d.int(1,9),"ax":d.int(0,2),"q":d.choice([0.,.5,.25,.9,1.,"vec"]),"w":d.choice(["one","rand","zeros","some"]),"scale":d.choice([1,1,1e-3,1e-9,1e6]),"dt":d.choice(["float64","float32","int64"]),"seed":d.seed()}
@prop.law(gen_q, quick=200, rule="more than one sample")
def quantiles(c, t):
	"""weighted_quantile/median interpolate the weighted mid-point distribution; search is searchsorted along the last axis; medmean, maskmed, cumsum, minmax, deslope"""
	r = rng(c); pre = tuple(c["pre"]); n = c["n"]; t.mark_trivial(n<2); ax = min(c["ax"],len(pre)); a = r.choice(np.arange(-50,51),pre+(n,)).astype(c["dt"]); w = {"one":np.ones(n),"rand":r.uniform(.1,2,pre+(n,)),"zeros":np.zeros(pre+(n,)),"some":r.integers(0,3,pre+(n,)).astype(float)}[c["w"]]*c.get("scale",1); w = np.broadcast_to(w,a.shape); q = np.array([.1,.5,.8]) if c["q"]=="vec" else c["q"]; m = np.moveaxis(a,-1,ax); k = np.moveaxis(w,-1,ax); km = m.copy(); o = np.asarray(utils.weighted_quantile(m,k,q,axis=ax)); t.true(o.shape==np.shape(q)+pre,"shape"); t.eq(m,km,"input modified")
	for I in np.ndindex(*pre):
		s = np.argsort(a[I],kind="stable"); v, ww = a[I][s].astype(float), w[I][s]
		if ww.sum() <= 0: continue
		if np.any(ww==0) and len(set(v))<len(v): continue # order of equal values with different weights
		if len(set(v)) < len(v) and c["w"] == "rand": continue
		cum = (np.cumsum(ww)-.5*ww)/ww.sum(); ok = np.concatenate([[True],np.diff(cum)>0]); 
		if not ok.all(): continue
		t.close(o[(Ellipsis,)+I] if np.ndim(q) else o[I],np.interp(q,cum,v),"quantile",atol=1e-4 if c["dt"]=="float32" else 1e-9)
	if c["w"] == "one": t.close(utils.weighted_median(a),np.median(a,-1),"median",atol=1e-9)
	b = np.sort(a,-1); x = r.integers(-60,60,pre)
	for side in ("left","right"): t.eq(utils.search(b,x,side=side),np.array([np.searchsorted(b[I],x[I],side=side) for I in np.ndindex(*pre)]).reshape(pre),"search")
	f = r.uniform(0,.9); s = np.sort(m,ax); i = int(n*f)//2; t.close(utils.medmean(m,axis=ax,frac=f),np.mean(np.moveaxis(s,ax,-1)[...,i:n-i],-1),"medmean",atol=1e-4); t.close(utils.medmean(m,frac=0),np.mean(m),"medmean of all",atol=1e-4)
	fr = r.uniform(.05,.5); bs = max(1,int(np.floor(n*fr+.5))); nb = n//bs; means = np.array([np.mean(np.moveaxis(m,ax,-1)[...,i*bs:(i+1)*bs],-1) for i in range(nb)]); 
	if abs(n*fr%1-.5)>1e-6 and n%bs==0 and c["dt"]!="int64": t.close(utils.medmean2(m,axis=ax,frac=fr),np.median(means,0),"medmean2",atol=1e-4)
	z = np.where(r.uniform(size=m.shape)<.3,0,m); o = utils.maskmed(z,axis=ax); zz = np.moveaxis(z,ax,-1)
	for I in np.ndindex(*pre): g = zz[I][zz[I]!=0]; t.close(np.asarray(o)[I],np.median(g) if len(g) else 0,"maskmed",atol=1e-4)
	for e in (False,True): cs = np.moveaxis(np.cumsum(np.moveaxis(m,ax,-1),-1),-1,ax); mm = np.moveaxis(m,ax,-1); full = np.concatenate([np.zeros(mm.shape[:-1]+(1,)),np.cumsum(mm,-1)],-1); t.close(np.moveaxis(np.asarray(utils.cumsum(m,endpoint=e,axis=ax)),ax,-1),full if e else full[...,:-1],"cumsum",atol=1e-3)
	t.close(utils.cumsum(m),np.concatenate([[0],np.cumsum(m.reshape(-1))[:-1]]),"flat cumsum",atol=1e-3); t.eq(utils.minmax(m,axis=ax),np.array([m.min(ax),m.max(ax)]),"minmax")
	if n > 1 and c["dt"] != "int64":
		wd = int(r.integers(1,max(2,n//2))); kk = m.copy(); o = utils.deslope(m,w=wd,axis=ax); t.eq(m,kk,"deslope modified input"); y = np.moveaxis(m,ax,-1).astype(float); h, l = y[...,:wd].mean(-1), y[...,-wd:].mean(-1); t.close(np.moveaxis(o,ax,-1),y-np.arange(n)*((l-h)/(n-1))[...,None]-h[...,None],"deslope",atol=1e-3); o2 = utils.deslope(kk,w=wd,axis=ax,inplace=True); t.true(o2 is kk,"inplace"); t.eq(kk,o,"inplace")
		if m.min() < m.max(): lo, hi = sorted(r.uniform(-5,5,2)); o = utils.rescale(m,[lo,hi]); t.close([o.min(),o.max()],[lo,hi],"rescale",atol=1e-4); t.close((o-lo)*(float(m.max())-float(m.min())),(m-m.min())*(hi-lo),"rescale linear",atol=1e-2)

def gen_num(d): return {"n":d.int(1,3000),"m":d.int(1,200),"factors":sorted({d.choice([2,3,5,7]) for _ in range(3)}),"dir":d.choice(["below","above"]),"N":d.int(0,5),"D":d.int(1,8),"seed":d.seed()}
@prop.law(gen_num, quick=200, rule="n > 1")
def numbers(c, t):
	"""nearest_product, primes, gcd, lcm, dice distributions, digits, bits, triangle waves, Legendre and trigonometric bases"""
	n, m, F = c["n"], c["m"], c["factors"]; r = rng(c); t.mark_trivial(n<2); import math; prods = {1}; fr = [1]
	while fr:
		x = fr.pop()
		for f in F:
			if x*f <= 10*n+10 and x*f not in prods: prods.add(x*f); fr.append(x*f)
	P = sorted(prods-{1}); x = n+r.choice([0,0,.3])
	if c["dir"] == "below": ref = [p for p in P if p<=x]; t.true(utils.nearest_product(x,F)==(ref[-1] if ref else None),"nearest_product below")
	else: t.true(utils.nearest_product(x,F,direction="above")==[p for p in P if p>=x][0],"nearest_product above")
	f = utils.primes(n); t.true(math.prod(f)==n and f==sorted(f) and all(all(p%q for q in range(2,int(p**.5)+1)) and p>1 for p in f),"primes"); t.true(utils.gcd(n,m)==math.gcd(n,m) and utils.lcm(n,m)==n*m//math.gcd(n,m),"gcd")
	d = utils.dicedist(c["N"],c["D"]); ref = np.zeros(c["N"]*c["D"]+1)
	if c["D"]**c["N"] < 5000:
		for q in itertools.product(range(1,c["D"]+1),repeat=c["N"]): ref[sum(q)] += 1
		t.close(d,ref/c["D"]**c["N"],"dice",atol=1e-12)
	for v in (0,5,9,10,n,m,10**int(r.integers(0,9)),10**int(r.integers(1,9))-1): t.true(utils.ndigit(v)==len(str(v)),"digits of %d" % v)
	nn = np.array([n,m,7]); t.eq(utils.ndigit(nn),np.array([len(str(v)) for v in nn]),"digits of array"); b = utils.unpackbits(np.uint32(n)); t.true([int(x) for x in b]==[(n>>i)&1 for i in range(32)],"unpackbits")
	x = r.uniform(-3,3,40); per = r.uniform(.3,3); t.close(utils.triangle_wave(x,per),2/np.pi*np.arcsin(np.sin(2*np.pi*x/per)),"triangle wave",atol=1e-6); k = int(r.integers(0,6)); B = utils.build_legendre(x,k); y = (x-x.min())/(np.ptp(x))*2-1; t.true(B.shape==(k,40),"shape")
	for i in range(k): t.close(B[i],np.polynomial.legendre.legval(y,[0]*i+[1]),"legendre",atol=1e-9)
	B = utils.build_cossin(x,k)
	for i in range(k): t.close(B[i],(np.cos if i%2 else np.sin)((i//2+1)*x),"cossin",atol=1e-9)
	v = r.uniform(-5,5); t.true(utils.ceil(v)==math.ceil(v) and utils.floor(v)==math.floor(v) and utils.nint(v)==round(v),"rounding"); t.true(bool(utils.is_int_valued(np.float64(n))) and not utils.is_int_valued(n+.5),"integer valued"); off = r.uniform(0,1); t.true(utils.hasoff(n+off,off) and utils.hasoff(n-1+off,off) and not utils.hasoff(n+off+.1,off),"hasoff")
	k = int(r.integers(1,4)); q = int(r.integers(1,4)); A = r.standard_normal((q,k)); t.close(utils.ubash(lambda u: A.dot(u),k),A,"ubash",atol=1e-12); t.close(utils.nside2res(utils.res2nside(.01)),.01,"nside"); t.close(utils.nside2res(n)**2,4*np.pi/(12*n**2),"pixel area",rtol=1e-9)

def gen_misc(d): return {"bases":d.list(lambda: d.int(0,3),0,4),"sel":d.list(lambda: d.choice(["int","slice","step","none","ell","neg"]),0,5),"nd":d.list(lambda: d.int(1,2),1,3),"seed":d.seed()}
@prop.law(gen_misc, quick=300, rule="every generated case")
def misc(c, t):
	"""Combination iterators, split_slice, outer_stack, resize_array, sum_by_id, unmask, NaN removal, text and environment helpers"""
	r = rng(c); bs = c["bases"]; t.true(list(utils.count_variable_basis(bs))==[list(x) for x in itertools.product(*[range(b) for b in bs])],"count_variable_basis"); ls = [[(i,j) for j in range(b)] for i,b in enumerate(bs)]; t.true(list(utils.list_combination_iter(ls))==[list(x) for x in itertools.product(*ls)],"combinations")
	nd = c["nd"]; N = sum(nd); sh = tuple(r.integers(2,4,N)); a = np.arange(int(np.prod(sh))).reshape(sh); sel, used, ell = [], 0, False
	for s in c["sel"]:
		if s == "none": sel.append(None); continue
		if s == "ell":
			if not ell: sel.append(Ellipsis); ell = True
			continue
		if used >= N: continue
		used += 1; sel.append({"int":1,"neg":-1,"slice":slice(0,2),"step":slice(None,None,-1)}[s])
	sel = tuple(sel); sub = utils.split_slice(sel,nd); ref = a[sel]; x = a; done = 0; t.true(len(sub)==len(nd),"number of parts")
	for s, n in zip(sub,nd): # each part acts on its own axes
		t.true(sum(v is not None for v in s)<=n,"too many indices in a part"); s = tuple(s)+(slice(None),)*(n-sum(v is not None for v in s)); x = x[(slice(None),)*done+s]; done += sum(1 for v in s if v is None or isinstance(v,slice))
	t.eq(x,ref,"split_slice"); t.raises(IndexError,lambda: utils.split_slice((0,)*(N+1),nd),"too many indices accepted")
	vs = [r.standard_normal(k) for k in r.integers(1,4,int(r.integers(1,4)))]; t.eq(utils.outer_stack(vs),np.array(np.meshgrid(*vs,indexing="ij")),"outer_stack")
	b = a.astype(float); ax = int(r.integers(0,N)); n2 = int(r.integers(0,6)); o = utils.resize_array(b,n2,axis=ax,val=-5); k = min(n2,sh[ax]); S = (slice(None),)*ax; t.true(o.shape==sh[:ax]+(n2,)+sh[ax+1:],"resize shape"); t.eq(o[S+(slice(0,k),)],b[S+(slice(0,k),)],"resize"); t.true(np.all(o[S+(slice(k,None),)]==-5),"resize fill")
	if N >= 2: sz = [int(v) for v in r.integers(1,6,2)]; o = utils.resize_array(b,sz); t.true(o.shape==tuple(sz)+sh[2:],"resize several"); q = tuple(slice(0,min(x,y)) for x,y in zip(sz,sh)); t.eq(o[q],b[q],"resize several")
	ids = r.integers(0,4,sh[ax]); o = utils.sum_by_id(b,ids,axis=ax); t.eq(o,np.stack([np.sum(np.compress(ids==i,b,axis=ax),ax) for i in range(ids.max()+1)],ax),"sum_by_id"); mask = r.uniform(size=sh[ax])<.5; o = utils.unmask(np.compress(mask,b,axis=ax),mask,axis=ax,fill=-3); ref = np.where(mask.reshape((1,)*ax+(-1,)+(1,)*(N-ax-1)),b,-3); t.eq(o,ref,"unmask"); mask = r.uniform(size=sh)<.5; t.eq(utils.unmask(b[mask],mask,fill=9),np.where(mask,b,9),"unmask nd")
	z = b.copy(); z[r.uniform(size=sh)<.2] = np.nan; z[r.uniform(size=sh)<.2] = np.inf; z[r.uniform(size=sh)<.1] = -np.inf; kz = z.copy(); g = np.where(np.isfinite(z),z,0); t.eq(utils.without_nan(z),g,"without_nan"); t.eq(z,kz,"without_nan modified input"); t.eq(utils.tofinite(z,val=4),np.where(np.isfinite(z),z,4),"tofinite"); t.eq(z,kz,"tofinite modified input"); o = utils.remove_nan(z); t.true(o is z,"remove_nan"); t.eq(z,g,"remove_nan")
	w = r.standard_normal(int(r.integers(1,5))); n = int(r.integers(1,20)); t.eq(utils.repeat_filler(w,n),np.array([np.concatenate([w,w[::-1]])[i%(2*len(w))] for i in range(n)]),"repeat_filler")
	dd = {k:int(r.integers(0,9)) for k in "abc"}; t.true(utils.dict_apply_listfun(dd,lambda v: [x*2 for x in v])=={k:v*2 for k,v in dd.items()},"dict_apply_listfun"); t.true(utils.fallback(None,None,3,4)==3 and utils.fallback(None) is None and utils.fallback(0,1)==0,"fallback"); t.true(utils.tuplify(3)==(3,) and utils.tuplify([1,2])==(1,2) and utils.astuple(4)==(4,),"tuplify")
	cache = {}; calls = []; op = lambda: (calls.append(1),len(calls))[1]; t.true(utils.cache_get(cache,"k",op)==1 and utils.cache_get(cache,"k",op)==1 and len(calls)==1,"cached value computed twice"); t.true(utils.cache_get(None,"k",op)==2,"no cache"); t.true(utils.streq("a","a") and not utils.streq("a","b") and not utils.streq(np.arange(3),"a"),"streq"); t.true(utils.contains_any("hello",["zz","ll"]) and not utils.contains_any("hello",["zz"]),"contains_any"); t.true(utils.replace("abcb","b","x")=="axcx" and utils.regreplace("a12b3","[0-9]+","#")=="a#b#","replace"); t.raises(KeyError,lambda: utils.replace("abc","q","x"),"missing pattern"); t.raises(KeyError,lambda: utils.regreplace("abc","q+","x"),"missing pattern")
	A1 = [iter([1,2,3]),iter("abc")]; t.true(list(utils.zip2(*A1))==[(1,"a"),(2,"b"),(3,"c")],"zip2"); lo, hi, st = int(r.integers(0,5)), int(r.integers(6,15)), int(r.integers(1,4)); t.eq(utils.parse_numbers("%d,%d:%d,%d:%d:%d" % (lo,lo,hi,lo,hi,st),int),np.concatenate([[lo],np.arange(lo,hi),np.arange(lo,hi,st)]),"parse_numbers"); t.close(utils.parse_numbers("1.5,2"),np.array([1.5,2.]),"parse_numbers default")
	name = "PIXELL_VERIF_ENV_TEST"; os.environ.pop(name,None)
	try: t.true(utils.getenv(name,"d")=="d","getenv"); utils.setenv(name,5); t.true(utils.getenv(name)=="5","setenv"); utils.setenv(name,6,keep=True); t.true(utils.getenv(name)=="5","setenv keep"); utils.setenv(name,None); t.true(utils.getenv(name) is None,"unset"); utils.setenv(name,7,keep=True); t.true(utils.getenv(name)=="7","setenv keep")
	finally: os.environ.pop(name,None)
	for dt in ("float32","float64","complex64","complex128"): t.true(utils.real_dtype(dt)==np.zeros(1,dt).real.dtype and utils.complex_dtype(dt)==(np.zeros(1,dt)*np.complex64(1j)).dtype and utils.native_dtype(np.dtype(dt).newbyteorder(">"))==np.dtype(dt),"dtypes")
	ch = np.array(["abcd","ef","ghijk"]); t.true(utils.chararray_slice(ch,slice(1,3)).tolist()==[x[1:3] for x in ch.tolist()],"chararray_slice"); t.true(utils.decode_array_if_necessary(np.array([b"ab"])).tolist()==["ab"] and utils.encode_array_if_necessary(np.array(["ab"])).tolist()==[b"ab"],"encoding"); t.true(utils.first_importable("no_such_module_xyz","json","os")=="json","first_importable")

def gen_sweep(d): return {"k":d.int(2,7),"lens":[d.int(20,60) for _ in range(8)],"amp":d.logfloat(.01,100),"mid":d.float(-50,50),"up":d.bool(),"period":d.int(3,30),"cycles":d.int(2,9),"ph":d.float(0,6.28),"pre":d.choice([[],[2]])}
@prop.law(gen_sweep, quick=120, rule="every generated case")
def sweeps(c, t):
	"""find_sweeps finds the turn-arounds of a scan, find_period_fourier the period of a periodic signal"""
	x = [0.]; turns = []; s = 1 if c["up"] else -1
	for i in range(c["k"]): n = c["lens"][i]; x += list(np.linspace(x[-1],s,n+1)[1:]); s = -s; turns.append(len(x)-1)
	x += list(np.linspace(x[-1],x[-1]*.3,c["lens"][7]+1)[1:]); az = np.array(x)*c["amp"]+c["mid"]; o = utils.find_sweeps(az); e = [0]+turns+[len(az)]; t.eq(o,np.array([e[:-1],e[1:]]).T,"sweeps"); n = c["period"]*c["cycles"]; y = np.sin(2*np.pi*np.arange(n)/c["period"]+c["ph"])+3; y = np.broadcast_to(y,tuple(c["pre"])+(n,)); p = utils.find_period_fourier(y); t.close(p,np.full(c["pre"],float(c["period"])),"period",rtol=1e-6)

def gen_odds(d): return {"n":[d.int(1,6),d.int(1,30)], "shape":[d.int(1,4) for _ in range(d.int(1,3))], "end":d.bool(), "flat":d.bool(), "seed":d.seed(), "at":d.choice([0,0,1,-1]), "a":[d.int(1,3) for _ in range(d.int(1,3))], "s":[d.choice([None,0,1,2]),d.choice([None,5,9,30]),d.choice([None,1,2,3,-1,-2])], "none":d.bool(), "frac":d.float(0,0.9)}
@prop.law(gen_odds, quick=300, rule="every generated case")
def defaults(c, t):
	"""Default arguments mean what they say: all axes, last axis, zero fill, broadcasting like numpy"""
	r = rng(c); x = r.standard_normal(c["n"])
	s = np.sort(x.reshape(-1)); k = int(s.size*0.5)//2
	t.close(utils.medmean(x), s[k:s.size-k].mean(), "medmean over everything", rtol=1e-10)
	s = np.sort(x,-1); k = int(s.shape[-1]*c["frac"])//2
	t.close(utils.medmean(x,-1,c["frac"]), s[:,k:s.shape[-1]-k].mean(-1), "medmean along an axis", rtol=1e-10)
	f = x.reshape(-1); b = max(1,int(np.round(f.size*0.1)))
	if abs(f.size*0.1%1-0.5) > 1e-6: t.close(utils.medmean2(x), np.median([f[i:i+b].mean() for i in range(0,f.size,b)]) if f.size%b == 0 else utils.medmean2(f,0,0.1), "medmean2 over everything", rtol=1e-10)
	# grid
	sh = [n+1 for n in c["shape"]]; nd = len(sh); box = r.standard_normal((2,nd))
	want = np.array(np.meshgrid(*[np.linspace(box[0,i],box[1,i],sh[i],endpoint=c["end"]) for i in range(nd)],indexing="ij"))
	got = utils.grid(box,sh,endpoint=c["end"],flat=c["flat"]); t.close(got, want.reshape(nd,-1) if c["flat"] else want, "grid", rtol=1e-10, atol=1e-12)
	if c["end"]: t.close(utils.grid(box,sh), want, "grid defaults", rtol=1e-10, atol=1e-12)
	t.close(utils.grid(box.astype(int).tolist(),sh), np.array(np.meshgrid(*[np.linspace(*box.astype(int)[:,i],sh[i]) for i in range(nd)],indexing="ij")), "grid of an integer box", rtol=1e-10, atol=1e-12)
	# unmask
	m = r.random(c["n"][1]) < c["frac"]; full = r.standard_normal((c["n"][1],2)); w = np.where(m[:,None],full,0); t.eq(utils.unmask(full[m],m), w, "unmask with default fill and axis")
	# slices with means
	sl = slice(*c["s"]); st = abs(sl.step or 1); cut = x[:,sl.start:sl.stop:-1 if (sl.step or 1) < 0 else 1]
	if cut.shape[1]:
		want = np.array([cut[:,i:i+st].mean(1) for i in range(0,cut.shape[1],st)]).T; t.close(utils.slice_downgrade(x,sl), want, "slice_downgrade", rtol=1e-10, atol=1e-13); t.close(utils.slice_downgrade(x.T,sl,axis=0), want.T, "slice_downgrade axis 0", rtol=1e-10, atol=1e-13)
	# broadcasting
	A = tuple(c["a"]); B = tuple(n if r.random() < 0.6 else 1 for n in A)[int(r.integers(0,len(A)+1)):]
	t.eq(utils.broadcast_shape(A,B), np.broadcast_shapes(A,B), "broadcast_shape")
	Bt = tuple(n if r.random() < 0.6 else 1 for n in A)[:int(r.integers(0,len(A)+1))]
	t.eq(utils.broadcast_shape(A,Bt,at=-1), A, "broadcast_shape, axes added at the end")
	a, b = r.standard_normal(A), r.standard_normal(B); args = [a,None,b] if c["none"] else [a,b]
	res = utils.broadcast_arrays(*args); ref = np.broadcast_arrays(a,b)
	if c["none"]: t.true(res[1] is None, "None is passed through"); res = [res[0],res[2]]
	for g, w in zip(res,ref): t.eq(np.asarray(g), w, "broadcast_arrays")
	bt = r.standard_normal(Bt); res = utils.broadcast_arrays(a,bt,at=-1); t.eq(np.asarray(res[1]), np.broadcast_to(bt.reshape(Bt+(1,)*(len(A)-len(Bt))),A), "broadcast_arrays, axes added at the end")
	pa, pb = r.standard_normal((5,)+A), r.standard_normal((7,)+B+(2,)); res = utils.broadcast_arrays(pa,pb,npre=1,npost=[0,1]); O = np.broadcast_shapes(A,B)
	t.eq(np.asarray(res[0]), np.array([np.broadcast_to(v,O) for v in pa]), "broadcast_arrays with leading axes"); t.eq(np.asarray(res[1]), np.array([np.moveaxis(np.array([np.broadcast_to(v[...,i],O) for i in range(2)]),0,-1) for v in pb]), "broadcast_arrays with trailing axes")
