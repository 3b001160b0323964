import numpy as np
from harness.core import Prop, rng
from harness import fakempi
from pixell import utils
prop = Prop("P18", assumptions=["range lists passed to range_sub and range_cut do not overlap internally and have no empty ranges, as documented","sboxes passed with a wrap are not longer than the wrap", "redistribute's ranks are simulated by threads"])

def elems(ranges):
	"""Integer ranges -> set of unit cells"""
	s = set()
	for a,b in np.asarray(ranges).reshape(-1,2): s |= set(range(int(a),int(b)))
	return s
def gen_disjoint(d, nmax=6, big=30):
	n = d.int(0,nmax); pts = []; x = d.int(0,4)
	for i in range(n):
		l = d.int(1,5); pts.append([x,x+l]); x += l+d.int(0,4)
	# in any order
	out = []
	while pts: out.append(pts.pop(d.int(0,len(pts)-1)))
	return out

def gen_ranges(d): return {"a":gen_disjoint(d),"b":gen_disjoint(d),"o":[[d.int(-3,20),d.int(-3,20)] for _ in range(d.int(0,7))],"mask":[d.bool() for _ in range(d.int(0,20))],"cuts":sorted(set(d.int(0,30) for _ in range(d.int(0,6))))}
@prop.law(gen_ranges, quick=1200, rule="there are ranges to subtract from and ranges to subtract")
def ranges(c, t):
	a,b,o = c["a"],c["b"],c["o"]; t.mark_trivial(not a or not b)
	mask = np.array(c["mask"],bool); r = utils.mask2range(mask); back = np.zeros(len(mask),bool)
	for i,j in r: t.true(j>i,"mask2range gives an empty range"); back[i:j] = True
	t.eq(back,mask,"mask2range"); t.true(all(r[i+1,0]>r[i,1] for i in range(len(r)-1)),"mask2range ranges are maximal and in order")
	res, rmap, abmap = utils.range_sub(a,b,mapping=True); res = np.asarray(res).reshape(-1,2)
	t.true(elems(res)==elems(a)-elems(b),"range_sub elements"); t.true(len(elems(res))==int(np.sum(res[:,1]-res[:,0])),"range_sub ranges overlap")
	t.true(np.all(res[:,1]>res[:,0]),"empty ranges in range_sub"); t.true(np.all(np.diff(res[:,0])>0),"range_sub is sorted")
	t.true(len(rmap)==len(res),"range_sub mapping length")
	for k,(x,y) in enumerate(res): t.true(a[int(rmap[k])][0]<=x and y<=a[int(rmap[k])][1],"range_sub maps range %d to the wrong input" % k)
	# no range is split needlessly
	for k in range(len(res)-1):
		if rmap[k]==rmap[k+1]: t.true(res[k][1]<res[k+1][0],"range_sub splits a range without cause")
	ab = [int(v) for v in abmap]
	t.true([v for v in ab if v>=0]==list(range(len(res))),"the mapping lists the output ranges in order")
	pos = [(res[v][0] if v>=0 else b[-v-1][0]) for v in ab]; t.true(all(x<y for x,y in zip(pos[:-1],pos[1:])),"the mapping is in order along the number line: %s" % ab)
	for i,(x,y) in enumerate(b):
		if elems([[x,y]]) & elems(a): t.true(-i-1 in ab,"the mapping misses range %d of b" % i)
	t.eq(np.asarray(utils.range_sub(a,b)).reshape(-1,2),res,"range_sub with and without mapping")
	# union
	o2 = [[min(x),max(x)] for x in o]
	u, um = utils.range_union(np.array(o2,int).reshape(-1,2),mapping=True)
	t.true(u.shape[1]==2 and elems(u)==elems(o2),"range_union elements"); t.true(np.all(u[1:,0]>u[:-1,1]),"range_union leaves overlaps")
	for k,(x,y) in enumerate(o2): t.true(u[um[k]][0]<=x and y<=u[um[k]][1],"range_union mapping")
	t.eq(utils.range_union(np.array(o2,int).reshape(-1,2)),u,"range_union without mapping")
	nrm = utils.range_normalize(np.array(o,int).reshape(-1,2)); t.eq(nrm,np.array([x for x in o if x[1]>x[0]],int).reshape(-1,2),"range_normalize")
	if a:
		rc = np.asarray(utils.range_cut(a,np.array(c["cuts"],int))).reshape(-1,2); want = []
		for x,y in sorted(a):
			e = [x]+[q for q in c["cuts"] if x<q<y]+[y]; want += list(zip(e[:-1],e[1:]))
		t.eq(rc,np.array(want,int),"range_cut")

def gen_sb1(d, lo=0, hi=14, neg=True):
	"""sbox with a nonempty set of indices in [lo,hi)"""
	st = d.int(1,4); a = d.int(lo,hi-1); n = d.int(1,(hi-1-a)//st+1)
	idx = [a+i*st for i in range(n)]
	if neg and d.bool(): idx = idx[::-1]; st = -st
	return [idx[0],idx[-1]+st,st]
def slop(d, s, hi):
	"""Equivalent box whose end is not a whole number of steps away"""
	k = d.int(0,abs(s[2])-1); return [s[0],s[1]-k*(1 if s[2]>0 else -1),s[2]]
def idx(s): s = list(s)+[1]*(3-len(s)); return list(range(int(s[0]),int(s[1]),int(s[2])))
def gen_sbox(d):
	n = d.int(1,3)
	return {"a":[slop(d,gen_sb1(d),14) for _ in range(n)],"b":[slop(d,gen_sb1(d),14) for _ in range(n)],"nostep":d.bool(),"c":[[d.int(0,5),d.int(1,5),d.choice([1,1,2,3]),d.bool()] for _ in range(n)],"wrap":[d.choice([0,0,14,15,20]) for _ in range(n)],"ashift":[d.int(-2,2) for _ in range(n)],"bshift":[d.int(-2,2) for _ in range(n)]}
@prop.law(gen_sbox, quick=1500, rule="the intersection is not empty or the step is not one")
def sboxes(c, t):
	a, b = np.array(c["a"]), np.array(c["b"]); nd = len(a); arr = np.arange(16**nd).reshape((16,)*nd)
	if c["nostep"]: a[:,:] = [sorted([s[0],s[0]+len(idx(s))*abs(s[2])])+[1] for s in a]; a[:,1] = np.minimum(a[:,1],14); aa = a[:,:2]
	else: aa = a
	sel = lambda s: arr[np.ix_(*[idx(x) for x in s])]
	t.eq(arr[utils.sbox2slice(aa)],sel(a),"sbox2slice"); t.eq(utils.sbox_size(aa),np.array([len(idx(x)) for x in a]),"sbox_size")
	f = utils.sbox_fix(aa); t.true([idx(x) for x in f]==[idx(x) for x in a],"sbox_fix elements"); t.true((f[:,1]-f[:,0])%f[:,2]==0,"sbox_fix end")
	t.true([idx(x) for x in utils.sbox_flip(f)]==[idx(x)[::-1] for x in a],"sbox_flip")
	# intersection without wrapping
	res = utils.sbox_intersect(aa,b)
	want = [sorted(set(idx(x))&set(idx(y))) for x,y in zip(a,b)]; empty = any(len(w)==0 for w in want)
	t.mark_trivial(empty and np.all(a[:,2]==1))
	if empty: t.true(len(res)==0,"sbox_intersect of disjoint boxes")
	else:
		t.true(len(res)==1 and [idx(x) for x in res[0]]==want,"sbox_intersect %s vs %s" % (res,want))
		# division: what to take of arr[a] to get the intersection
		for bb in [a,b]:
			dv = utils.sbox_div(np.array(res[0]),bb); t.eq(sel(bb)[utils.sbox2slice(dv)],sel(res[0]),"sbox_div"); t.label("div")
	# outer product form
	both = utils.sbox_intersect(np.array([a,b]),np.array([b,a,b])); t.true(both.shape==(2,3),"sbox_intersect of lists")
	t.true([[len(x) for x in r] for r in both]==[[int(not empty),1,int(not empty)],[1,int(not empty),1]],"sbox_intersect of lists")
	# with wrapping
	wrap = c["wrap"]; A, B = a.copy(), b.copy()
	for i,w in enumerate(wrap): A[i,:2] += w*c["ashift"][i]; B[i,:2] += w*c["bshift"][i]
	if any(wrap):
		t.label("wrap"); rw = utils.sbox_intersect(A,B,wrap=wrap); got = set(); tot = 0
		for r in rw:
			cells = np.array(np.meshgrid(*[np.array(idx(x))%(w or 10**6) for x,w in zip(r,wrap)],indexing="ij")).reshape(nd,-1).T; tot += len(cells); got |= set(map(tuple,cells.tolist()))
		wc = set() if empty else set(map(tuple,np.array(np.meshgrid(*want,indexing="ij")).reshape(nd,-1).T.tolist()))
		t.true(got==wc,"sbox_intersect with wrap"); t.true(tot==len(wc),"sbox_intersect with wrap counts elements twice")
	# multiplication: arr[c] = arr[a][b]
	s2 = []
	for x,(st,n,k,rev) in zip(a,c["c"]):
		m = len(idx(x)); st = min(st,m-1); i2 = list(range(st,m,k))[:n]
		if rev: i2, k = i2[::-1], -k
		s2.append([i2[0],i2[-1]+k,k])
	mu = utils.sbox_mul(aa,np.array(s2)); want = [[idx(x)[i] for i in idx(y)] for x,y in zip(a,s2)]
	t.true([idx(x) for x in mu]==want,"sbox_mul: %s*%s gives %s" % (a.tolist(),s2,np.asarray(mu).tolist()))

def gen_wrap(d):
	out = []
	for _ in range(d.int(1,2)):
		w = d.choice([0,0,1,2,5,7,12]); cap = d.choice([0,1,3,7,12])
		if w: cap = min(cap,w); s = gen_sb1(d,-20,25)
		elif cap: s = gen_sb1(d,-8,18)
		else: s = gen_sb1(d,0,12)
		out.append({"s":slop(d,s,0),"w":w,"cap":cap})
	return {"dims":out}
@prop.law(gen_wrap, quick=1200, rule="something is wrapped or capped")
def wrap(c, t):
	D = c["dims"]; nd = len(D); t.mark_trivial(not any(x["w"] or x["cap"] for x in D))
	size = [x["cap"] or x["w"] or 12 for x in D]; arr = np.arange(1,1+np.prod(size)).reshape(size)
	ids = [idx(x["s"]) for x in D]; out = np.zeros([len(i) for i in ids],int); want = out.copy()
	for J in np.ndindex(*want.shape):
		p = [i[j]%x["w"] if x["w"] else i[j] for i,j,x in zip(ids,J,D)]
		if all(0<=q<n for q,n in zip(p,size)): want[J] = arr[tuple(p)]
	hits = np.zeros(out.shape,int)
	for ib,ob in utils.sbox_wrap(np.array([x["s"] for x in D]),wrap=[x["w"] for x in D],cap=[x["cap"] for x in D]):
		out[utils.sbox2slice(np.array(ob))] = arr[utils.sbox2slice(np.array(ib))]; hits[utils.sbox2slice(np.array(ob))] += 1
	t.eq(out,want,"sbox_wrap"); t.true(hits<=1,"sbox_wrap fills elements twice"); t.eq(hits>0,want>0,"sbox_wrap covers the wrong elements")

def gen_redist(d):
	n = d.int(1,4); shape = [d.int(1,8),d.int(1,8)]; w = d.choice([0,0,1,2])
	cuts = [sorted([0,s]+[d.int(1,s-1) for _ in range(d.int(0,2)) if s > 1]) for s in shape]
	return {"n":n,"shape":shape,"cuts":cuts,"owner":[d.int(0,n-1) for _ in range(9)],"pre":d.choice([[],[2],[2,3]]),"dtype":d.choice(["float64","float32","complex128","int32"]),
		"oboxes":[[[gen_sb1(d,0,s) for s in shape] for _ in range(d.int(1,2))] for _ in range(n)],"wrapx":w,"shift":[d.int(-1,1) for _ in range(8)],"seed":d.seed()}
@prop.law(gen_redist, quick=250, rule="more than one rank")
def redistribute(c, t):
	n, shape = c["n"], c["shape"]; t.mark_trivial(n==1)
	g = np.asarray(rng(c["seed"]).standard_normal(c["pre"]+shape)*10).astype(c["dtype"])
	if len(c["pre"]) != 0 and c["dtype"] == "complex128": g = g+1j*g
	# Cut the global array into tiles owned by different ranks
	tiles = [[[y0,y1,1],[x0,x1,1]] for y0,y1 in zip(c["cuts"][0][:-1],c["cuts"][0][1:]) for x0,x1 in zip(c["cuts"][1][:-1],c["cuts"][1][1:]) if y1>y0 and x1>x0]
	own = [[b for i,b in enumerate(tiles) if c["owner"][i]==k] for k in range(n)]
	if any(len(o)==0 for o in own): own = [tiles if k==0 else [tiles[0]] for k in range(n)]  # every rank must have something; duplicates carry the same data
	wrap = [0,0]; shifts = np.zeros((n,2),int)
	if c["wrapx"]: t.label("wrap"); wrap = [0,shape[1]] if c["wrapx"]==1 else list(shape)
	ob = [[[list(s) for s in b] for b in bs] for bs in c["oboxes"]]; k = 0
	for bs in ob:
		for b in bs:
			for ax in range(2):
				if wrap[ax]: b[ax][0] += wrap[ax]*c["shift"][k%8]; b[ax][1] += wrap[ax]*c["shift"][k%8]; k += 1
	def work(comm):
		ib = np.array(own[comm.rank]); ia = [np.ascontiguousarray(g[(Ellipsis,)+np.ix_(idx(b[0]),idx(b[1]))]) for b in ib]
		return utils.redistribute(ia,ib,np.array(ob[comm.rank]),comm,wrap=wrap if any(wrap) else 0)
	res = fakempi.run(n,work)
	for k in range(n):
		for i,b in enumerate(ob[k]):
			ys = np.array(idx(b[0]))%(wrap[0] or 10**6); xs = np.array(idx(b[1]))%(wrap[1] or 10**6)
			t.eq(res[k][i],g[(Ellipsis,)+np.ix_(ys,xs)],"redistribute rank %d box %s" % (k,b))

def gen_gather(d):
	n = d.int(1,4); return {"lens":[d.int(0,4) for _ in range(n)],"other":[d.int(1,3) for _ in range(d.int(0,2))],"axis":d.int(0,2),"dtype":d.choice(["float64","int32","bool","S3","complex64"]),"seed":d.seed()}
@prop.law(gen_gather, quick=200, rule="more than one rank has data")
def gather(c, t):
	n = len(c["lens"]); t.mark_trivial(sum(l>0 for l in c["lens"])<2); ax = min(c["axis"],len(c["other"])); r = rng(c["seed"])
	arrs = [(r.integers(0,100,size=c["other"][:ax]+[l]+c["other"][ax:])-50).astype(c["dtype"]) for l in c["lens"]]
	if c["dtype"] != "S3":
		for k,o in enumerate(fakempi.run(n,lambda comm: utils.allgatherv(arrs[comm.rank],comm,axis=ax))):
			t.eq(o,np.concatenate(arrs,ax),"allgatherv rank %d" % k)
	same = [np.resize(np.concatenate([a.reshape(-1),np.array([k,-k]).astype(c["dtype"])]),[2,3]) for k,a in enumerate(arrs)]
	if c["dtype"] != "bool":
		for o in fakempi.run(n,lambda comm: utils.allgather(same[comm.rank],comm)): t.eq(o,np.array(same),"allgather")
	if c["dtype"] in ["float64","int32","complex64"]:
		for o in fakempi.run(n,lambda comm: utils.allreduce(same[comm.rank],comm)): t.close(o,np.sum(same,0),"allreduce",rtol=1e-6)
		for k,o in enumerate(fakempi.run(n,lambda comm: utils.reduce(same[comm.rank],comm,root=n-1))):
			if k==n-1: t.close(o,np.sum(same,0),"reduce",rtol=1e-6)
			else: t.true(o is None,"reduce on other ranks")
	def ring(comm):
		utils.send(arrs[comm.rank],comm,dest=(comm.rank+1)%n,tag=3); return utils.recv(comm,source=(comm.rank-1)%n,tag=3)
	for k,o in enumerate(fakempi.run(n,ring)): t.eq(o,arrs[(k-1)%n],"send and recv"); t.true(o.dtype==arrs[0].dtype,"send and recv dtype")

def gen_oslice(d, n):
	o = lambda: None if d.bool() else d.int(-n-2,n+2)
	return [o(),o(),d.choice([None,1,1,2,3,-1,-2,-3])]
def gen_slices(d):
	nd = d.int(1,4); shape = [d.int(1,5) for _ in range(nd)]; k = d.int(0,nd); sel = [("s",gen_oslice(d,5)) for _ in range(k)]
	for _ in range(d.int(0,2)): sel.insert(d.int(0,len(sel)),("n",0))
	if d.bool(): sel.insert(d.int(0,len(sel)),("e",0))
	cut = d.int(0,nd)
	return {"shape":shape,"sel":sel,"nd":[cut,nd-cut],"n":d.int(0,9),"sl":gen_oslice(d,9),"ax":d.int(-nd,nd-1),"seed":d.seed(),"nowrap":[d.int(0,8),d.int(0,8),d.choice([None,1,2,-1,-2])]}
@prop.law(gen_slices, quick=800, rule="some slice is given")
def slices(c, t):
	sel = tuple({"s":slice(*v) if k=="s" else None,"n":None,"e":Ellipsis}[k] for k,v in c["sel"]); t.mark_trivial(not c["sel"])
	arr = rng(c["seed"]).standard_normal(c["shape"]); want = arr[sel]
	parts = utils.split_slice(sel if len(sel) != 1 else sel[0],c["nd"]); t.true(len(parts)==2,"split_slice parts")
	t.true(all(sum(v is not None for v in p)<=n for p,n in zip(parts,c["nd"])),"split_slice gives too many indices to a part")
	# The pieces applied one after another
	n1 = sum(v is None for v in parts[0]); first = arr[parts[0]+(slice(None),)*(c["nd"][0]-sum(v is not None for v in parts[0]))]
	t.eq(first[(slice(None),)*(c["nd"][0]+n1)+parts[1]],want,"split_slice")
	n = c["n"]; s = slice(*c["sl"]); e = utils.expand_slice(s,n)
	t.true(list(range(e.start,e.stop,e.step))==list(range(n))[s],"expand_slice"); t.true(None not in [e.start,e.stop,e.step],"expand_slice leaves defaults")
	a,b,k = c["nowrap"]; e = utils.expand_slice(slice(a,b,k),n,nowrap=True); t.true((e.start,e.stop,e.step)==(a,b,k or 1),"expand_slice nowrap")
	e = utils.expand_slice(slice(None,None,k),n,nowrap=True); t.true(list(range(e.start,e.stop,e.step))==list(range(n))[slice(None,None,k)],"expand_slice nowrap defaults")
	ax = c["ax"]; d = utils.slice_downgrade(arr,s,axis=ax); m = np.moveaxis(arr,ax,0); st = s.step or 1
	m = m[slice(s.start,s.stop,-1 if st<0 else 1)]; st = abs(st); blocks = [np.mean(m[i:i+st],0) for i in range(0,len(m),st)]
	w = np.array(blocks) if blocks else m
	t.close(d,np.moveaxis(w,0,ax),"slice_downgrade",atol=1e-12)
	txt = "[" + ",".join("..." if k=="e" else "None" if k=="n" else ":".join("" if x is None else str(x) for x in v[:2])+("" if v[2] is None else ":%d"%v[2]) for k,v in c["sel"]) + "]"
	if c["sel"]:
		p = utils.parse_slice(txt); p = p if isinstance(p,tuple) else (p,); t.true(p==sel,"parse_slice(%s)" % txt)

def gen_boxes(d):
	nd = d.int(1,3); box = lambda: [[d.int(-9,9) for _ in range(nd)],[d.int(-9,9) for _ in range(nd)]]
	return {"nd":nd,"a":[box() for _ in range(d.int(1,3))],"b":[box() for _ in range(d.int(1,3))],"flat":d.bool(),"m":d.float(0,2),"rel":d.bool(),"isint":d.bool(),"pad":[d.float(-.4,3) for _ in range(nd)],"nper":d.int(2,4),"r":[[d.float(-20,20) for _ in range(nd)] for _ in range(2)],"nwrap":d.choice([1.,2*np.pi,360.])}
@prop.law(gen_boxes, quick=800, rule="box has nonzero size")
def boxes(c, t):
	nd = c["nd"]; a = np.array(c["a"],float); b = np.array(c["b"],float); t.mark_trivial(np.any(a[:,0]==a[:,1]))
	sa, sb = np.sort(a,1), np.sort(b,1)
	want = np.array([[np.prod([max(0,min(x[1][i],y[1][i])-max(x[0][i],y[0][i])) for i in range(nd)]) for y in sb] for x in sa])
	if c["flat"]: sa1, want = sa[0], want[0]
	else: sa1 = sa
	t.close(utils.box_overlap(sa1,sb),want,"box_overlap",atol=1e-9); t.close(utils.box_overlap(sa1,sb[0]),want[...,0],"box_overlap with a single box",atol=1e-9)
	sl = utils.box_slice(sa1,sb); t.true(sl.shape==sa1.shape[:-2]+sb.shape[:-2]+(2,nd),"box_slice shape")
	base = sa1[...,0,:][...,None,:]
	t.close(sl[...,0,:],np.clip(sb[:,0]-base,0,(sa1[...,1,:]-sa1[...,0,:])[...,None,:]),"box_slice start",atol=1e-12); t.close(sl[...,1,:],np.clip(sb[:,1]-base,0,(sa1[...,1,:]-sa1[...,0,:])[...,None,:]),"box_slice end",atol=1e-12)
	t.close(utils.box_area(a),np.prod(np.abs(a[:,1]-a[:,0]),-1),"box_area",atol=1e-9)
	t.eq(utils.bounding_box(sa),np.array([sa[:,0].min(0),sa[:,1].max(0)]),"bounding_box"); t.eq(utils.bounding_box(a.reshape(-1,nd)),np.array([a.reshape(-1,nd).min(0),a.reshape(-1,nd).max(0)]),"bounding_box of points")
	co = utils.box2corners(a[0]); want = {tuple(a[0][(k>>i)&1][i] for i in range(nd)) for k in range(2**nd)}
	t.true(set(map(tuple,co.tolist()))==want and len(co)==2**nd,"box2corners")
	ct = utils.box2contour(a[0],c["nper"]); t.true(want<=set(map(tuple,ct.tolist())),"box2contour includes the corners")
	on = np.sum((ct==a[0][0])|(ct==a[0][1]),-1)>=nd-1; t.true(on&np.all((ct>=sa[0][0]-1e-9)&(ct<=sa[0][1]+1e-9),-1),"box2contour points are on the edges"); t.true(len(ct)==nd*2**(nd-1)*c["nper"],"box2contour number of points")
	# Widening. The box grows by the margin in total, or by the pad on each side, in whatever direction it is listed
	box = np.array(c["a"][0]) if c["isint"] else a[0]
	w = utils.widen_box(box,c["m"],relative=c["rel"]); sgn = np.where(a[0][1]<a[0][0],-1,1); mar = c["m"]*(np.abs(a[0][1]-a[0][0]) if c["rel"] else 1)
	t.close(w,np.array([a[0][0]-sgn*mar/2,a[0][1]+sgn*mar/2]),"widen_box of %s with margin %g relative %d" % (a[0].tolist(),c["m"],c["rel"]),atol=1e-9)
	t.close(utils.widen_box(a[0][:,0],c["m"],relative=c["rel"]),w[:,0],"widen_box in 1d",atol=1e-9)
	sg = np.sign(a[:,1]-a[:,0]); pad = np.array(c["pad"])
	p = utils.pad_box(a,pad); t.close(p,np.array([a[:,0]-sg*pad,a[:,1]+sg*pad]).transpose(1,0,2),"pad_box",atol=1e-12)
	r = np.array(c["r"]); u = utils.unwrap_range(r.copy(),c["nwrap"]); n = c["nwrap"]
	for i in range(2): t.close(np.round((u[i]-r[i])/n),(u[i]-r[i])/n,"unwrap_range moves by whole periods",atol=1e-9)
	t.true((u[1]-u[0]>=-1e-9)&(u[1]-u[0]<=n+1e-9),"unwrap_range length"); t.true((u[1]>=-1e-9)&(u[1]<=n+1e-9),"unwrap_range position")
