import numpy as np, os, warnings
from harness.core import Prop, rng
from harness import geo, fakempi
from pixell import enmap, tilemap, utils
prop = Prop("P21", assumptions=["the ranks of a distributed map are simulated by threads with an in-process communicator", "binary operations between tile maps with different tiles use the operators, not the numpy functions"])

def gen_geo(d, pre=None):
	return {"ny":d.int(1,9),"nx":d.int(1,9),"ts":[d.int(1,5),d.int(1,5)],"pre":d.choice([[],[],[2],[3],[2,2],[1]]) if pre is None else pre,"res":d.choice([1.,.5]),"off":d.int(0,5)}
def ntile(g): return (-(-g["ny"]//g["ts"][0]))*(-(-g["nx"]//g["ts"][1]))
def gen_active(d, g):
	n = ntile(g); act = [i for i in range(n) if d.bool()]; out = []
	while act: out.append(act.pop(d.int(0,len(act)-1) if d.bool() else 0))
	return out
def wcs_of(g): return geo.make_wcs("car",(g["ny"],g["nx"]),(g["res"],-g["res"]),(0,g["off"]))
def geom(g, act): return tilemap.geometry(tuple(g["pre"])+(g["ny"],g["nx"]),wcs_of(g),tile_shape=tuple(g["ts"]),active=act)
def boxes(g):
	th,tw = g["ts"]; return [(y,min(y+th,g["ny"]),x,min(x+tw,g["nx"])) for y in range(0,g["ny"],th) for x in range(0,g["nx"],tw)]
class Model:
	"""Dense map plus list of active tiles"""
	def __init__(self, g, act, dense): self.g, self.act, self.dense = g, list(act), dense
	def mask(self):
		m = np.zeros((self.g["ny"],self.g["nx"]),bool)
		for a in self.act: y1,y2,x1,x2 = boxes(self.g)[a]; m[y1:y2,x1:x2] = True
		return m
def make(g, act, dense):
	"""Build a tile map by assigning to its tiles"""
	m = tilemap.zeros(geom(g,act),dtype=dense.dtype)
	for i in act: y1,y2,x1,x2 = boxes(g)[i]; m.tiles[i] = dense[...,y1:y2,x1:x2]
	return m
def compare(t, m, mod, msg, order=True):
	g = mod.g; B = boxes(g)
	t.true(isinstance(m,tilemap.TileMap),msg+": not a TileMap"); t.true(m.geometry.nactive==len(mod.act)==m.nactive,msg+": number of active tiles")
	if order: t.eq(m.active,np.array(mod.act,int),msg+": active tiles")
	else: t.eq(np.sort(m.active),np.sort(np.array(mod.act,int)),msg+": active tiles")
	t.true(tuple(m.pre)==mod.dense.shape[:-2] and tuple(m.shape)==mod.dense.shape[:-2]+(int(np.sum(mod.mask())),),msg+": shape %s pre %s for dense %s" % (m.shape,m.pre,mod.dense.shape))
	want = np.where(mod.mask(),mod.dense,np.zeros((),mod.dense.dtype)); full = tilemap.to_enmap(m); t.close(np.asarray(full),want,msg,rtol=1e-12,atol=1e-12); t.true(full.dtype==m.dtype==mod.dense.dtype,msg+": dtype %s instead of %s" % (m.dtype,mod.dense.dtype))
	for k,gi in enumerate(m.active):
		y1,y2,x1,x2 = B[gi]; a = m.tiles[int(gi)]; b = m.active_tiles[k]; t.eq(np.asarray(a),np.asarray(b),msg+": tiles and active_tiles differ"); t.close(np.asarray(a),want[...,y1:y2,x1:x2],msg+": tile",rtol=1e-12,atol=1e-12)
		t.true(np.allclose(a.pix2sky([0,0]),full.pix2sky([y1,x1])),msg+": wcs of tile")

def gen_basic(d): g = gen_geo(d); return {"g":g,"act":gen_active(d,g),"act2":gen_active(d,g),"dtype":d.choice(["float64","float32","int32","complex128"]),"val":d.int(-5,5),"seed":d.seed()}
@prop.law(gen_basic, quick=300, rule="some but not all tiles are active")
def build(c, t):
	g, act = c["g"], c["act"]; r = rng(c["seed"]); n = ntile(g); t.mark_trivial(len(act) in [0,n]); B = boxes(g)
	dense = (r.standard_normal(g["pre"]+[g["ny"],g["nx"]])*10).astype(c["dtype"]); mod = Model(g,act,dense); m = make(g,act,dense); compare(t,m,mod,"assigning tiles"); G = m.geometry
	t.true(G.ntile==n==m.ntile and len(m.tiles)==n and len(m.active_tiles)==len(act),"number of tiles"); t.true(int(G.size)==m.size,"size")
	for i in range(n):
		ty,tx = G.ind2grid(i); t.true(G.grid2ind(ty,tx)==i and (ty*g["ts"][0],tx*g["ts"][1])==B[i][::2],"grid coordinates"); t.eq(G.tile_shapes[i],[B[i][1]-B[i][0],B[i][3]-B[i][2]],"tile_shapes"); t.true(G.npixs[i]==np.prod(G.tile_shapes[i]),"npixs")
		gt = G.tiles[i]; t.true(tuple(gt.shape)==tuple(g["pre"])+tuple(G.tile_shapes[i]),"tile geometry shape")
		t.true((m.tiles[i] is None)==(i not in act) and G.lookup[i]==(act.index(i) if i in act else -1),"inactive tiles")
	it = list(m.tiles); t.true(len(it)==n and all((x is None)==(i not in act) for i,x in enumerate(it)),"iterating over tiles")
	for i,x in enumerate(it):
		if x is not None: t.eq(np.asarray(x),np.asarray(m.tiles[i]),"iterated tile")
	for i,x in enumerate(m.active_tiles): t.eq(np.asarray(x),np.asarray(m.active_tiles[i]),"iterated active tile")
	compare(t,tilemap.from_tiles(it,geom(g,[])),mod if act else Model(g,act,np.zeros(dense.shape)),"from_tiles",order=False)
	if act: compare(t,tilemap.from_active_tiles(list(m.active_tiles),geom({**g,"pre":[7]},act)),mod,"from_active_tiles")
	t.raises(ValueError,lambda: tilemap.from_active_tiles([dense[...,:1,:1]]*(len(act)+1),G),"wrong number of tiles")
	compare(t,tilemap.full(geom(g,act),c["val"],dtype=c["dtype"]),Model(g,act,np.full(dense.shape,c["val"],c["dtype"])),"full"); compare(t,tilemap.zeros(geom(g,act),dtype=c["dtype"]),Model(g,act,dense*0),"zeros")
	# geometry copies
	G2 = G.copy(active=c["act2"]); t.eq(G2.active,np.array(c["act2"],int),"copy(active)"); t.eq(G.active,np.array(act,int),"the original geometry changes")
	G3 = G.copy(add_active=c["act2"]); t.eq(G3.active,np.array(act+[i for i in c["act2"] if i not in act],int),"copy(add_active)")
	for q in [G2,G3]: t.eq(q.lookup,np.array([list(q.active).index(i) if i in q.active else -1 for i in range(n)]),"lookup")
	t.eq(G.copy(active="all").active,np.arange(n),"all tiles"); t.true(tuple(G.copy(pre=(5,)).shape)==(5,g["ny"],g["nx"]),"copy(pre)")
	t.true(G.compatible(G)==2 and G.compatible(G2)==(2 if act==c["act2"] else 1),"compatible"); t.true(G.compatible(geom({**g,"off":g["off"]+1},act))==0 and G.compatible(geom({**g,"ts":[g["ts"][0]+1,g["ts"][1]]},[]))==0,"incompatible geometries")
	w = m.with_tiles(tilemap.zeros(G2)); compare(t,w,Model(g,act+[i for i in c["act2"] if i not in act],np.where(mod.mask(),dense,0).astype(c["dtype"])),"with_tiles")
	w = m.with_tiles(c["act2"],strict=True); compare(t,w,Model(g,c["act2"],np.where(mod.mask(),dense,0).astype(c["dtype"])),"with_tiles strict")
	if w.size: keep = np.array(m); w[:] = 7; t.eq(np.asarray(m),keep,"with_tiles shares memory with the original")
	cp = m.copy(); cp[:] = 3; compare(t,m,mod,"the original after changing a copy")
	for i in act[:2]: m.tiles[i,...,0] = 5; y1,y2,x1,x2 = B[i]; dense[...,y1:y2,x1] = 5; compare(t,m,mod,"assigning part of a tile"); t.eq(np.asarray(m.tiles[i,...,-1:,:]),dense[...,y2-1:y2,x1:x2],"slicing a tile")
	# tiles are views
	for k in range(min(2,len(act))): m.active_tiles[k][...] = k+2; y1,y2,x1,x2 = B[act[k]]; dense[...,y1:y2,x1:x2] = k+2
	compare(t,m,mod,"tiles are views of the map")

OPS = {"add":lambda a,b:a+b,"sub":lambda a,b:a-b,"mul":lambda a,b:a*b,"lt":lambda a,b:a<b,"le":lambda a,b:a<=b,"eq":lambda a,b:a==b,"ne":lambda a,b:a!=b,"ge":lambda a,b:a>=b,"gt":lambda a,b:a>b,"pow":lambda a,b:(a*0+1.5+abs(a))**b,"div":lambda a,b:a/b,"floordiv":lambda a,b:a//b}
IOPS = ["and","or","xor"]
def gen_prog(d):
	g = gen_geo(d); nm = d.int(1,3); maps = [{"act":gen_active(d,g) if d.bool() or k==0 else None,"pre":d.choice([g["pre"],g["pre"],[]])} for k in range(nm)]
	prog = [{"op":d.choice(["bin","bin","bin","ibin","scalar","rscalar","ufunc","insert","with","copy","slice","neg","reduce","arr"]),"a":d.int(0,9),"b":d.int(0,9),"f":d.choice(sorted(OPS)),"v":d.choice([2,-1,3,.5]),"k":d.int(0,5)} for _ in range(d.int(1,6))]
	return {"g":g,"maps":maps,"prog":prog,"int":d.choice([False,False,True]),"seed":d.seed()}
@prop.law(gen_prog, quick=500, rule="two maps have different tiles")
def program(c, t):
	"""A random sequence of operations, mirrored on the dense maps"""
	g, r = c["g"], rng(c["seed"]); dt = "int64" if c["int"] else "float64"; st = []
	for q in c["maps"]:
		act = q["act"] if q["act"] is not None else list(c["maps"][0]["act"]); dense = (r.standard_normal(q["pre"]+[g["ny"],g["nx"]])*4).astype(dt); mod = Model(g,act,None); mod.dense = np.where(Model(g,act,dense).mask(),dense,0).astype(dt); st.append((make({**g,"pre":q["pre"]},act,mod.dense),mod))
	t.mark_trivial(len({tuple(m.act) for _,m in st})<2)
	z = lambda mod: Model(g,mod.act,np.where(mod.mask(),mod.dense,np.zeros((),mod.dense.dtype)))
	for s in c["prog"]:
		i, j = s["a"]%len(st), s["b"]%len(st); (A,ma),(B,mb) = st[i],st[j]; op = s["op"]; f = OPS[s["f"]]; out = None
		if op in ["bin","ibin","insert"]:
			try: bs = np.broadcast_shapes(ma.dense.shape,mb.dense.shape)
			except ValueError: continue
			if op != "bin" and bs != ma.dense.shape: continue
		if op == "bin":
			if s["f"] in ["div","floordiv","pow"] and set(ma.act)!=set(mb.act): f = OPS["mul"]
			if s["f"] in ["div","floordiv"] and f is not OPS["mul"]: B = abs(B)+1; mb = Model(g,mb.act,abs(mb.dense)+1)
			if s["f"] == "pow" and f is not OPS["mul"]: B = B*0+2; mb = Model(g,mb.act,mb.dense*0+2)
			if A.dtype == bool or B.dtype == bool: f = [lambda a,b:a+b,lambda a,b:a*b][s["k"]%2]
			union = ma.act if ma.act == mb.act else sorted(set(ma.act)|set(mb.act)); res = f(A,B)
			with warnings.catch_warnings(), np.errstate(all="ignore"): warnings.simplefilter("ignore"); out = (res,z(Model(g,union,np.asarray(f(ma.dense,mb.dense)))))
			t.label("bin-same" if ma.act==mb.act else "bin-mixed")
			if ma.dense.size: t.close(np.asarray(tilemap.to_enmap(A)),ma.dense,"binary operation changes its operand")
		elif op == "ibin":
			pb = mb.dense.shape[:-2]; pa = ma.dense.shape[:-2]; ok = set(mb.act)<=set(ma.act) or ma.act==mb.act
			if A.dtype == bool or B.dtype == bool or (A.dtype.kind == "i" and B.dtype.kind == "f"): continue
			if not ok and s["b"]%2: A = A.with_tiles(B); ma = Model(g,[int(q) for q in A.active],ma.dense); ok = True; t.label("in-place, other tiles")
			if not ok:
				def bad(): 
					X = A.copy(); X += B
				t.raises(ValueError,bad,"in-place operation that would add tiles"); continue
			if len(pb) > len(pa): continue
			X = A.copy(); dm = ma.dense.copy()
			if s["k"]%3 == 0: X += B; dm += mb.dense
			elif s["k"]%3 == 1: X -= B; dm -= mb.dense
			else: X *= B; dm *= mb.dense
			out = (X,z(Model(g,ma.act,dm))); t.label("in-place")
		elif op in ["scalar","rscalar"]:
			if A.dtype == bool: continue
			v = s["v"]; out = (A*v+1 if op=="scalar" else v-A,Model(g,ma.act,ma.dense*v+1 if op=="scalar" else v-ma.dense))
		elif op == "ufunc":
			if A.dtype == bool: continue
			uf = [np.cos,np.abs,np.square,np.sign][s["k"]%4]; out = (uf(A),Model(g,ma.act,uf(ma.dense)))
		elif op == "neg":
			if A.dtype == bool: continue
			out = (-A,Model(g,ma.act,-ma.dense))
		elif op == "insert":
			pa,pb = ma.dense.shape[:-2],mb.dense.shape[:-2]
			if len(pb) > len(pa): continue
			union = sorted(set(ma.act)|set(mb.act)) ; kw = {} if s["k"]%2 else {"op":lambda a,b:a+2*b}; dd = np.broadcast_to(mb.dense,ma.dense.shape); o2 = dd if s["k"]%2 else ma.dense+2*dd
			rt = np.result_type(A.dtype,B.dtype); before = np.array(A); out = ((A.insert(B,**kw) if s["v"]==2 else tilemap.insert(A,B,**kw)),Model(g,union,np.where(mb.mask(),o2,ma.dense).astype(rt))); t.eq(np.asarray(A),before,"insert modifies omap"); compare(t,out[0],out[1],"insert",order=False); out = (out[0],Model(g,list(out[0].active),out[1].dense))
		elif op == "with": out = (A.with_tiles(B),Model(g,ma.act+[q for q in mb.act if q not in ma.act],ma.dense))
		elif op == "copy": out = (A.copy(),Model(g,ma.act,ma.dense.copy()))
		elif op == "slice":
			if not ma.dense.shape[:-2]: continue
			k = s["k"]%ma.dense.shape[0]; sel = [k,slice(k,None),Ellipsis,slice(None,None,-1)][s["b"]%4]; out = (A[sel],Model(g,ma.act,ma.dense[sel]))
		elif op == "reduce":
			if not ma.dense.shape[:-2] or A.dtype == bool: continue
			out = (A.sum(0),Model(g,ma.act,ma.dense.sum(0)))
		elif op == "arr":
			if A.dtype == bool: continue
			v = np.arange(1,3).reshape((2,)+(1,)*(A.ndim)); out = (A*v,Model(g,ma.act,ma.dense*np.arange(1,3).reshape((2,)+(1,)*ma.dense.ndim))); 
			if A.ndim > 3: continue
		if out is not None:
			out[1].dense = np.where(out[1].mask(),out[1].dense,np.zeros((),out[1].dense.dtype)); compare(t,out[0],out[1],"%s %s" % (op,s["f"] if op=="bin" else "")); st.append(out)
			if np.any(~np.isfinite(out[1].dense.astype(float))) or np.max(np.abs(out[1].dense.astype(float)),initial=0)>1e5: break

def gen_mm(d): g = gen_geo(d,[]); return {"g":g,"act":gen_active(d,g),"n":d.int(1,3),"m":d.int(1,3),"extra":d.choice([[],[2]]),"seed":d.seed()}
@prop.law(gen_mm, quick=100, rule="some tiles are active")
def matmul(c, t):
	g, r = c["g"], rng(c["seed"]); n,k = c["n"],c["m"]; A = r.standard_normal(c["extra"]+[n,k,g["ny"],g["nx"]]); v = r.standard_normal(c["extra"]+[k,g["ny"],g["nx"]]); t.mark_trivial(not c["act"])
	M = make({**g,"pre":c["extra"]+[n,k]},c["act"],A); V = make({**g,"pre":c["extra"]+[k]},c["act"],v); compare(t,tilemap.map_mul(M,V),Model(g,c["act"],np.einsum("...abyx,...byx->...ayx",A,v)),"map_mul")
	s = r.standard_normal([g["ny"],g["nx"]]); S = make({**g,"pre":[]},c["act"],s)
	if n == k and not c["extra"]: compare(t,tilemap.map_mul(S,V),Model(g,c["act"],s*v),"scalar map_mul")

def gen_dist(d):
	g = gen_geo(d); n = d.int(1,4); return {"g":g,"acts":[gen_active(d,g) for _ in range(n)],"oacts":[gen_active(d,g) for _ in range(n)],"mode":d.choice(["auto","active","omap","reduce","write"]),"root":d.int(0,n-1),"dtype":d.choice(["float64","float32","int64"]),"seed":d.seed()}
@prop.law(gen_dist, quick=250, rule="more than one rank, some tile owned")
def distributed(c, t):
	g, r = c["g"], rng(c["seed"]); n = len(c["acts"]); any_act = sorted(set(sum(c["acts"],[]))); t.mark_trivial(n==1 or not any_act); t.label(c["mode"])
	dense = [(r.standard_normal(g["pre"]+[g["ny"],g["nx"]])*10).astype(c["dtype"]) for _ in range(n)]; mods = [Model(g,a,d) for a,d in zip(c["acts"],dense)]
	tot = sum(np.where(m.mask(),m.dense,0) for m in mods).astype(c["dtype"]); f = os.path.join(t.tmpdir,"tile.fits")
	def work(comm):
		k = comm.rank; m = make(g,c["acts"][k],dense[k]); 
		if c["mode"] == "auto": o = tilemap.redistribute(m,comm)
		elif c["mode"] == "active": o = tilemap.redistribute(m,comm,active=c["oacts"][k])
		elif c["mode"] == "omap": buf = tilemap.full(geom(g,c["oacts"][k]),3,dtype=c["dtype"]); o = tilemap.redistribute(m,comm,omap=buf)
		elif c["mode"] == "reduce": o = tilemap.reduce(m,comm,root=c["root"])
		else: o = tilemap.write_map(f,m,comm)
		ga = tilemap.get_active_distributed(m,comm); return m,o,ga
	tol = 1e-4 if c["dtype"]=="float32" else 1e-12
	res = fakempi.run(n,work); seen = []
	for k,(m,o,ga) in enumerate(res):
		t.eq(ga,np.array(any_act,int),"get_active_distributed"); compare(t,m,mods[k],"input after redistribution")
		if c["mode"] == "write": continue
		if c["mode"] in ["active","omap"]: want = c["oacts"][k]
		elif c["mode"] == "reduce": want = any_act if k == c["root"] else []
		else: want = list(o.active); seen += want
		t.eq(o.active,np.array(want,int),"active tiles on rank %d" % k); md = Model(g,want,tot); full = np.asarray(tilemap.to_enmap(o)); t.close(full,np.where(md.mask(),tot,0),"rank %d has the sum over ranks" % k,atol=tol*50,rtol=tol); t.true(o.dtype==np.dtype(c["dtype"]) and tuple(o.pre)==tuple(g["pre"]),"dtype and shape after redistribution")
	if c["mode"] == "auto": t.true(sorted(int(v) for v in seen)==any_act,"every tile ends up on exactly one rank")
	if c["mode"] == "write": w = enmap.read_map(f); t.close(np.asarray(w),tot,"written map",atol=tol*50,rtol=tol); t.true(np.allclose(w.pix2sky([0,0]),enmap.pix2sky((1,1),wcs_of(g),[0,0])),"written wcs")
