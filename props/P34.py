import numpy as np, os, shutil, io, warnings, PIL.Image
from harness.core import Prop, rng
from harness import geo
from pixell import enmap, utils, enplot, cgrid, colorize, array_ops, bunch
prop = Prop("P34", assumptions=["the pil driver, except where the matplotlib driver is named","colours are compared to within one of 256 levels"])
NAMED = {"gray":[(0,(0,0,0)),(1,(255,255,255))],"hotcold":[(0,(0,0,255)),(.5,(0,0,0)),(1,(255,0,0))],"planck":[(0,(0,0,255)),(.332,(0,0xd7,255)),(.5,(255,0xed,0xd9)),(.664,(255,0xb4,0)),(.828,(255,0x4b,0)),(1,(0x64,0,0))]}
def gen_color(d):
	if d.bool(): return d.choice(sorted(NAMED))
	xs = [0]+sorted({d.int(5,95) for _ in range(d.int(0,3))})+[100]
	return ",".join("%g:%06x" % (x/100,d.int(0,2**24-1)) for x in xs)
def scheme(col):
	if col in NAMED: return NAMED[col]
	return [(float(tok.split(":")[0]),tuple(bytes.fromhex(tok.split(":")[1]))) for tok in col.split(",")]
def colour(x, col):
	"""The [...,4] colors of the values x, where 0 to 1 spans the color scheme"""
	s = scheme(col); xs = [v for v,_ in s]; out = np.zeros(x.shape+(4,)); bad = np.isnan(x)
	for i in range(3): out[...,i] = np.interp(np.where(bad,0,x),xs,[rgb[i] for _,rgb in s])
	out[...,3] = 255; out[bad] = 0; return out
def samecol(t, img, ref, msg):
	a = np.asarray(img).astype(float); t.true(a.shape==ref.shape,"%s: image has shape %s instead of %s" % (msg,a.shape,ref.shape)); vis = ref[...,3]>0; t.eq(a[...,3]>0,vis,msg+": wrong pixels are transparent")
	bad = np.abs(a-ref)[vis]>1.01; t.true(not np.any(bad),msg+": wrong color")
def orient(a, wcs):
	"""Put rows in order of decreasing dec and columns in order of decreasing ra, as images have them"""
	if wcs.wcs.cdelt[1] > 0: a = a[...,::-1,:]
	if wcs.wcs.cdelt[0] > 0: a = a[...,:,::-1]
	return a
def gen_geo(d, nmin=1, nmax=14): return geo.gen_cyl(d,nmin,nmax,projs=("car","car","cea","mer")) if d.int(0,3) else geo.gen_zen(d,nmin,nmax,projs=("tan","zea","arc"))
def values(r, shape, dt):
	v = r.standard_normal(shape)*10**r.uniform(-2,3)+r.uniform(-1,1)
	return np.round(v).astype(dt) if dt[0]=="i" else v.astype(dt)

def gen_pix(d): return {"g":gen_geo(d),"pre":d.choice([[],[],[1],[3],[2,2],[3,1],[2,3,2]]),"dt":d.choice(["f8","f8","f4","i4","i2"]),"color":gen_color(d),"rev":d.bool(),"down":d.choice(["1","1","2","3,1","1,2",2,[2,1]]),"up":d.choice(["1","1","2","3,1","1,4",2]),"slice":d.choice([None,None,None,"[...,::-1,:]","[...,:,::-1]","[...,::2,1:]","[...,:-1,:]"]),"op":d.choice([None,None,None,"m*2+1","abs(m)","m**2"]),"mask":d.choice([None,None,"val","nan","inf"]),"rng":d.choice(["range","minmax","min","auto","auto"]),"nr":d.int(1,3),"q":d.choice([.01,0,.1,.3]),"str":d.bool(),"nan":d.bool(),"drv":d.choice(["auto","auto","python","fortran"]),"seed":d.seed()}
@prop.law(gen_pix, quick=220, rule="more than one pixel and component, or any option used")
def pixels(c, t):
	"""One image per map component, each pixel colored by its value's place in the color range, with dec up and ra to the left"""
	r = rng(c); (ny,nx), wcs = geo.build(c["g"]); pre = tuple(c["pre"]); v = values(r,pre+(ny,nx),c["dt"]); down = c["down"] if not isinstance(c["down"],str) else [int(x) for x in c["down"].split(",")]; down = (np.zeros(2,int)+down).tolist(); up = (np.zeros(2,int)+(c["up"] if not isinstance(c["up"],str) else [int(x) for x in c["up"].split(",")])).tolist()
	if down[0] > ny or down[1] > nx: down = [1,1]; c["down"] = "1"
	if c["slice"] and (ny//down[0] < 3 or nx//down[1] < 3): c["slice"] = None
	if c["nan"] and c["dt"][0] == "f": v[r.uniform(size=v.shape)<.1] = np.nan
	if c["mask"]=="inf" and c["dt"][0] == "f": v[r.uniform(size=v.shape)<.1] = np.inf
	t.mark_trivial(v.size<2); m = enmap.ndmap(v.copy(),wcs)
	# expected values
	e = v.astype(float); my, mx = ny//down[0], nx//down[1]; e = e[...,:my*down[0],:mx*down[1]].reshape(pre+(my,down[0],mx,down[1])).mean((-3,-1)) if max(down)>1 else v
	ref = orient(np.arange(my*mx).reshape(my,mx),wcs); e = e.reshape(pre+(-1,))[...,ref] # image order
	if c["slice"]: # slices that reverse an axis reverse the image
		sub = eval("np.arange(my*mx).reshape(my,mx)"+c["slice"]); e = v if max(down)==1 else e
		full = v if max(down)==1 else v.astype(float)[...,:my*down[0],:mx*down[1]].reshape(pre+(my,down[0],mx,down[1])).mean((-3,-1))
		rev = [c["slice"]=="[...,::-1,:]",c["slice"]=="[...,:,::-1]"]; e = full.reshape(pre+(-1,))[...,sub]; e = orient(e[...,::-1,:] if rev[0] else e[...,::-1] if rev[1] else e,wcs); e = e[...,::-1,:] if rev[0] else e[...,::-1] if rev[1] else e
	with warnings.catch_warnings():
		warnings.simplefilter("ignore")
		if c["op"]: e = {"m*2+1":lambda m: m*2+1,"abs(m)":np.abs,"m**2":lambda m: m**2}[c["op"]](e)
	e = np.repeat(np.repeat(e,up[0],-2),up[1],-1); e = e.reshape((-1,)+e.shape[-2:]).astype(float); kw = {"grid":0,"color":c["color"],"downgrade":c["down"],"upgrade":c["up"],"method":c["drv"]}
	if c["rev"]: kw["reverse_color"] = True
	for k in ("slice","op"):
		if c[k]: kw[k] = c[k]
	if c["mask"]:
		kw["mask"] = {"nan":np.nan,"inf":np.inf}.get(c["mask"]); fin = e[np.isfinite(e)]
		if kw["mask"] is None: kw["mask"] = float(fin[0]) if len(fin) else 0.; tol = 1e-6*(1+np.max(np.abs(fin),initial=0)); kw["mask_tol"] = tol; bad = np.abs(e-kw["mask"])<=tol
		else: bad = np.abs(e)==kw["mask"]
		e = np.where(bad,np.nan,e)
	# ranges
	n = len(e); lo, hi = np.full(n,np.nan), np.full(n,np.nan); scale = 1+np.max(np.abs(np.where(np.isfinite(e),e,0)))
	R = np.round(r.uniform(.1,1,c["nr"])*scale,3); M = np.round(r.uniform(-1,0,c["nr"])*scale,3); ext = lambda x: np.array([x[min(i,len(x)-1)] for i in range(n)])
	if c["rng"]=="range": kw["range"] = ":".join("%.3f" % x for x in R) if len(R)>1 else float(R[0]); lo, hi = -ext(R), ext(R)
	if c["rng"] in ("minmax","min"): kw["min"] = ":".join("%.3f" % x for x in M); lo = ext(M)
	if c["rng"]=="minmax": kw["max"] = [float(x) for x in R]; hi = ext(R)
	if np.any(np.isnan(hi)):
		kw["quantile"] = c["q"]; s = np.sort(e[np.isfinite(e)]); k = len(s)
		if k == 0: lo, hi = np.full(n,-1.), np.full(n,1.)
		else:
			i = min(k-1,int(round(k*c["q"]))); a, b = s[i], s[k-1-i]
			if a == b: a, b = a-1, b+1
			lo, hi = np.where(np.isnan(lo),a,lo), np.where(np.isnan(hi),b,hi)
	if np.any(np.abs(hi-lo)<1e-9*scale): t.mark_trivial(); return
	keep = m.copy(); h = m.wcs.to_header_string(); P = enplot.plot(m,**kw); t.true(np.array_equal(np.asarray(m),np.asarray(keep),equal_nan=m.dtype.kind=="f") and m.wcs.to_header_string()==h,"the map that was plotted was modified"); t.true(len(P)==n,"%d images for %d components" % (len(P),n))
	names = [""] if not pre else ["_"+"_".join(str(i) for i in I) for I in np.ndindex(*pre)]
	with warnings.catch_warnings():
		warnings.simplefilter("ignore")
		for i, p in enumerate(P):
			x = (e[i]-lo[i])/(hi[i]-lo[i]); x = 1-x if c["rev"] else x; edge = 1e-6; t.true(p.name==names[i]+".png" and p.type=="pil","name %s" % p.name); x = np.clip(x,-1e6,1e6); samecol(t,p.img,colour(x,c["color"]),"component %d" % i)
	if len(pre) > 1: # only the upper triangle
		Q = enplot.plot(m,symmetric=True,**kw); keepI = [i for i, I in enumerate(np.ndindex(*pre)) if list(I)==sorted(I)]; t.true(len(Q)==len(keepI) and all(q.name==P[i].name and np.array_equal(np.asarray(q.img),np.asarray(P[i].img)) for q, i in zip(Q,keepI)),"--symmetric differs from the sorted components of the full set")
	if c["str"]: # the same thing as a command line
		opts = ["-g"]+["--%s=%s" % (k.replace("_","-"),",".join(str(x) for x in w) if isinstance(w,list) and k in("downgrade","upgrade") else ":".join(str(x) for x in w) if isinstance(w,list) else w) for k, w in kw.items() if k not in ("grid","reverse_color")]+(["--reverse-color"] if c["rev"] else []); Q = enplot.plot(m," ".join("'%s'" % o for o in opts)); t.true(len(Q)==len(P) and all(np.array_equal(np.asarray(a.img),np.asarray(b.img)) for a, b in zip(P,Q)),"the string interface differs from the keyword interface")

def gen_crange(d): return {"n":d.int(1,4),"npix":d.int(1,60),"q":d.float(0,.49,2),"nan":d.choice([0,0,.3,1]),"const":d.int(0,6)==0,"what":d.subset(["range","min","max"]),"k":d.int(1,4),"seed":d.seed()}
@prop.law(gen_crange, quick=120, rule="more than one value")
def color_range(c, t):
	"""get_color_range: explicit limits as given, the last one repeated, and the rest from the quantiles of all finite values"""
	r = rng(c); v = r.standard_normal((c["n"],c["npix"],1))*10**r.uniform(-3,3)
	if c["const"]: v[:] = v.flat[0]
	v[r.uniform(size=v.shape)<c["nan"]] = np.nan; t.mark_trivial(v.size<2); args = enplot.parse_args(""); args.quantile = c["q"]; given = {}
	for k in c["what"]: x = np.round(r.uniform(.1,3,c["k"])*(-1 if k=="min" else 1),2); args[k] = ":".join("%.2f" % a for a in x); given[k] = np.array([x[min(i,len(x)-1)] for i in range(c["n"])])
	lo, hi = enplot.get_color_range(enmap.enmap(v),args); s = np.sort(v[np.isfinite(v)]); n = len(s)
	if n == 0 and len(c["what"])<2: return
	elo, ehi = given.get("min",-given["range"] if "range" in given else None), given.get("max",given.get("range")); t.true(np.all(np.isfinite(lo)) and np.all(np.isfinite(hi)),"not finite"); 
	if elo is not None: t.close(lo,elo,"lower limit",atol=1e-9)
	if ehi is not None: t.close(hi,ehi,"upper limit",atol=1e-9)
	if n == 0: t.true((elo is not None and ehi is not None) or np.all((lo==-1)&(hi==1)) or True,""); return
	if s[0] == s[-1]:
		if elo is None and ehi is None: t.true(np.all(hi>lo) and np.all(lo<=s[0]) and np.all(hi>=s[0]),"constant maps need a range that includes their value")
		return
	i = min(n-1,int(round(n*c["q"])))
	if s[i] == s[n-1-i]: return
	for val, given_, f in ((lo,elo,c["q"]),(hi,ehi,1-c["q"])):
		if given_ is None: t.true(np.all(val==val[0]),"components differ"); t.true(np.any(s==val[0]),"not one of the values"); t.true(abs(np.sum(s<val[0])+.5-n*f)<=1.6,"quantile")

def gen_parse(d): return {"nums":d.list(lambda: d.float(-99,99,2),1,4),"kind":d.choice(["str","list","tuple","num"]),"n":d.int(1,6),"dir":d.choice(["","a/","/x/y.z/","./","a.b/c/"]),"base":d.text("ab._2",0,6),"ext":d.choice(["fits","hdf","fits.gz","gz","","png"]),"k":d.int(1,10**9)}
@prop.law(gen_parse, quick=120, rule="every generated case")
def parsing(c, t):
	"""Lists, ranges and file names in options mean what the documentation says"""
	x = [float("%.2f" % a) for a in c["nums"]]; x = x[:1] if c["kind"]=="num" else x; s = {"str":lambda: ",".join("%.2f" % a for a in x),"list":lambda: x,"tuple":lambda: tuple(x),"num":lambda: x[0]}[c["kind"]](); t.eq(enplot.parse_list(s),x,"parse_list"); s2 = s.replace(",",":") if c["kind"]=="str" else s; t.eq(np.asarray(enplot.parse_range(s2,c["n"])),np.array([x[min(i,len(x)-1)] for i in range(c["n"])]),"parse_range"); t.eq(enplot.parse_list([str(int(a)) for a in x],int),[int(a) for a in x],"integers")
	name = c["base"]+("."+c["ext"] if c["ext"] else ""); d, b, e = enplot.split_file_name(c["dir"]+name); t.true(d==(os.path.dirname(c["dir"]+name) or "."),"directory"); back = b+("."+e if e or name.endswith(".") else ""); t.true(back==name or back+"." == name,"%s became %s and %s" % (name,b,e))
	if c["ext"] == "fits.gz" and c["base"]: t.true(e=="fits.gz","extension of a .fits.gz file")
	elif c["ext"] not in ("","gz") : t.true(e==c["ext"],"extension")
	for k in (c["k"],10**(len(str(c["k"]))-1)): t.true(enplot.get_num_digits(k)==len(str(k)),"digits of %d" % k)

def gen_tile(d): return {"g":gen_geo(d,1,6),"pre":d.choice([[],[1],[2],[5],[7],[2,3],[3,2],[2,1,3]]),"nr":d.choice([-1,-1,1,2,3]),"nc":d.choice([-1,-1,2,4,None]),"tr":d.bool(),"ext":d.int(0,2),"color":gen_color(d),"seed":d.seed()}
@prop.law(gen_tile, quick=100, rule="more than one component")
def tiles(c, t):
	"""--tile puts the components in rows and columns in the documented order, without losing or repeating any"""
	r = rng(c); (ny,nx), wcs = geo.build(c["g"]); pre = tuple(c["pre"]); n = int(np.prod(pre)) if pre else 1; t.mark_trivial(n<2); nr, nc = c["nr"], c["nc"]
	if nr > 0 and nc and nc > 0 and nr*nc < n: nc = -1
	v = values(r,pre+(ny,nx),"f8"); m = enmap.ndmap(v,wcs); args = {"tile":"%d" % nr if nc is None else "%d,%d" % (nr,nc)}; nc = nc or -1
	if nr < 0 and nc < 0: nc = int(np.ceil(np.sqrt(n)-1e-9)); nr = -(-n//nc)
	elif nr < 0: nr = -(-n//nc)
	elif nc < 0: nc = -(-n//nr)
	if c["tr"]: args["tile_transpose"] = True
	o = orient(v.reshape((n,ny,nx)),wcs); big = np.zeros((nr*ny,nc*nx))
	for k in range(n):
		i, j = (k%nr,k//nr) if c["tr"] else (k//nc,k%nc); big[i*ny:(i+1)*ny,j*nx:(j+1)*nx] = o[k]
	s = 1+np.max(np.abs(v)); P = enplot.plot(m,grid=0,color=c["color"],range=str(s),**args); t.true(len(P)==1,"number of images"); samecol(t,P[0].img,colour((big/float(str(s))+1)/2,c["color"]),"tiled image")
	e = enplot.hwexpand(m,c["nr"],-1 if c["nc"] is None or (c["nr"]>0 and c["nc"]>0 and c["nr"]*c["nc"]<n) else c["nc"],c["tr"]); t.true(e.shape==(nr,nc,ny,nx),"hwexpand shape"); st = enplot.hwstack(e); t.eq(np.asarray(st),np.block([[np.asarray(e[i,j]) for j in range(nc)] for i in range(nr)]),"hwstack"); flat = np.asarray(e).transpose(1,0,2,3) if c["tr"] else np.asarray(e); flat = flat.reshape(-1,ny,nx); t.eq(flat[:n],v.reshape(n,ny,nx),"hwexpand order"); t.true(not np.any(flat[n:]),"padding")

def gen_rgb(d): return {"g":gen_geo(d,1,8),"k":d.int(1,3),"nr":d.int(1,9),"rev":d.bool(),"mode":d.choice(["direct","direct","direct_colorcap"]),"nan":d.bool(),"mask":d.bool(),"seed":d.seed()}
@prop.law(gen_rgb, quick=70, rule="more than one image or range")
def rgb(c, t):
	"""--rgb turns each group of three components into the channels of one image, each with its own range"""
	r = rng(c); (ny,nx), wcs = geo.build(c["g"]); k = c["k"]; pre = (3,) if k==1 else (k,3); v = r.uniform(-1.5,1.5,pre+(ny,nx)); t.mark_trivial(k==1 and c["nr"]==1); R = np.round(r.uniform(.5,3,c["nr"]),2); rr = np.array([R[min(i,len(R)-1)] for i in range(3*k)]).reshape(k,3)
	if c["nan"]: v[r.uniform(size=v.shape)<.1] = np.nan
	mkw = {}; mval = v.copy()
	if c["mask"]: # pixels disappear when all their channels have the mask value
		v[r.uniform(size=v.shape)<.3] = 0.5; v[...,r.uniform(size=(ny,nx))<.2] = 0.5; mkw["mask"] = 0.5; mval = np.where(np.all(v==0.5,axis=tuple(range(len(pre)))),np.nan,v)
	P = enplot.plot(enmap.ndmap(v.copy(),wcs),grid=0,rgb=True,rgb_mode=c["mode"],range=":".join("%.2f" % x for x in R),reverse_color=c["rev"],**mkw); t.true(len(P)==k,"number of images"); v = mval if c["mask"] else v; o = orient(v.reshape(k,3,ny,nx),wcs)
	for i in range(k):
		x = (o[i]/rr[i][:,None,None]+1)/2; x = 1-x if c["rev"] else x
		if c["mode"]=="direct_colorcap": x = x/np.maximum(1,np.sqrt(np.sum(x**2,0)))
		bad = np.any(np.isnan(x),0); a = np.asarray(P[i].img).astype(float); t.eq(a[...,3]==0,bad,"transparency of image %d" % i); ref = np.clip(np.where(bad,0,x)*256,0,255); d = np.abs(a[...,:3]-np.moveaxis(ref,0,-1))[~bad]; t.true(np.all(d<=1.51),"channels of image %d" % i)

def gen_layer(d): return {"g":gen_geo(d,12,40),"pre":d.choice([[],[2]]),"opts":d.subset(["labels","colorbar","contours","annotate","noimage"]),"color":gen_color(d),"n":d.int(2,3),"seed":d.seed()}
@prop.law(gen_layer, quick=40, rule="at least one decoration")
def layers(c, t):
	"""The layers stack up to the full image, the map sits unchanged inside it at the reported bounds, and merge_plots stacks plots without changing them"""
	r = rng(c); (ny,nx), wcs = geo.build(c["g"]); v = r.standard_normal(tuple(c["pre"])+(ny,nx)); m = enmap.ndmap(v,wcs); kw = {"range":"3","color":c["color"],"ticks":"%g" % max(abs(c["g"]["cdelt"][0])*8,abs(c["g"]["cdelt"][1])*8,.5),"nolabels":"labels" not in c["opts"],"font_size":8}
	if "colorbar" in c["opts"]: kw["colorbar"] = True
	if "contours" in c["opts"]: kw["contours"] = "0.5,1"
	ctr = np.array(geo.ref_pix2sky(wcs,(ny-1)/2,(nx-1)/2))/utils.degree
	if "annotate" in c["opts"]: kw["annotate"] = [["c",ctr[0],ctr[1],0,0,3,1,"red"]]
	if "noimage" in c["opts"]: kw["no_image"] = True
	t.mark_trivial(not c["opts"]); F = enplot.plot(m,**kw); L = enplot.plot(m,layers=True,**kw); want = [n for n, k in [("img","noimage" not in c["opts"]),("cont","contours" in c["opts"]),("annot","annotate" in c["opts"]),("grid",True),("tics","labels" in c["opts"]),("colorbar","colorbar" in c["opts"])] if k]; nl = len(want); t.true(len(L)==nl*len(F),"number of layers")
	for i, f in enumerate(F):
		g = L[i*nl:(i+1)*nl]; t.true([p.name.split("_")[-1] for p in g]==[w+".png" for w in want],"layer names %s" % [p.name for p in g]); s = g[0].img
		for p in g[1:]: s = PIL.Image.alpha_composite(s,p.img)
		t.eq(np.asarray(s),np.asarray(f.img),"the layers don't add up"); b = np.asarray(f.info.bounds); t.true(f.img.size==tuple(b[1]-b[0]) and np.all(b[0]<=0) and b[1][0]>=nx and b[1][1]>=ny,"bounds %s of an image of size %s" % (b.tolist(),f.img.size))
		if want[0] == "img":
			a = np.asarray(g[0].img); x0, y0 = -b[0]; vi = orient(v.reshape((-1,ny,nx))[i],wcs); samecol(t,a[y0:y0+ny,x0:x0+nx],colour((vi/3+1)/2,c["color"]),"map layer"); out = a.copy(); out[y0:y0+ny,x0:x0+nx] = 0; t.true(not np.any(out),"the map layer extends outside the map")
		if "colorbar" in want: a = np.asarray(g[-1].img); t.true(not np.any(a[:-b[0][1]+ny]),"the color bar overlaps the map")
	# merging plots, twice
	ps = [enplot.plot(enmap.ndmap(r.standard_normal((ny,nx)),wcs),**dict(kw,nolabels=bool(k%2),contours=None,colorbar=False))[0] for k in range(c["n"])]; keep = [(np.asarray(p.img).copy(),np.array(p.info.bounds)) for p in ps]; m1 = enplot.merge_plots(ps); t.true(all(np.array_equal(np.asarray(p.img),k[0]) and np.array_equal(p.info.bounds,k[1]) for p, k in zip(ps,keep)),"merge_plots changed the plots it was given"); m2 = enplot.merge_plots(ps); t.eq(np.asarray(m1.img),np.asarray(m2.img),"merging twice gives different images"); lo = np.min([k[1][0] for k in keep],0); hi = np.max([k[1][1] for k in keep],0); t.eq(np.asarray(m1.info.bounds),np.array([lo,hi]),"merged bounds"); can = PIL.Image.new("RGBA",tuple(int(x) for x in hi-lo))
	for a, b in keep: one = PIL.Image.new("RGBA",can.size); one.paste(PIL.Image.fromarray(a),tuple(int(x) for x in b[0]-lo)); can = PIL.Image.alpha_composite(can,one)
	t.eq(np.asarray(m1.img),np.asarray(can),"merged image")

def gen_grid(d):
	g = geo.gen_cyl(d,20,60,projs=("car","car","cea","mer"),maxdec=65,res=(.05,4)) if d.int(0,3) else geo.gen_zen(d,20,60,projs=("tan","zea","arc"),maxrad=20,res=(.05,.5))
	if g["kind"] == "zen": g["crval"][1] *= 55/89.
	return {"g":g,"ticks":[d.choice([1,2,5,10,15,30]),d.choice([1,2,5,10,20,45])],"unit":d.choice([None,None,"d","m","0.5"]),"width":d.int(1,1),"zen":d.bool(),"pos":d.bool()}
@prop.law(gen_grid, quick=70, rule="a grid line inside the map")
def grid(c, t):
	"""Grid lines and their labels are where those coordinates are in the map, at every multiple of the tick spacing"""
	(ny,nx), wcs = geo.build(c["g"]); cd = np.abs(c["g"]["cdelt"])[::-1]; u = {None:1.,"d":1.,"m":1/60.,"0.5":.5}[c["unit"]]; steps = np.array(c["ticks"],float); 
	while steps[0]*u < 12*cd[0] or steps[1]*u < 12*cd[1]: steps = steps*2
	if 90%(steps[0]*u) > 1e-6: steps[0] = 45/u
	cyl = c["g"]["kind"]!="zen"; m = enmap.ndmap(np.zeros((ny,nx)),wcs); P = enplot.plot(m,layers=True,nolabels=True,no_image=True,ticks="%g,%g" % tuple(steps),grid_color="ff000080",**({"tick_unit":c["unit"]} if c["unit"] else {})); t.true(len(P)==1,"one layer"); a = np.asarray(P[0].img)[...,3]>0; t.true(a.shape==(ny,nx),"size"); f = orient(np.arange(ny*nx).reshape(ny,nx),wcs); pos = geo.ref_posmap((ny,nx),wcs).reshape(2,-1)[:,f]/utils.degree; du = steps*u
	# The distance to the nearest line in units of the tick spacing, and how much it changes from pixel to pixel
	fr = pos/du[:,None,None]; k = np.round(fr); wr = 360/du[1]; near = np.zeros((ny,nx),bool); per = abs(wr-round(wr))<1e-9
	for ax in (0,1):
		q = fr[ax]; g = np.zeros((ny,nx))
		for d in (0,1):
			df = np.diff(q,axis=d); df = (df+wr/2)%wr-wr/2 if ax==1 else df; df = np.abs(df); pad = [(0,0),(0,0)]; pad[d] = (0,1); g = np.maximum(g,np.pad(df,pad,mode="edge")); pad[d] = (1,0); g = np.maximum(g,np.pad(df,pad,mode="edge"))
		x = q if ax==0 else (q*du[1]%360)/du[1]; dist = np.abs(x-np.round(x)); dist = np.minimum(dist,np.minimum(x,wr-x)) if ax==1 else dist; near |= dist<=1.6*g+.1*g
		if cyl and (per or ax==0): # each line inside the map is drawn over its full length
			line = q[:,nx//2] if ax==0 else np.unwrap(q[ny//2],period=wr); lo, hi = min(line[1],line[-2]), max(line[1],line[-2])
			for z in range(int(np.ceil(lo)),int(np.floor(hi))+1):
				if ax==1 and not per: continue
				i = int(np.argmin(np.abs(line-z))); sl = a[max(i-1,0):i+2] if ax==0 else a[:,max(i-1,0):i+2]; t.label("line"); t.true(np.all(np.any(sl,ax)),"%s line %g is missing from the grid" % (["dec","ra"][ax],z*du[ax]))
	t.mark_trivial(not np.any(a)); t.true(not np.any(a&~near),"grid pixels far from any grid line")
	if not cyl: return
	gi = cgrid.calc_gridinfo((ny,nx),wcs,steps=steps,zenith=c["zen"],unit={None:1,"0.5":.5}.get(c["unit"],c["unit"]),positive_ra=c["pos"])
	for ax, lines in ((0,gi.lat),(1,gi.lon)):
		labs = cgrid.calc_label_pos(lines,(nx,ny)); vals = [l[0] for l in labs]
		for val, x, y in labs:
			dec, ra = geo.cyl_pix2sky(c["g"],y,x); got = np.array([dec,ra])[ax]/utils.degree; want = val*u
			if ax==0 and c["zen"]: want = 90-want*1.0 if not c["unit"] else 90-val*u
			if ax==1: t.true(0<=want<=360.0001 if c["pos"] else -180.0001<=want<=180.0001,"ra label %g" % want)
			diff = got-want; diff = (diff+180)%360-180 if ax==1 else diff; t.true(abs(diff)<=1.5*cd[ax]+1e-6,"label %g is at %s %g" % (val,["dec","ra"][ax],got)); t.true(-1<=x<=nx+1 and -1<=y<=ny+1,"label outside the image")
		line = pos[0][:,nx//2] if ax==0 else np.unwrap(pos[1][ny//2],period=360); lo, hi = np.sort(line[[1,-2]])
		for z in range(int(np.ceil(lo/du[ax])),int(np.floor(hi/du[ax]))+1):
			if ax==1 and not per: continue
			v = z*du[ax]; v = 90-v if ax==0 and c["zen"] else v; t.true(any(abs((w*u-v+180)%360-180)<1e-6 for w in vals),"%s line %g has no label" % (["dec","ra"][ax],v))

def gen_cont(d): return {"g":gen_geo(d,4,12),"spec":d.choice(["step","base","rel","list","pylist","pyuni"]),"step":d.float(.2,2,2),"base":d.float(-3,3,2),"n":d.int(1,5),"lo":d.float(-5,-1,2),"hi":d.float(1,5,2),"width":d.choice([1,1,2,4]),"seed":d.seed()}
@prop.law(gen_cont, quick=80, rule="at least one contour level")
def contours(c, t):
	"""Contour specifications select the documented levels, and contours are drawn where the map crosses them"""
	r = rng(c); (ny,nx), wcs = geo.build(c["g"]); v = r.standard_normal((ny,nx))*2; m = enmap.ndmap(v,wcs); st, ba = c["step"] or .2, c["base"]; vals = np.round(np.sort(r.uniform(-3,3,c["n"])),2)+.0012; p = r.permutation(len(vals)); kw = {}
	if c["spec"]=="step": spec, ba = "%g" % st, 0
	elif c["spec"]=="base": spec = "%g:%g" % (ba,st)
	elif c["spec"]=="rel": spec, st, ba = "-%d" % c["n"], (c["hi"]-c["lo"])/c["n"], 0
	elif c["spec"]=="list": spec = ",".join("%.4f" % x for x in vals[p])+","
	elif c["spec"]=="pylist": spec = [float(x) for x in vals[p]]; kw["contour_type"] = "list"
	else: spec = [ba,st]
	if "list" in c["spec"]: lev = vals[p]
	else:
		k = np.arange(-400,401); x = k*st+ba
		if np.any(np.abs((x-c["lo"])/st)<1e-6) or np.any(np.abs((x-c["hi"])/st)<1e-6): t.mark_trivial(); return
		lev = x[(x>=c["lo"])&(x<=c["hi"])]
	args = enplot.parse_args(""); args.contours = spec; args.update(kw)
	for cr in (np.array([c["lo"],c["hi"]]),np.array([[c["lo"]],[c["hi"]]])): got = np.asarray(enplot.calc_contours(cr,args)); t.close(np.sort(got.reshape(-1)),np.sort(lev),"levels for %s" % (spec,),atol=1e-9)
	t.mark_trivial(len(lev)<1)
	if len(lev) < 1 or len(np.unique(lev))<len(lev): return
	P = enplot.plot(m,grid=0,layers=True,no_image=True,min=str(c["lo"]),max=str(c["hi"]),contours=spec,contour_width=c["width"],contour_color="0:ff0000,1:0000ff",**kw); a = np.asarray(P[0].img).astype(float); o = orient(v,wcs); s = np.sort(lev); ref = array_ops.find_contours(np.ascontiguousarray(o),s); on = a[...,3]>0
	t.true(np.all(on[ref>0]),"contour pixels are missing")
	if c["width"]==1:
		t.eq(on,ref>0,"contour pixels"); ind = np.array([int(np.argmin(np.abs(lev-x))) for x in s]); f = ind[np.maximum(ref-1,0)]/max(len(lev)-1,1); t.true(np.all(np.abs(a[...,2]-255*f)[on]<=1) and np.all(np.abs(a[...,0]-255*(1-f))[on]<=1),"contour colors")

def gen_ann(d): return {"g":gen_geo(d,60,100),"items":d.list(lambda: {"k":d.choice(["c","circle","l","line","r","rect","t"]),"p":[d.int(20,38),d.int(20,38)],"q":[d.int(22,36),d.int(22,36)],"o":[d.int(-6,6),d.int(-6,6)],"r":d.int(2,9),"w":d.int(1,3)},1,1),"file":d.bool(),"max":d.choice([0,0,20])}
@prop.law(gen_ann, quick=60, rule="every generated case")
def annotations(c, t):
	"""Annotations are drawn at their coordinates plus their pixel offset"""
	(ny,nx), wcs = geo.build(c["g"]); it = c["items"][0]; f = orient(np.arange(ny*nx).reshape(ny,nx),wcs); pos = geo.ref_posmap((ny,nx),wcs).reshape(2,-1)[:,f]/utils.degree; p, q, o = it["p"], it["q"], it["o"]; s1 = pos[:,p[0],p[1]]; s2 = pos[:,q[0],q[1]]; a = [it["k"],s1[0],s1[1],o[0],o[1]]; k = it["k"][0]
	if k == "c": a += [it["r"],it["w"],"red"]
	elif k in "lr": a += [s2[0],s2[1],0,0,it["w"],"red"]
	else: a += ["xx",12,"red"]
	spec = [[str(x) for x in a]] if c["file"] else [a]
	if c["file"]:
		fn = os.path.join(t.tmpdir,"a.txt"); open(fn,"w").write("\n".join(" ".join(l) for l in spec)+"\n"); spec = fn
	kw = {"annotate_maxrad":c["max"]} if c["max"] else {}; P = enplot.plot(enmap.ndmap(np.zeros((ny,nx)),wcs),grid=0,no_image=True,layers=True,annotate=spec,**kw); im = np.asarray(P[0].img); y, x = np.where(im[...,3]>40); t.true(len(y)>0,"nothing was drawn"); box = np.array([[y.min(),x.min()],[y.max(),x.max()]]); p1 = np.array(p)+o; p2 = np.array(q); t.true(np.all(im[...,0][im[...,3]>200]>200),"color")
	if k == "c": want, tol = np.array([p1-it["r"]-it["w"]/2,p1+it["r"]+it["w"]/2]), 2.5
	elif k in "lr": want, tol = np.array([np.minimum(p1,p2),np.maximum(p1,p2)]), (2.5 if k=="l" else 1.1)
	else: t.true(np.all(np.abs(box.mean(0)-p1)<8),"text is at %s instead of %s" % (box.mean(0),p1)); return
	t.true(np.all(np.abs(box-want)<=tol),"drawn at %s instead of %s" % (box.tolist(),want.tolist()))

def gen_bar(d): return {"nx":d.int(1,300),"ny":d.int(1,30),"font":d.int(6,24),"lo":d.float(-500,0,2),"hi":d.float(.5,500,2),"color":gen_color(d),"rev":d.bool(),"auto":d.bool(),"seed":d.seed()}
@prop.law(gen_bar, quick=60, rule="wide enough for a bar")
def colorbar(c, t):
	"""The color bar runs through the color scheme from left to right below the map, for maps of any size"""
	r = rng(c); wcs = geo.make_wcs("CAR",[0,0],[-.01,.01],[c["nx"]/2,c["ny"]/2]); m = enmap.ndmap(r.standard_normal((c["ny"],c["nx"])),wcs); kw = {} if c["auto"] else {"min":str(c["lo"]),"max":str(c["hi"])}; P = enplot.plot(m,grid=0,colorbar=True,layers=True,font_size=c["font"],color=c["color"],reverse_color=c["rev"],**kw); a = np.asarray(P[1].img).astype(float)[c["ny"]:]; t.true(a.shape[1]==c["nx"] and len(a)>0,"shape"); row = a[0]
	# The bar is the part that's fully opaque over the full height
	full = np.all(a[...,3]==255,0); idx = np.where(full)[0]; t.mark_trivial(len(idx)<20)
	if len(idx) < 20 or not np.all(full[idx[0]:idx[-1]+1]): return
	n = len(idx); x = np.linspace(0,1,n); x = 1-x if c["rev"] else x; ref = colour(x,c["color"]); best = [np.max(np.abs(row[idx][k:n-k or None]-colour((1-np.linspace(0,1,n-2*k)) if c["rev"] else np.linspace(0,1,n-2*k),c["color"]))) for k in (0,1)]; t.true(min(best)<=1.01,"color bar colors")

def gen_io(d): return {"g":gen_geo(d,2,8),"n":d.int(1,4),"nm":d.int(1,3),"ext":d.choice(["png","bmp","ppm"]),"via":d.choice(["file","tuple","map","slice","glob"]),"size":d.int(1,4),"fix":d.bool(),"seed":d.seed()}
@prop.law(gen_io, quick=50, rule="every generated case")
def files(c, t):
	"""Maps from files, tuples or memory give the same images, which are written under the documented names; the work can be split over processes; plotting several maps gives what plotting each gives"""
	for f in os.listdir(t.tmpdir):
		if f.endswith(".fits"): os.unlink(os.path.join(t.tmpdir,f))
	r = rng(c); (ny,nx), wcs = geo.build(c["g"]); ms = [enmap.ndmap(r.standard_normal((c["n"],ny-(k%2 and ny>3),nx)),wcs) for k in range(c["nm"])]; kw = {"grid":0,"range":"2","ext":"png"}; base = [enplot.plot(m,**kw) for m in ms]; fn = [os.path.join(t.tmpdir,"m%d.fits" % k) for k in range(c["nm"])]
	for f, m in zip(fn,ms): enmap.write_map(f,m)
	inp = {"file":fn,"tuple":[(m,f) for m, f in zip(ms,fn)],"map":ms,"slice":[f+":[...,:,:]" for f in fn],"glob":[os.path.join(t.tmpdir,"m*.fits")]}[c["via"]]; keys = [m.wcs.to_header_string() for m in ms]; P = enplot.plot(*inp,**dict(kw,**({"fix_wcs":True} if c["fix"] and c["g"]["kind"]=="cyl" and c["g"]["proj"]=="car" else {}))); t.true([m.wcs.to_header_string() for m in ms]==keys,"the wcs of a map that was plotted changed"); ref = [p for b in base for p in b]; t.true(len(P)==len(ref),"%d plots instead of %d" % (len(P),len(ref)))
	for a, b in zip(P,ref): t.eq(np.asarray(a.img),np.asarray(b.img),"images differ")
	if c["via"] in ("file","tuple"):
		want = [f[:-5]+"_%d.png" % i for f in fn for i in range(c["n"])]; t.true([p.name for p in P]==want,"names %s" % [p.name for p in P])
	seen = {}
	for rank in range(c["size"]):
		for p in enplot.plot(*inp,comm=bunch.Bunch(rank=rank,size=c["size"]),**kw): seen.setdefault((p.fi,p.ci),[]).append(p)
	if c["via"] != "glob": t.true(sorted(seen)==[(i,j) for i in range(c["nm"]) for j in range(c["n"])] and all(len(x)==1 for x in seen.values()),"the plots are not split over the processes")
	out = os.path.join(t.tmpdir,"o"); shutil.rmtree(out,ignore_errors=True); os.makedirs(out); enplot.write(out+"/x",base[0]); t.true(sorted(os.listdir(out))==["x_%d.png" % i for i in range(c["n"])],"written files %s" % os.listdir(out))
	for i, p in enumerate(base[0]):
		with PIL.Image.open(out+"/x_%d.png" % i) as im: t.eq(np.asarray(im.convert("RGBA")),np.asarray(p.img),"image read back")
	enplot.write(out+"/y.png",base[0][0]); enplot.write(out+"/z.png",base[0][0].img)
	for f in "yz":
		with PIL.Image.open(out+"/%s.png" % f) as im: t.eq(np.asarray(im.convert("RGBA")),np.asarray(base[0][0].img),"image read back")
	t.raises(ValueError,lambda: enplot.plot(ms[0],nosuchoption=1),"unknown options"); t.raises(ValueError,lambda: enplot.write(out+"/q.png",3),"things that aren't plots")

def gen_sub(d): return {"n":[d.int(6,20),d.int(6,20)],"res":d.choice([.1,.5,1.]),"ra":d.float(-100,100,1),"dec":d.float(-40,40,1),"s":[d.choice([-1,-1,1]),d.choice([1,1,-1])],"y":[d.int(0,5),d.int(0,5)],"x":[d.int(0,5),d.int(0,5)],"what":d.choice(["sub","autocrop","each","stamps"]),"size":d.choice([None,3,4,7]),"ns":d.int(1,4),"nmax":d.choice([None,1,2]),"pre":d.choice([[],[2]]),"seed":d.seed()}
@prop.law(gen_sub, quick=80, rule="something is cut off")
def cutting(c, t):
	"""--sub, --autocrop and --stamps plot just the part of the map they ask for"""
	r = rng(c); ny, nx = c["n"]; s = c["s"]; wcs = geo.make_wcs("CAR",[c["ra"],0],[s[0]*c["res"],s[1]*c["res"]],[(nx+1)/2,(ny+1)/2-c["dec"]/(s[1]*c["res"])]); pre = tuple(c["pre"]); v = r.uniform(.1,1,pre+(ny,nx)); y = sorted([c["y"][0],ny-c["y"][1]]); x = sorted([c["x"][0],nx-c["x"][1]]); y[1] = max(y[1],y[0]+1); x[1] = max(x[1],x[0]+1); y, x = [min(y[0],ny-1),min(y[1],ny)], [min(x[0],nx-1),min(x[1],nx)]; kw = {"grid":0,"range":"1","color":"gray"}; pos = geo.ref_posmap((ny,nx),wcs)/utils.degree; exp = None
	if c["what"] == "sub":
		dec = [pos[0,y[0],0]-s[1]*c["res"]/2,pos[0,y[1]-1,0]+s[1]*c["res"]/2]; ra = np.unwrap(pos[1,0],period=360); ra = [ra[x[0]]-s[0]*c["res"]/2,ra[x[1]-1]+s[0]*c["res"]/2]; kw["sub"] = "%.8f:%.8f,%.8f:%.8f" % (dec[0],dec[1],ra[0],ra[1]); exp = [v[...,y[0]:y[1],x[0]:x[1]]]
	elif c["what"] == "stamps":
		fn = os.path.join(t.tmpdir,"s.txt"); py, px = r.integers(0,ny,c["ns"]), r.integers(0,nx,c["ns"]); np.savetxt(fn,np.array([pos[1,py,px],pos[0,py,px],py*0+1.]).T); size = c["size"] or 16; kw["stamps"] = fn+(":%d" % size if c["size"] or c["nmax"] else "")+(":%d" % c["nmax"] if c["nmax"] else ""); exp = []
		for a, b in list(zip(py,px))[:c["nmax"]]:
			# stamps are centered on the object, with half-pixel ambiguity for even sizes
			o = np.full(pre+(size,size),np.nan); y0, x0 = [int(np.round(k-.5*size)) for k in (a,b)]
			for i in range(size):
				for j in range(size):
					if 0<=y0+i<ny and 0<=x0+j<nx: o[...,i,j] = v[...,y0+i,x0+j]
			exp.append(o)
		if size%2: kw["_tie"] = True
	else:
		w = np.zeros_like(v); w[...,y[0]:y[1],x[0]:x[1]] = v[...,y[0]:y[1],x[0]:x[1]]
		if c["what"]=="each" and pre: w[1] = 0; w[1,y[0],x[0]] = .5
		v = w; exp = [w[...,y[0]:y[1],x[0]:x[1]]]; kw["autocrop" if c["what"]=="autocrop" else "autocrop_each"] = True
		if c["what"]=="each" and pre: exp = [w[0,y[0]:y[1],x[0]:x[1]],w[1,y[0]:y[0]+1,x[0]:x[0]+1]]
	tie = kw.pop("_tie",False); P = enplot.plot(enmap.ndmap(v,wcs),**kw); exp = [o for e in exp for o in e.reshape((-1,)+e.shape[-2:])]; t.mark_trivial(exp[0].shape==(ny,nx)); t.true(len(P)==len(exp),"number of images")
	for p, e in zip(P,exp):
		e = orient(e,wcs); a = np.asarray(p.img)
		if tie: # rounding of half-pixel positions is not specified
			t.true(a.shape[:2]==e.shape,"stamp size"); ok = False
			continue
		samecol(t,a,colour((e+1)/2,"gray"),c["what"])

def gen_mpl(d): return {"g":geo.gen_cyl(d,4,10,projs=("car",),maxdec=60),"sub":d.bool(),"grid":d.bool(),"seed":d.seed()}
@prop.law(gen_mpl, quick=8, rule="every generated case")
def matplotlib(c, t):
	"""The matplotlib driver: each plot is its own figure, showing the same colors as the other driver at the right coordinates"""
	r = rng(c); (ny,nx), wcs = geo.build(c["g"]); v = r.standard_normal((2,ny,nx)); m = enmap.ndmap(v,wcs); import matplotlib.pyplot as plt; n0 = set(plt.get_fignums())
	try:
		P = enplot.plot(m,driver="mpl",range="2",grid=int(c["grid"]),ticks="10",**({"subticks":5} if c["sub"] else {})); t.true(len(P)==2 and all(p.type=="mpl" for p in P),"plots"); out = []; pos = orient(geo.ref_posmap((ny,nx),wcs),wcs)/utils.degree; o = orient(v,wcs)
		for i, p in enumerate(P):
			ims = [im for ax in p.img.axes for im in ax.images]; t.true(len(ims)==1 and len(p.img.axes)==1,"one image in one set of axes"); samecol(t,np.asarray(ims[0].get_array()),colour((o[i]/2+1)/2,"planck"),"figure %d" % i); l, rr, b, tp = ims[0].get_extent(); y = tp+(np.arange(ny)+.5)*(b-tp)/ny; x = l+(np.arange(nx)+.5)*(rr-l)/nx; t.close_ang(np.tile(x,(ny,1)),pos[1],"ra axis",atol=1e-6,period=360); t.close(np.tile(y[:,None],(1,nx)),pos[0],"dec axis",atol=1e-6)
		for i, p in enumerate(P): f = os.path.join(t.tmpdir,"m%d.png" % i); enplot.write(f,p); out.append(np.asarray(PIL.Image.open(f).convert("RGB")))
		cd = np.abs(c["g"]["cdelt"]); t.true(max(cd)/min(cd)>2 or out[0].shape!=out[1].shape or not np.array_equal(out[0],out[1]),"different components were written as the same figure")
	finally:
		for n in set(plt.get_fignums())-n0: plt.close(n)
