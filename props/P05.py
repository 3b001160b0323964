import numpy as np
from harness.core import Prop, rng
from harness import methods as _methods, geo
from pixell import enmap, wcsutils, utils
prop = Prop("P05", assumptions=["wrapping length is the circumference rounded to whole pixels"])
DEG = np.pi/180

def gen_geo(d):
	k = d.choice(["full","cyl","cyl_int","zen"])
	if k == "full": return geo.gen_full(d, 4, 9, flips=True)
	if k == "cyl":  return geo.gen_cyl(d, 1, 10)
	if k == "zen":  return geo.gen_zen(d, 1, 10)
	# A cylinder with a whole number of pixels around, and short enough that wrapping is relevant
	g = geo.gen_cyl(d, 1, 10, projs=("car",))
	nphi = d.int(g["n"][1], g["n"][1]+8) if d.int(0,3) else d.int(max(2,g["n"][1]//3), max(2,g["n"][1])) # sometimes more than a full turn
	old  = g["cdelt"][0]
	g["cdelt"][0] = float(np.sign(old)*360./nphi)
	g["crpix"][0] = (g["n"][1]+1)/2.-d.int(-3,3)
	return g

def nphi_of(g):
	n = int(np.round(360/abs(g["cdelt"][0])))
	return n*((n+g["n"][1]-1)//n)

def gen(d):
	g = gen_geo(d)
	ny, nx = g["n"]
	nphi = nphi_of(g)
	far  = nphi*2+3 if nphi < 60 and g["kind"] != "zen" else nx+4
	y1 = d.int(-ny-2,ny+2); x1 = d.int(-far,far)
	h  = d.int(1,ny+5);     w  = d.int(1, min(far,30))
	return {"geo":g, "pixbox":[[y1,x1],[y1+h,x1+w]], "step":[d.choice([1,1,1,2,3]),d.choice([1,1,1,2,3])], "flip":[d.choice([False,False,True]),d.choice([False,False,True])],
		"wrap":d.choice(["auto","auto","auto",0,"own"]), "cval":d.choice([0,-7]), "dtype":d.choice(["float64","float32","int32","complex128"]),
		"pre":geo.gen_pre(d,2), "seed":d.seed(), "turns":d.int(-2,2), "adj":d.bool()}

def index_map(c, g, pb):
	"""For each output pixel the input indices, and whether they exist"""
	ny, nx = g["n"]
	w = nphi_of(g) if c["wrap"] == "auto" else (0 if c["wrap"] == 0 else nx+2)
	iy = np.arange(pb[0][0], pb[1][0], pb[2][0]); ix = np.arange(pb[0][1], pb[1][1], pb[2][1])
	if w: ix = ix % w
	return iy, ix, (iy>=0)&(iy<ny), (ix>=0)&(ix<nx)

def expected(c, g, m, pb, init):
	iy, ix, oky, okx = index_map(c, g, pb)
	res = init.copy()
	for a in np.where(oky)[0]:
		for b in np.where(okx)[0]:
			res[...,a,b] = m[...,iy[a],ix[b]]
	return res, (iy,ix,oky,okx)

@prop.law(gen, quick=3000, rule="box overlaps the map")
def pixboxes(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	pre = tuple(c["pre"])
	m   = enmap.ndmap(geo.data(c, pre+shape, c["dtype"]), wcs)
	(y1,x1),(y2,x2) = c["pixbox"]
	sy, sx = c["step"]
	if c["flip"][0]: y1, y2, sy = y2-1, y1-1, -sy
	if c["flip"][1]: x1, x2, sx = x2-1, x1-1, -sx
	pb3 = np.array([[y1,x1],[y2,x2],[sy,sx]])
	pb  = pb3 if (sy,sx) != (1,1) else pb3[:2]
	pbin = pb.copy()
	m0  = np.array(m)
	wrap = "auto" if c["wrap"] == "auto" else (0 if c["wrap"] == 0 else [0,shape[1]+2])
	iy, ix, oky, okx = index_map(c, g, pb3)
	oshape = pre+(len(iy),len(ix))
	want, _ = expected(c, g, m0, pb3, np.full(oshape, c["cval"], m.dtype))
	got = enmap.extract_pixbox(m, pbin, wrap=wrap, cval=c["cval"])
	t.eq(pbin, pb, "extract_pixbox modified the pixbox")
	t.mark_trivial(not (oky.any() and okx.any()))
	if np.any(ix != np.arange(x1,x2,sx)): t.label("wrapped")
	t.true(got.dtype == m.dtype, "dtype")
	t.eq(np.asarray(got), want, "extract_pixbox")
	t.eq(np.asarray(m.extract_pixbox(pbin, wrap=wrap, cval=c["cval"])), want, "ndmap.extract_pixbox")
	if abs(sy) == 1 and abs(sx) == 1:
		yy, xx = np.meshgrid(np.arange(y1,y2,sy), np.arange(x1,x2,sx), indexing="ij")
		go = dict(g, crpix=[float(v) for v in got.wcs.wcs.crpix], cdelt=[float(v) for v in got.wcs.wcs.cdelt], crval=[float(v) for v in got.wcs.wcs.crval])
		a, b = np.meshgrid(np.arange(len(iy)),np.arange(len(ix)),indexing="ij")
		# compare the linear coordinates
		t.close((a+1-go["crpix"][1])*go["cdelt"][1], (yy+1-g["crpix"][1])*g["cdelt"][1], "extract_pixbox wcs y", rtol=1e-9, atol=1e-9)
		t.close((b+1-go["crpix"][0])*go["cdelt"][0], (xx+1-g["crpix"][0])*g["cdelt"][0], "extract_pixbox wcs x", rtol=1e-9, atol=1e-9)
	t.eq(np.asarray(m), m0, "extract_pixbox modified its input")
	# Accumulate into an existing map
	o0  = geo.data(c, oshape, c["dtype"], 5)
	om  = enmap.ndmap(o0.copy(), got.wcs)
	out = enmap.extract_pixbox(m, pbin, omap=om, wrap=wrap, op=lambda a,b: a+b)
	w2  = o0.copy()
	msk = np.zeros(oshape,bool)
	msk[...] = oky[:,None]&okx[None]
	w2[msk] = (o0+want)[msk]
	t.eq(np.asarray(out), w2, "extract_pixbox with op")
	t.true(out is om, "omap is not returned")
	# The method forms, and a wcs that overrides that of the map
	odd = wcs.deepcopy(); odd.wcs.crpix += [4,-3]; odd.wcs.cdelt *= [2,1]
	mo  = enmap.ndmap(m0.copy(), odd)
	om  = enmap.ndmap(o0.copy(), got.wcs)
	out = mo.extract_pixbox(pbin, omap=om, wrap=wrap, op=lambda a,b: a+b, iwcs=wcs)
	t.true(out is om, "ndmap.extract_pixbox ignores omap"); t.eq(np.asarray(out), w2, "ndmap.extract_pixbox with omap and iwcs")
	out = enmap.extract_pixbox(mo, pbin, wrap=wrap, cval=c["cval"], iwcs=wcs)
	t.eq(np.asarray(out), want, "extract_pixbox with iwcs"); t.close(out.wcs.wcs.crpix, got.wcs.wcs.crpix, "extract_pixbox with iwcs: wcs", rtol=1e-12)
	# The reverse operation is the transpose
	src = enmap.ndmap(geo.data(c, oshape, c["dtype"], 6), got.wcs)
	tgt = enmap.ndmap(m0.copy(), wcs)
	wr  = m0.copy()
	for a in np.where(oky)[0]:
		for b in np.where(okx)[0]:
			wr[...,iy[a],ix[b]] += np.asarray(src)[...,a,b]
	ret = enmap.insert_at(tgt, pbin, src, wrap=wrap, op=lambda a,b: a+b)
	t.true(ret is tgt, "insert_at does not return the map")
	tg2 = enmap.ndmap(m0.copy(), odd)
	tg2.insert_at(pbin, src, wrap=wrap, op=lambda a,b: a+b, iwcs=wcs)
	t.eq(np.asarray(tg2), np.asarray(tgt), "ndmap.insert_at")
	t.close(np.asarray(tgt), wr, "insert_at with op", rtol=1e-6 if c["dtype"] == "float32" else 1e-12)
	if (sy,sx) == (1,1):
		tgt = enmap.ndmap(m0.copy(), wcs)
		enmap.insert_at(tgt, pb[0], src, wrap=wrap, op=lambda a,b:a+b)
		t.close(np.asarray(tgt), wr, "insert_at at a position", rtol=1e-6 if c["dtype"] == "float32" else 1e-12)
	# plain insert: touched pixels come from the source, others are untouched
	uniq = len(set(ix[okx])) == np.sum(okx)
	if uniq:
		tgt = enmap.ndmap(m0.copy(), wcs)
		enmap.insert_at(tgt, pbin, src, wrap=wrap)
		wr = m0.copy()
		for a in np.where(oky)[0]:
			for b in np.where(okx)[0]: wr[...,iy[a],ix[b]] = np.asarray(src)[...,a,b]
		t.eq(np.asarray(tgt), wr, "insert_at")

@prop.law(gen, quick=2000, rule="geometries overlap")
def geometries(c, t):
	"""extract and insert by geometry"""
	g = c["geo"]
	shape, wcs = geo.build(g)
	pre = tuple(c["pre"])
	m   = enmap.ndmap(geo.data(c, pre+shape, c["dtype"]), wcs)
	(y1,x1),(y2,x2) = c["pixbox"]
	oshape = (y2-y1,x2-x1)
	owcs = wcs.deepcopy(); owcs.wcs.crpix -= [x1,y1]
	# Equivalent descriptions of the same geometry: move crval along the equator.
	if g["kind"] != "zen":
		k = c["turns"]
		owcs.wcs.crpix[0] += 5*k; owcs.wcs.crval[0] += 5*k*owcs.wcs.cdelt[0]
	pb = [[y1,x1],[y2,x2],[1,1]]
	wrap = "auto" if c["wrap"] == "auto" else (0 if c["wrap"] == 0 else [0,shape[1]+2])
	want, (iy,ix,oky,okx) = expected(c, g, np.asarray(m), pb, np.full(pre+oshape, c["cval"], m.dtype))
	t.mark_trivial(not (oky.any() and okx.any()))
	arg = pre+oshape if c["adj"] else oshape
	got = enmap.extract(m, arg, owcs, wrap=wrap, cval=c["cval"])
	t.eq(np.asarray(got), want, "extract")
	t.true(wcsutils.equal(got.wcs, owcs), "extract wcs")
	t.eq(np.asarray(m.extract(arg, owcs, wrap=wrap, cval=c["cval"])), want, "ndmap.extract")
	# Each pixel that was extracted is at the same place in the sky
	if c["wrap"] == "auto" and abs(360/g["cdelt"][0]-np.round(360/g["cdelt"][0])) < 1e-9 and g["kind"] != "zen" and oky.any() and okx.any():
		p1 = np.array(geo.cyl_pix2sky(g, *np.meshgrid(iy[oky],ix[okx],indexing="ij")))
		go = dict(g, crpix=[float(v) for v in got.wcs.wcs.crpix], cdelt=[float(v) for v in got.wcs.wcs.cdelt], crval=[float(v) for v in got.wcs.wcs.crval])
		p2 = np.array(geo.cyl_pix2sky(go, *np.meshgrid(np.where(oky)[0],np.where(okx)[0],indexing="ij")))
		t.close(geo.sky_dist(p1,p2), np.zeros(p1.shape[1:]), "sky positions of the extracted pixels", rtol=0, atol=1e-7)
	src = enmap.ndmap(geo.data(c, pre+oshape, c["dtype"], 6), owcs)
	for method in [False,True]:
		tgt = m.copy()
		wr  = np.array(m)
		for a in np.where(oky)[0]:
			for b in np.where(okx)[0]: wr[...,iy[a],ix[b]] += np.asarray(src)[...,a,b]
		if method:
			odd = wcs.deepcopy(); odd.wcs.crpix += [4,-3]; odd.wcs.cdelt *= [2,1]
			tgt.wcs = odd
			tgt.insert(src, wrap=wrap, op=lambda a,b:a+b, iwcs=wcs)
		else:      enmap.insert(tgt, src, wrap=wrap, op=lambda a,b:a+b)
		t.close(np.asarray(tgt), wr, "insert", rtol=1e-6 if c["dtype"] == "float32" else 1e-12)
	# incompatible geometries are refused
	bad = owcs.deepcopy(); bad.wcs.crpix += 0.3
	t.raises(AssertionError, lambda: enmap.extract(m, arg, bad), "extract of an incompatible geometry")
	# Overlap without wrapping is the intersection
	pbin = np.array(pb[:2]); pcopy = pbin.copy()
	os, ow = enmap.overlap(pre+shape, wcs, pbin, wrap=[0,0])
	t.eq(pbin, pcopy, "overlap modified the pixbox")
	lo = np.maximum(pcopy[0],0); hi = np.minimum(pcopy[1],shape)
	wn = np.maximum(hi-lo,0)
	t.eq(np.minimum(os,1).prod()*np.array(os), np.minimum(wn,1).prod()*wn, "overlap shape")
	if np.all(wn > 0): t.eq(enmap.pixbox_of(wcs, os, ow), np.array([lo,hi]), "overlap position")
	os2, ow2 = enmap.overlap(pre+shape, wcs, oshape, owcs, wrap=[0,0])
	t.eq(os2, os, "overlap of geometries")
	# With wrapping: contains all the overlapping pixels and nothing that is outside the box
	if g["kind"] != "zen":
		os, ow = enmap.overlap(pre+shape, wcs, pcopy.copy())
		if np.prod(os) > 0:
			b = enmap.pixbox_of(wcs, os, ow)
			t.true(np.all(b[0] >= pcopy[0]) and np.all(b[1] <= pcopy[1]), "overlap outside the box")
		else: b = np.zeros((2,2),int)
		if c["wrap"] == "auto":
			for a in np.where(oky)[0][[0,-1]] if oky.any() and okx.any() else []:
				t.true(b[0,0] <= pcopy[0,0]+a < b[1,0], "overlap misses rows")
			for a in np.where(okx)[0][[0,-1]] if oky.any() and okx.any() else []:
				t.true(b[0,1] <= pcopy[0,1]+a < b[1,1], "overlap misses columns")

def gen_pad(d):
	g = geo.gen_any(d, 1, 8)
	ny, nx = g["n"]
	return {"geo":g, "pad":[[d.int(0,4),d.int(0,4)],[d.int(0,4),d.int(0,4)]], "form":d.choice(["full","pair","scalar"]), "wrap":d.choice([False,True]), "value":d.choice([0,3]),
		"pre":geo.gen_pre(d,2), "dtype":d.choice(["float64","float32"]), "seed":d.seed(),
		"pos":d.list(lambda: [d.int(-4,ny+3),d.int(-4,nx+3)],1,3), "sshape":[d.int(1,5),d.int(1,5)], "box":[[d.int(-4,ny),d.int(-4,nx)],[d.int(1,9),d.int(1,9)]],
		"cuts":[d.int(1,3),d.int(1,3)], "off":[d.int(-9,9),d.int(-9,9)]}

@prop.law(gen_pad, quick=1500, rule="every case")
def padding(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	pre = tuple(c["pre"])
	m = enmap.ndmap(geo.data(c, pre+shape, c["dtype"]), wcs)
	a = np.asarray(m)
	ny, nx = shape
	p = np.array(c["pad"])
	if c["wrap"]: p = np.minimum(p, shape)
	if   c["form"] == "scalar": p[:] = p[0,0]; arg = int(p[0,0])
	elif c["form"] == "pair":   p[1] = p[0];   arg = list(p[0])
	else: arg = p
	if c["wrap"] and np.any(p > np.array(shape)): return
	got, sl = enmap.pad(m, arg, return_slice=True, wrap=c["wrap"], value=c["value"])
	iy = np.arange(-p[0,0],ny+p[1,0]); ix = np.arange(-p[0,1],nx+p[1,1])
	if c["wrap"]: want = a[...,iy%ny,:][...,ix%nx]
	else:
		want = np.full(pre+(len(iy),len(ix)), c["value"], m.dtype)
		want[...,p[0,0]:p[0,0]+ny,p[0,1]:p[0,1]+nx] = a
	t.eq(np.asarray(got), want, "pad")
	t.eq(np.asarray(got[sl]), a, "slice from pad")
	t.close(got[sl].wcs.wcs.crpix, wcs.wcs.crpix, "pad wcs", rtol=1e-12)
	t.close(got.wcs.wcs.crpix, wcs.wcs.crpix+p[0,::-1], "pad wcs", rtol=1e-12)
	# padslice
	b0 = np.array(c["box"][0]); b1 = b0+c["box"][1]
	def ps(b0, b1, default):
		want = np.full(pre+tuple(b1-b0), default, m.dtype)
		for i in range(b0[0],b1[0]):
			for j in range(b0[1],b1[1]):
				if 0<=i<ny and 0<=j<nx: want[...,i-b0[0],j-b0[1]] = a[...,i,j]
		return want
	got = m.padslice(np.array([b0,b1]), default=c["value"])
	t.eq(np.asarray(got), ps(b0,b1,c["value"]), "padslice")
	t.close(got.wcs.wcs.crpix, wcs.wcs.crpix-b0[::-1], "padslice wcs", rtol=1e-12)
	t.eq(np.asarray(enmap.padslice(m, np.array([b0,b1]))), ps(b0,b1,np.nan), "padslice default")
	# stamps
	pos = np.array(c["pos"]); ss = np.array(c["sshape"])
	st = m.stamps(pos, ss)
	t.eq(np.asarray(st), np.array([ps(q,q+ss,np.nan) for q in pos]), "stamps")
	lst = m.stamps(pos, ss, aslist=True)
	for s, q in zip(lst, pos):
		t.eq(np.asarray(s), ps(q,q+ss,np.nan), "stamps list"); t.close(s.wcs.wcs.crpix, wcs.wcs.crpix-q[::-1], "stamps wcs", rtol=1e-12)
	# splitting and tiling
	ys = np.unique(np.linspace(0,ny,c["cuts"][0]+1).astype(int)); xs = np.unique(np.linspace(0,nx,c["cuts"][1]+1).astype(int))
	tiles = [[m[...,y1:y2,x1:x2] for x1,x2 in zip(xs[:-1],xs[1:])] for y1,y2 in zip(ys[:-1],ys[1:])]
	back  = enmap.tile_maps(tiles)
	t.eq(np.asarray(back), a, "tile_maps"); t.close(back.wcs.wcs.crpix, wcs.wcs.crpix, "tile_maps wcs", rtol=1e-12)
	# union of two cutouts: sum where both are
	wn = nphi_of(g)
	if ny > 1 and nx > 1 and g["kind"] != "full":
		r  = rng(c)
		def cut(): 
			y1, x1 = r.integers(0,ny), r.integers(0,nx)
			return y1, r.integers(y1+1,ny+1), x1, r.integers(x1+1,nx+1)
		c1, c2 = cut(), cut()
		m1, m2 = m[...,c1[0]:c1[1],c1[2]:c1[3]], m[...,c2[0]:c2[1],c2[2]:c2[3]]
		u = enmap.map_union(m1, m2)
		lo = np.array([min(c1[0],c2[0]),min(c1[2],c2[2])]); hi = np.array([max(c1[1],c2[1]),max(c1[3],c2[3])])
		want = np.zeros(pre+shape, m.dtype)
		for q in [c1,c2]: want[...,q[0]:q[1],q[2]:q[3]] += a[...,q[0]:q[1],q[2]:q[3]]
		t.eq(np.asarray(u), want[...,lo[0]:hi[0],lo[1]:hi[1]], "map_union")
		t.close(u.wcs.wcs.crpix, wcs.wcs.crpix-lo[::-1], "map_union wcs", rtol=1e-12)
	# Cyclic shift
	off = np.array(c["off"])
	got = enmap.shift(m, off)
	t.eq(np.asarray(got), np.roll(a, tuple(off), (-2,-1)), "shift")
	t.close(got.wcs.wcs.crpix, wcs.wcs.crpix+off[::-1], "shift wcs", rtol=1e-12)
	k = enmap.shift(m, off, keepwcs=True)
	t.close(k.wcs.wcs.crpix, wcs.wcs.crpix, "shift keepwcs", rtol=1e-12)
	t.eq(np.asarray(m), a, "shift modified its input")
	t.eq(np.asarray(enmap.fftshift(m)), np.fft.fftshift(a,axes=(-2,-1)), "fftshift")
	t.eq(np.asarray(enmap.ifftshift(enmap.fftshift(m))), a, "ifftshift(fftshift)")

def gen_crop(d):
	g = geo.gen_any(d, 4, 12)
	ny, nx = g["n"]
	return {"geo":g, "blank":[[d.int(0,ny//2-1),d.int(0,nx//2-1)],[d.int(0,ny//2-1),d.int(0,nx//2-1)]], "value":d.choice(["auto",0.0,"none"]), "method":d.choice(["plain","fft"]), "margin":d.choice([0,0,1,3]), "pre":geo.gen_pre(d,2), "holes":d.bool(), "seed":d.seed()}

@prop.law(gen_crop, quick=800, rule="map has blank edges")
def cropping(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	pre = tuple(c["pre"])
	b   = np.array(c["blank"])
	ny, nx = shape
	a   = np.zeros(pre+shape)
	inner = (Ellipsis,slice(b[0,0],ny-b[1,0]),slice(b[0,1],nx-b[1,1]))
	a[inner] = geo.data(c, a[inner].shape)
	# Usually no single component fills the whole non-blank area
	if c.get("holes") and pre and np.prod(pre) > 1:
		r = rng(c, 7); flat = a.reshape((-1,)+shape); keep = r.integers(len(flat))
		for i in range(len(flat)):
			if i != keep: flat[i,:r.integers(b[0,0],ny)] = 0; flat[i,:,:r.integers(b[0,1],nx)] = 0
	m = enmap.ndmap(a, wcs)
	t.mark_trivial(not b.any())
	wb = b if c["value"] == 0.0 else None
	if c["value"] == "none": wb = b*0
	# auto needs a blank row or column to find the value
	if c["value"] == "auto" and np.all(np.sum(b,0) > 0): wb = b
	got = enmap.find_blank_edges(m, value=c["value"])
	if wb is not None: t.eq(got, wb, "find_blank_edges")
	crop, info = m.autocrop(method=c["method"], value=c["value"], margin=c["margin"], return_info=True)
	# Everything that isn't blank survives at the same sky position
	for f in ["crop"]:
		pb = enmap.pixbox_of(wcs, crop.shape, crop.wcs)
		ext = enmap.extract(crop, shape, wcs, wrap=0)
		t.eq(np.asarray(ext), a, "autocrop lost data or moved it")
	if wb is not None:
		need = np.array(shape)-np.sum(wb,0)+c["margin"]
		if c["method"] == "plain": t.eq(crop.shape[-2:], need, "autocrop size")
		else:
			t.true(np.all(np.array(crop.shape[-2:]) >= need), "autocrop fft size")
			for n in crop.shape[-2:]:
				k = int(n)
				for f in [2,3,5,7,11,13]:
					while k%f == 0: k //= f
				t.true(k == 1, "autocrop fft size %d is not fft-friendly" % n)
	t.eq(np.asarray(enmap.padcrop(m, info)), np.asarray(crop), "padcrop")

def gen_tiles(d):
	g = d.choice([geo.gen_cyl, geo.gen_full, geo.gen_zen])(d, 4, 16)
	ty, tx = d.int(2,9), d.int(2,9)
	return {"geo":g, "tshape":[ty,tx], "pad":[d.int(0,ty//2),d.int(0,tx//2)], "margin":[d.int(0,3),d.int(0,3)], "pre":geo.gen_pre(d,2), "seed":d.seed(), "step":d.int(1,3)}

@prop.law(gen_tiles, quick=600, rule="more than one tile")
def padded_tiles(c, t):
	"""padtiles reads the right pixels, and writing back what was read reproduces the map"""
	g = c["geo"]
	shape, wcs = geo.build(g)
	ny, nx = shape
	pre = tuple(c["pre"]); ts = np.array(c["tshape"]); pad = np.array(c["pad"]); mar = np.array(c["margin"])
	m = enmap.ndmap(geo.data(c, pre+shape), wcs)
	nt = (np.array(shape)+ts-1)//ts
	t.mark_trivial(np.prod(nt) < 2)
	w = nphi_of(g)
	i = 0
	for tile, in enmap.padtiles(m, tshape=tuple(ts), pad=tuple(pad), margin=tuple(mar)):
		ty, tx = i//nt[1], i%nt[1]
		lo = ts*[ty,tx]-pad-mar; hi = ts*[ty+1,tx+1]+pad+mar
		cc = dict(c, wrap="auto")
		want, _ = expected(cc, g, np.asarray(m), [lo,hi,[1,1]], np.zeros(pre+tuple(hi-lo)))
		t.eq(np.asarray(tile), want, "padtiles tile %d" % i)
		i += 1
	t.eq(i, np.prod(nt), "number of tiles")
	# Excluded by the documentation: maps that go all the way around with tiles that don't fit
	if w < nx+ts[1]+pad[1]+2: return
	om = enmap.zeros(m.shape, wcs)
	n  = 0
	for k in range(c["step"]):
		for it, ot in enmap.padtiles(m, om, tshape=tuple(ts), pad=tuple(pad), margin=tuple(mar), start=k, step=c["step"]):
			ot[:] = it
			n += 1
	t.eq(n, np.prod(nt), "number of tiles over the strided loops")
	t.close(np.asarray(om), np.asarray(m), "writing back what was read", rtol=1e-12)

def gen_neigh(d):
	k = d.choice([geo.gen_cyl, geo.gen_full, None])
	if k is None: return {"geo":geo.gen_full(d, 20, 60), "r":d.logfloat(3,40), "seed":d.seed(), "n":2}
	g = k(d, 2, 12)
	return {"geo":g, "r":d.logfloat(0.3,25), "seed":d.seed(), "n":d.int(1,4)}

@prop.law(gen_neigh, quick=600, rule="some pixel is within the distance")
def neighborhoods(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	ny, nx = shape
	r = rng(c)
	pos = np.array(geo.cyl_pix2sky(g, r.uniform(0,ny-1,c["n"]), r.uniform(0,nx-1,c["n"]))).T
	rad = c["r"]*DEG*r.uniform(0.5,1,c["n"])
	pos_in = pos.copy()
	pbs = enmap.neighborhood_pixboxes(shape, wcs, pos_in, rad)
	t.eq(pos, pos_in, "neighborhood_pixboxes modified its input")
	t.true(np.shape(pbs) == (c["n"],2,2), "shape")
	if g["proj"] == "mer" and np.any(np.abs(pos[:,0])+rad > 85*DEG): t.mark_trivial(); return
	pm = np.array(geo.cyl_pix2sky(g, *np.mgrid[:ny,:nx]))
	w  = 360/abs(g["cdelt"][0])
	for p, rr, pb in zip(pos, rad, pbs):
		near = geo.sky_dist(pm, p[:,None,None]) < rr*(1-1e-9)
		for y, x in np.argwhere(near):
			oky = pb[0,0] <= y < pb[1,0]
			k   = np.arange(-3,4)
			okx = np.any((pb[0,1]-0.5 <= x+k*w)&(x+k*w < pb[1,1]+0.5)) if abs(w-round(w)) > 1e-9 else np.any((pb[0,1] <= x+k*round(w))&(x+k*round(w) < pb[1,1]))
			t.true(oky and okx, "pixel %d,%d is %g deg from the position, but outside the pixbox" % (y,x,geo.sky_dist(pm[:,y,x],p)/DEG))
		# not much larger than needed
		t.true(pb[1,0]-pb[0,0] <= 2*rr/DEG/abs(g["cdelt"][1])*(1 if g["proj"] != "mer" else 12)+3, "pixbox much taller than the neighborhood")

def gen_np(d): return {"n":[d.int(2,12),d.int(2,12)], "res":[d.logfloat(0.1,3),d.logfloat(0.1,3)], "r":d.logfloat(0.2,10), "npos":d.int(1,4), "one":d.bool(), "seed":d.seed()}
@prop.law(gen_np, quick=200, rule="some pixel is within the distance")
def neighborhoods_plain(c, t):
	"""Same for maps without any sky projection, where the coordinates are flat"""
	wcs = wcsutils.WCS(naxis=2); wcs.wcs.cdelt = c["res"][::-1]; wcs.wcs.crpix = [1,1]
	r = rng(c); n = np.array(c["n"]); shape = tuple(c["n"])
	pix = np.array([r.uniform(-1,n[0],c["npos"]),r.uniform(-1,n[1],c["npos"])])
	pos = np.asarray(enmap.pix2sky(shape, wcs, pix))
	all = np.asarray(enmap.posmap(shape, wcs))
	res = np.asarray(enmap.pixshape(shape, wcs))
	rad = c["r"]*np.mean(res)*(1 if c["one"] else r.uniform(0.5,1,c["npos"]))
	pbs = enmap.neighborhood_pixboxes(shape, wcs, pos.T, rad)
	t.true(np.shape(pbs) == (c["npos"],2,2), "shape"); hit = False
	for i, pb in enumerate(pbs):
		rr = np.zeros(c["npos"])+rad
		near = np.hypot(*(all-pos[:,i,None,None])) < rr[i]*(1-1e-9)
		for y, x in np.argwhere(near):
			hit = True; t.true(pb[0,0] <= y < pb[1,0] and pb[0,1] <= x < pb[1,1], "pixel %d,%d is within the distance, but outside the pixbox %s" % (y,x,pb.tolist()))
		t.true(np.all(pb[1]-pb[0] <= 2*rr[i]/res+3), "pixbox much larger than the neighborhood")
	t.mark_trivial(not hit)

_methods.add_law(prop)
