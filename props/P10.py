import numpy as np
from harness.core import Prop, rng
from harness import methods as _methods, geo
from pixell import enmap, utils, resample
prop = Prop("P10", assumptions=["block offsets are smaller than the block size and the map has at least one whole block when incomplete blocks are dropped", "op is one that can be applied one axis at a time (mean, sum, max, min, prod, any, all)"])
OPS = {"mean":np.mean, "sum":np.sum, "max":np.max, "min":np.min, "prod":np.prod, "any":np.any}

def blocks(n, b, off, inclusive):
	"""List of index ranges"""
	res = []
	if off > 0 and inclusive: res.append((0,min(off,n)))
	i = off
	while i < n:
		j = min(i+b,n)
		if j-i == b or inclusive: res.append((i,j))
		i = j
	return res

def gen_down(d):
	g = geo.gen_any(d, 1, 14)
	f = [d.int(1,6),d.int(1,6)] if d.bool() else d.int(1,6)
	return {"geo":g, "pre":geo.gen_pre(d), "factor":f, "offk":d.choice(["none","none","off","ref"]), "off":[d.int(0,5),d.int(0,5)], "ref":[d.float(-3,3),d.float(-3,3)], "inclusive":d.bool(), "op":d.choice(sorted(OPS)+["mean","mean"]), "dtype":d.choice(["float64","float64","float32","int32"]), "seed":d.seed(), "method":d.bool()}

@prop.law(gen_down, quick=2000, rule="more than one pixel per block")
def down_up(c, t):
	g = c["geo"]; shape, wcs = geo.build(g)
	fac = np.zeros(2,int)+c["factor"]
	t.mark_trivial(np.all(fac==1))
	full = tuple(c["pre"])+shape
	m = enmap.ndmap(geo.data(c, full, c["dtype"]), wcs); a = np.array(m)
	op, inc = OPS[c["op"]], c["inclusive"]
	kw = {}
	if c["offk"] == "off":
		off = np.array(c["off"])%fac; kw["off"] = off.tolist()
	elif c["offk"] == "ref":
		# A position whose pixel is unambiguous
		pix = np.round(np.array(c["ref"])*3)
		if g["kind"] == "full": pix[0] = np.clip(pix[0],0,shape[0]-1)
		ref = np.array(geo.ref_pix2sky(wcs,pix[0],pix[1]))
		if not np.all(np.isfinite(ref)) or abs(ref[0]) > 1.5: t.mark_trivial(); return
		pp = enmap.sky2pix(shape,wcs,ref)
		off = np.round(pp).astype(int)%fac; kw["ref"] = ref
		t.eq(enmap.get_downgrade_offset(full,wcs,fac,ref), off, "get_downgrade_offset")
	else: off = np.zeros(2,int)
	by, bx = blocks(shape[0],fac[0],off[0],inc), blocks(shape[1],fac[1],off[1],inc)
	if not by or not bx or np.any(np.array(shape) < off): t.mark_trivial(); return
	o = enmap.downgrade(m, c["factor"], op=op, inclusive=inc, **kw)
	t.eq(np.asarray(m), a, "downgrade modified its input")
	want = np.array([[op(a[...,y1:y2,x1:x2],(-2,-1)) for x1,x2 in bx] for y1,y2 in by])
	want = np.moveaxis(want,(0,1),(-2,-1))
	if np.all(fac==1): want = a
	t.close(np.asarray(o).astype(float), want.astype(float), "downgrade", rtol=1e-4 if c["dtype"]=="float32" else 1e-10, atol=1e-12 if c["dtype"]!="float32" else 1e-5)
	if c["op"] == "mean" and a.dtype.kind == "f": t.true(o.dtype == a.dtype, "downgrade dtype")
	if c["op"] == "mean" and not kw and np.all(np.array(shape)>=fac): t.eq(np.asarray(m.downgrade(c["factor"])), np.asarray(enmap.downgrade(m,c["factor"])), "ndmap.downgrade")
	# The geometry of the blocks. The centre of block i is at the middle of a whole block
	w = o.wcs
	iy, ix = (1 if inc and off[0]>0 else 0), (1 if inc and off[1]>0 else 0)
	for k,(f,of,i0) in enumerate([(fac[1],off[1],ix),(fac[0],off[0],iy)]):
		if np.all(fac==1): break
		t.close(w.wcs.cdelt[k], g["cdelt"][k]*f, "downgrade cdelt", rtol=1e-12)
		# input pixel coordinate of the middle of output pixel i0
		mid = of+(f-1)/2.
		t.close((i0+1-w.wcs.crpix[k])*w.wcs.cdelt[k], (mid+1-g["crpix"][k])*g["cdelt"][k], "downgrade position of block along axis %d" % k, rtol=0, atol=1e-7)
	# upgrade undoes it
	if c["op"] == "mean":
		oshape = shape
		u = enmap.upgrade(o, fac, off=off, oshape=oshape, inclusive=inc)
		if np.all(fac==1): return
		t.true(u.shape == full, "upgrade shape %s" % (u.shape,))
		ref = np.zeros(full, o.dtype)
		for i,(y1,y2) in enumerate(by):
			for j,(x1,x2) in enumerate(bx): ref[...,y1:y2,x1:x2] = np.asarray(o)[...,i,j,None,None]
		t.eq(np.asarray(u), ref, "upgrade")
		t.close(u.wcs.wcs.crpix, g["crpix"], "upgrade(downgrade) crpix", rtol=0, atol=1e-8); t.close(u.wcs.wcs.cdelt, g["cdelt"], "upgrade(downgrade) cdelt", rtol=1e-12)
		# upgrade on its own, and downgrading again
		u2 = enmap.upgrade(m, fac, off=off, inclusive=inc)
		d2 = enmap.downgrade(u2, fac, off=off, inclusive=inc)
		t.close(np.asarray(d2), a.astype(d2.dtype), "downgrade(upgrade)", rtol=1e-6 if c["dtype"]=="float32" else 1e-12)
		t.close(d2.wcs.wcs.crpix, g["crpix"], "downgrade(upgrade) crpix", rtol=0, atol=1e-8); t.close(d2.wcs.wcs.cdelt, g["cdelt"], "downgrade(upgrade) cdelt", rtol=1e-12)
		if not np.any(off):
			t.eq(np.asarray(u2), np.repeat(np.repeat(a,fac[0],-2),fac[1],-1), "plain upgrade")
			s, w2 = enmap.upgrade_geometry(full, wcs, fac)
			t.eq(s, u2.shape, "upgrade_geometry shape"); t.close(w2.wcs.crpix, u2.wcs.wcs.crpix, "upgrade_geometry crpix", rtol=0, atol=1e-8); t.close(w2.wcs.cdelt, u2.wcs.wcs.cdelt, "upgrade_geometry cdelt", rtol=1e-12)
			if not inc:
				s, w2 = enmap.downgrade_geometry(full, wcs, c["factor"])
				t.eq(s, o.shape, "downgrade_geometry shape"); t.close(w2.wcs.crpix, o.wcs.wcs.crpix, "downgrade_geometry crpix", rtol=0, atol=1e-8); t.close(w2.wcs.cdelt, o.wcs.wcs.cdelt, "downgrade_geometry cdelt", rtol=1e-12)
	t.eq(m.wcs.wcs.crpix, wcs.wcs.crpix, "input wcs modified"); t.eq(m.wcs.wcs.cdelt, wcs.wcs.cdelt, "input wcs modified")

def gen_block(d):
	nd = d.int(1,3); ax = d.int(0,nd-1)
	shape = [d.int(1,4) for _ in range(nd)]; shape[ax] = d.int(1,20)
	return {"shape":shape, "axis":ax-nd*d.int(0,1), "bsize":d.int(1,7), "off":d.int(0,6), "op":d.choice(sorted(OPS)), "inclusive":d.bool(), "seed":d.seed(), "dtype":d.choice(["float64","int32"])}
@prop.law(gen_block, quick=1500, rule="more than one element per block")
def block_functions(c, t):
	a = geo.data(c, tuple(c["shape"]), c["dtype"]); a0 = a.copy()
	ax, b, inc = c["axis"], c["bsize"], c["inclusive"]
	n, off, op = a.shape[ax], c["off"]%b, OPS[c["op"]]
	bl = blocks(n,b,off,inc)
	t.mark_trivial(b==1)
	if not bl or n < off: t.mark_trivial(); return
	A = np.moveaxis(a,ax,0)
	kw = {"axis":ax, "off":off, "inclusive":inc}
	r = utils.block_reduce(a, b, op=op, **kw)
	want = np.moveaxis(np.array([op(A[i:j],0) for i,j in bl]),0,ax)
	if b == 1: want = a
	t.close(r.astype(float), want.astype(float), "block_reduce", rtol=1e-12, atol=1e-12)
	e = utils.block_expand(r, b, n, **kw)
	E = np.zeros(A.shape, r.dtype)
	for k,(i,j) in enumerate(bl): E[i:j] = np.moveaxis(r,ax,0)[k]
	t.eq(e, np.moveaxis(E,0,ax), "block_expand")
	# Linear: only along the last axis, without offset
	L = np.moveaxis(a,ax,-1).astype(float)
	bl = blocks(n,b,0,True)
	rr = utils.block_reduce(L, b)
	lin = utils.block_expand(rr, b, n, op="linear")
	cent = np.array([(i+j-1)/2. for i,j in bl])
	if len(bl) > 1 and n%b == 0:
		ref = np.array([np.interp(np.arange(n),cent,row) for row in rr.reshape(-1,len(bl))]).reshape(rr.shape[:-1]+(n,))
		t.close(lin, ref, "linear block_expand", rtol=1e-10, atol=1e-12)
	t.true(lin.shape == L.shape, "linear block_expand shape")
	# Incomplete blocks are interpolated with their own scale
	wi = np.concatenate([np.full(j-i,k)+(np.arange(j-i)+0.5)/(j-i)-0.5 for k,(i,j) in enumerate(bl)])
	ref = np.array([np.interp(wi,np.arange(len(bl)),row) for row in rr.reshape(-1,len(bl))]).reshape(rr.shape[:-1]+(n,))
	t.close(lin, ref, "linear block_expand", rtol=1e-10, atol=1e-12)
	# block_mean_filter. The last block is completed by mirroring
	if n >= b and n%b == 0:
		t.close(utils.block_mean_filter(L, b), utils.block_expand(rr, b, n), "block_mean_filter", rtol=1e-12, atol=1e-13)
	elif n < b: t.close(utils.block_mean_filter(L,b), np.mean(L,-1)[...,None]+L*0, "block_mean_filter short", rtol=1e-12, atol=1e-13)
	t.eq(a, a0, "input modified")

def gen_bin(d):
	nd = d.int(1,3)
	k = d.int(1,nd)
	return {"shape":[d.int(1,9) for _ in range(nd)], "steps":[d.int(1,4) for _ in range(k)], "axes":d.choice([None,"lead"]), "seed":d.seed()}
@prop.law(gen_bin, quick=600, rule="some step is above one")
def binning(c, t):
	a = geo.data(c, tuple(c["shape"])); nd = a.ndim; steps = c["steps"]; k = len(steps)
	axes = list(range(-k,0)) if c["axes"] is None else list(range(k))
	kw = {} if c["axes"] is None else {"axes":axes}
	full = [1]*nd
	for ax, s in zip(axes,steps): full[ax] = s
	t.mark_trivial(max(full)==1)
	up = a
	for i in range(nd): up = np.repeat(up, full[i], i)
	t.eq(resample.upsample_bin(a, steps, **kw), up, "upsample_bin")
	t.close(resample.downsample_bin(up, steps, **kw), a, "downsample_bin(upsample_bin)", rtol=1e-12)
	if all(a.shape[i] >= full[i] for i in range(nd)):
		w = a
		for i in range(nd):
			n = w.shape[i]//full[i]
			w = np.moveaxis(np.array([np.mean(np.moveaxis(w,i,0)[j*full[i]:(j+1)*full[i]],0) for j in range(n)]),0,i)
		t.close(resample.downsample_bin(a, steps, **kw), w, "downsample_bin", rtol=1e-10, atol=1e-13)
		t.close(resample.resample(a, [1./s for s in steps], method="bin", **kw), w, "resample bin down", rtol=1e-10, atol=1e-13)
	t.eq(resample.resample(a, [float(s) for s in steps], method="bin", **kw), up, "resample bin up")

_methods.add_law(prop)
