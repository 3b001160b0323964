import numpy as np, pickle, copy
from harness.core import Prop
from harness import geo
from pixell import enmap, wcsutils
prop = Prop("P01")

DTYPES = ["float64","float32","complex128","int32","bool"]

def gen_slice(d, n, steps=True):
	step = d.choice([None,1,-1,2,-2,3,-3]) if steps else d.choice([None,1,-1])
	if d.int(0,5) == 0:
		def bound(): return None if d.int(0,3) == 0 else d.int(-n-3, n+3)
		return [bound(), bound(), step]
	# A non-empty selection, with its bounds written in one of the equivalent ways
	a = d.int(0,n-1); b = d.int(a+1,n)
	def write(i, lo, hi):
		k = d.int(0,3)
		if i == lo and k == 1: return None
		if i == lo and lo == 0 and k == 2: return -n-d.int(0,3)
		if i == hi and k == 1: return None
		if i == hi and hi >= n-1 and k == 2: return n+d.int(0,3)
		if 0 <= i < n and k == 3: return i-n
		return i if i >= 0 else None
	if (step or 1) > 0: return [write(a,0,None), write(b,None,n), step]
	else: return [write(b-1,None,n-1), write(a-1,-1,None), step]

def gen_sel(d, pre, ny, nx):
	"""list of index items. Pixel axes always sliced"""
	sel = []
	npre = d.int(0, len(pre))
	for i in range(npre):
		k = d.int(0,2)
		if k == 0:   sel.append(["i", d.int(-pre[i], pre[i]-1)])
		elif k == 1: sel.append(["s", gen_slice(d, pre[i])])
		else:        sel.append(["i", 0])
	form = d.int(0,3)
	ys, xs = ["s", gen_slice(d, ny)], ["s", gen_slice(d, nx)]
	if npre == len(pre) and form == 0: sel += [ys, xs]
	elif npre == len(pre) and form == 1: sel += [ys]
	elif form == 2: sel += []
	else: sel += [["e"], ys, xs]
	return sel

def mksel(sel):
	res = []
	for s in sel:
		if s[0] == "i": res.append(s[1])
		elif s[0] == "s": res.append(slice(*s[1]))
		elif s[0] == "e": res.append(Ellipsis)
		elif s[0] == "n": res.append(None)
	return tuple(res)

def pixslices(sel, ndim):
	"""The slices sel applies to the pixel axes"""
	full = []
	for s in sel:
		if s is Ellipsis: full += [slice(None)]*(ndim-(len(sel)-1))
		else: full.append(s)
	full += [slice(None)]*(ndim-len(full))
	return full[-2], full[-1]

def expected_coords(sl, n):
	"""fractional input pixel coordinate of the centre of each output pixel"""
	start, stop, step = sl.indices(n)
	idx = np.arange(start, stop, step)
	# bigger steps: the output pixel extends from the near edge of the selected pixel and step further
	return idx + (step-np.sign(step))/2.

def gen(d):
	g   = geo.gen_any(d, 1, 9)
	pre = geo.gen_pre(d)
	return {"geo":g, "pre":pre, "dtype":d.choice(DTYPES), "seed":d.seed(), "sel":gen_sel(d, pre, *g["n"]), "sel2":None}

def check_geo(t, g, sel, shape, wcs, oshape, owcs, msg):
	ys, xs = pixslices(sel, len(shape))
	y, x = expected_coords(ys, shape[-2]), expected_coords(xs, shape[-1])
	t.true(tuple(oshape[-2:]) == (len(y),len(x)), "%s: pixel shape %s but expected %s" % (msg, oshape[-2:], (len(y),len(x))))
	if len(y) == 0 or len(x) == 0: return
	want = geo.ref_pix2sky(wcs, *np.meshgrid(y, x, indexing="ij"))
	got  = geo.ref_posmap(oshape, owcs)
	good = np.isfinite(want[0])
	dist = geo.sky_dist(want, got)
	t.true(not np.any(dist[good] > 1e-7), "%s: sky positions moved by up to %g rad" % (msg, np.max(dist[good],initial=0)))
	t.eq(owcs.wcs.crval, wcs.wcs.crval, msg+" crval")

@prop.law(gen, quick=5000, rule="selections that keep at least one pixel and are not the whole map")
def slicing(c, t):
	shape, wcs = geo.build(c["geo"])
	shape = tuple(c["pre"])+shape
	arr = geo.data(c, shape, c["dtype"])
	m   = enmap.ndmap(arr.copy(), wcs)
	sel = mksel(c["sel"])
	want = arr[sel]
	got  = m[sel]
	t.mark_trivial(want.size == 0 or want.shape == arr.shape)
	t.true(isinstance(got, enmap.ndmap), "slicing the pixel axes should give an ndmap")
	t.eq(np.asarray(got), want, "sliced data")
	t.true(got.dtype == arr.dtype, "sliced dtype")
	check_geo(t, c["geo"], sel, shape, wcs, got.shape, got.wcs, "ndmap slice")
	# the original is not affected
	t.eq(np.asarray(m), arr, "slicing changed the data")
	check_geo(t, c["geo"], (Ellipsis,), shape, wcs, m.shape, m.wcs, "original after slicing")
	# slice_geometry and Geometry agree
	ys, xs = pixslices(sel, len(shape))
	gs, gw = enmap.slice_geometry(shape, wcs, (ys,xs))
	check_geo(t, c["geo"], (Ellipsis,ys,xs), shape, wcs, gs, gw, "slice_geometry")
	t.true(tuple(gs[:-2]) == tuple(shape[:-2]), "slice_geometry pre-dimensions")
	G = enmap.Geometry(shape, wcs)[ys,xs]
	check_geo(t, c["geo"], (Ellipsis,ys,xs), shape, wcs, G.shape, G.wcs, "Geometry slice")
	# Slices are views: assignment through them modifies the selected elements only
	if want.size > 0:
		val = geo.data(c, want.shape, c["dtype"], extra=5)
		arr2 = arr.copy(); arr2[sel] = val
		m2 = enmap.ndmap(arr.copy(), wcs)
		m2[sel][...] = val
		t.eq(np.asarray(m2), arr2, "assignment through a slice")
		m3 = enmap.ndmap(arr.copy(), wcs)
		m3[sel] = val
		t.eq(np.asarray(m3), arr2, "setitem")

def gen2(d):
	c = gen(d)
	n1 = np.zeros(tuple(c["geo"]["n"]),bool)[tuple(slice(*gen_slice_fix(d,c,i)) for i in range(2))].shape
	c["sel2"] = [gen_slice(d, max(1,n1[0]), False), gen_slice(d, max(1,n1[1]), False)]
	return c

def gen_slice_fix(d, c, i):
	s = gen_slice(d, c["geo"]["n"][i], True)
	c.setdefault("sel1", []).append(s)
	return s

@prop.law(gen2, quick=2500, rule="both selections keep pixels")
def slicing_twice(c, t):
	shape, wcs = geo.build(c["geo"])
	shape = tuple(c["pre"])+shape
	arr = geo.data(c, shape, c["dtype"])
	m   = enmap.ndmap(arr.copy(), wcs)
	s1  = (Ellipsis,)+tuple(slice(*s) for s in c["sel1"])
	s2  = (Ellipsis,)+tuple(slice(*s) for s in c["sel2"])
	a   = m[s1]
	b   = a[s2]
	t.mark_trivial(b.size == 0)
	t.eq(np.asarray(b), arr[s1][s2], "data of double slice")
	if b.size == 0: return
	yx = []
	for i in range(2):
		co = expected_coords(s1[i+1], shape[-2+i])
		yx.append(co[s2[i+1]])
	want = geo.ref_pix2sky(wcs, *np.meshgrid(yx[0], yx[1], indexing="ij"))
	got  = geo.ref_posmap(b.shape, b.wcs)
	good = np.isfinite(want[0])
	t.true(not np.any(geo.sky_dist(want,got)[good] > 1e-7), "sky positions after slicing twice")

UNARY  = ["neg","abs","square","exp"]
BINARY = ["add","sub","mul","gt","maximum"]
def gen3(d):
	c = gen(d)
	c["op"] = d.choice(UNARY+BINARY)
	c["dtype"] = d.choice(["float64","float32","int32"])
	c["axis"] = d.int(-3,-1)
	return c

@prop.law(gen3, quick=1500, rule="every generated map and operation")
def containers(c, t):
	"""copy, pickle, arithmetic, views and constructors keep data and wcs"""
	shape, wcs = geo.build(c["geo"])
	shape = tuple(c["pre"])+shape
	arr = geo.data(c, shape, c["dtype"])
	m   = enmap.ndmap(arr.copy(), wcs)
	if c["op"] in UNARY:
		f = {"neg":np.negative,"abs":np.abs,"square":np.square,"exp":lambda x:np.exp(x/100.)}[c["op"]]
		want, got = f(arr), f(m)
	else:
		f = {"add":np.add,"sub":np.subtract,"mul":np.multiply,"gt":np.greater,"maximum":np.maximum}[c["op"]]
		b = geo.data(c, shape[-2:], c["dtype"], extra=3)
		want, got = f(arr,b), f(m,enmap.ndmap(b,wcs))
		t.eq(np.asarray(f(b,m)), f(b,arr), "reverse operation")
		i1 = m.copy(); 
		if c["op"] == "add": i1 += b; t.eq(np.asarray(i1), arr+b, "in-place add")
	t.true(isinstance(got, enmap.ndmap), "ufunc result should be an ndmap")
	t.eq(np.asarray(got), want, "ufunc %s" % c["op"])
	t.eq(np.asarray(m), arr, "input of ufunc")
	for name, x in [("ufunc",got),("copy",m.copy()),("copy.deepcopy",copy.deepcopy(m)),("pickle",pickle.loads(pickle.dumps(m))),
			("enmap",enmap.enmap(m)),("enmap nocopy",enmap.enmap(arr,wcs,copy=False)),("samewcs",enmap.samewcs(arr.copy(),m)),
			("astype",m.astype(np.float64)),("enmap dtype",enmap.enmap(m,dtype=np.float32))]:
		t.true(isinstance(x, enmap.ndmap), name+" should give an ndmap")
		if name not in ["ufunc"]: 
			if name == "enmap dtype": t.eq(np.asarray(x), arr.astype(np.float32), name+" data"); t.true(x.dtype==np.float32, "dtype")
			else: t.eq(np.asarray(x), arr, name+" data")
		if name in ["copy","pickle","copy.deepcopy","enmap","samewcs"]: t.true(x.dtype == arr.dtype, name+" dtype")
		w = x.wcs
		t.close(w.wcs.crval, wcs.wcs.crval, name+" crval", rtol=1e-9, atol=1e-9)
		t.close(w.wcs.cdelt, wcs.wcs.cdelt, name+" cdelt", rtol=1e-9)
		t.close(w.wcs.crpix, wcs.wcs.crpix, name+" crpix", rtol=1e-9, atol=1e-9)
		t.true(list(w.wcs.ctype) == list(wcs.wcs.ctype), name+" ctype")
		t.close(geo.sky_dist(geo.ref_posmap(x.shape,w), geo.ref_posmap(shape,wcs)), np.zeros(shape[-2:]), name+" positions", atol=1e-7, rtol=0)
	# copies are independent of the original
	cp = m.copy(); cp[...] = 0; cp.wcs.wcs.crval[0] += 7
	t.eq(np.asarray(m), arr, "modifying a copy changed the original")
	t.eq(m.wcs.wcs.crval, wcs.wcs.crval, "modifying the wcs of a copy changed the original")
	e2 = enmap.enmap(m); e2[...] = 0
	t.eq(np.asarray(m), arr, "modifying an enmap() copy changed the original")
	# constructors
	for name, fun, val in [("zeros",enmap.zeros,0),("ones",enmap.ones,1)]:
		z = fun(shape, wcs, np.dtype(c["dtype"]))
		t.eq(np.asarray(z), np.full(shape, val, c["dtype"]), name)
		t.true(z.dtype == np.dtype(c["dtype"]), name+" dtype")
		t.eq(z.wcs.wcs.crpix, wcs.wcs.crpix, name+" wcs")
	z = enmap.full(shape, wcs, 7, np.dtype(c["dtype"]))
	t.eq(np.asarray(z), np.full(shape, 7, c["dtype"]), "full")
	t.true(tuple(enmap.empty(shape, wcs).shape) == shape, "empty shape")
	# reductions over the leading axes keep the wcs; over pixel axes give plain arrays/scalars
	if len(c["pre"]) > 0:
		s = np.sum(m, 0)
		t.eq(np.asarray(s), np.sum(arr,0), "sum over leading axis")
		t.true(isinstance(s, enmap.ndmap), "sum over a leading axis should be an ndmap")
		t.eq(s.wcs.wcs.crpix, wcs.wcs.crpix, "sum wcs")
	t.eq(np.asarray(np.sum(m,(-2,-1))), np.sum(arr,(-2,-1)), "sum over pixels")
	# direct indexing of pixel axes gives plain numpy data
	y, x = c["seed"]%shape[-2], (c["seed"]//7)%shape[-1]
	t.eq(np.asarray(m[...,y,x]), arr[...,y,x], "pixel indexing")
	t.eq(np.asarray(m[...,y,:]), arr[...,y,:], "row indexing")
	mask = geo.data(c, shape[-2:], "bool", extra=9)
	t.eq(np.asarray(m[...,mask]), arr[...,mask], "mask indexing")
	t.eq(np.asarray(m.preflat), arr.reshape((-1,)+shape[-2:]), "preflat")
	t.true(int(m.npix) == shape[-2]*shape[-1] and m.geometry[0] == shape, "npix, geometry")
