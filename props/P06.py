import numpy as np, os, shutil
from harness.core import Prop, rng
from harness import methods as _methods, geo
from pixell import enmap, wcsutils, utils
prop = Prop("P06", assumptions=["FITS holds real integer and floating point maps; complex and boolean maps only in HDF", "files are written to a scratch directory that is removed"])
DEG = np.pi/180

def same_wcs(t, w1, w2, shape, msg):
	"""Same positions for the corner pixels"""
	y, x = np.array([0,shape[-2]-1,0,shape[-2]-1]), np.array([0,0,shape[-1]-1,shape[-1]-1])
	t.true(wcsutils.get_proj(w1) == wcsutils.get_proj(w2), msg+": projection")
	a, b = w1.deepcopy(), w2.deepcopy()
	a.wcs.bounds_check(False,False); b.wcs.bounds_check(False,False)
	t.close((y+1-a.wcs.crpix[1])*a.wcs.cdelt[1], (y+1-b.wcs.crpix[1])*b.wcs.cdelt[1], msg+": y", rtol=0, atol=1e-8)
	t.close(a.wcs.crval[0]+(x+1-a.wcs.crpix[0])*a.wcs.cdelt[0], b.wcs.crval[0]+(x+1-b.wcs.crpix[0])*b.wcs.cdelt[0], msg+": x", rtol=0, atol=1e-8)
	p1, p2 = np.array(geo.ref_pix2sky(a,y,x)), np.array(geo.ref_pix2sky(b,y,x))
	ok = np.all(np.isfinite(p1),0)&np.all(np.isfinite(p2),0)&(np.abs(p1[0])<=np.pi/2)
	t.close(geo.sky_dist(p1[:,ok],p2[:,ok]), np.zeros(np.sum(ok)), msg+": position", rtol=0, atol=1e-9)

FITS_DT = ["float64","float32","int16","int32","int64","uint8","int8","uint16","uint32",">f4",">f8",">i4"]
HDF_DT  = FITS_DT+["complex64","complex128","bool"]

def gen_rt(d):
	fmt = d.choice(["fits","fits","fits.gz","hdf","hdf"])
	return {"geo":geo.gen_any(d, 1, 8), "fmt":fmt, "dtype":d.choice(HDF_DT if fmt == "hdf" else FITS_DT), "pre":geo.gen_pre(d,3), "seed":d.seed(), "special":d.bool(), "layout":d.choice(["C","F","slice"]),
		"extra":d.choice([{}, {"FOO":3}, {"OBJECT":"x","LONGKEY":1.5}]), "forcefmt":d.bool(), "sel":[d.int(0,3),d.int(0,3)], "allow":d.bool(), "nextra":d.choice([0,0,50])}

def mkmap(c, shape, wcs, dtype, special, layout, extra=0):
	a = geo.data(c, shape, dtype, extra)
	if special and a.dtype.kind in "fc":
		r = rng(c, 3)
		f = a.reshape(-1)
		f[r.random(f.size)<0.2] = np.nan; f[r.random(f.size)<0.1] = np.inf; f[r.random(f.size)<0.1] = -np.inf; f[r.random(f.size)<0.1] = 0
	if layout == "F": a = np.asfortranarray(a)
	elif layout == "slice":
		b = np.zeros(a.shape[:-1]+(2*a.shape[-1],), a.dtype); b[...,::2] = a; a = b[...,::2]
	return enmap.ndmap(a, wcs)

@prop.law(gen_rt, quick=700, rule="every written map")
def roundtrip(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	full = tuple(c["pre"])+shape
	m = mkmap(c, full, wcs, c["dtype"], c["special"], c["layout"])
	m0, h0 = np.array(m), m.wcs.to_header_string()
	fname = t.tmpdir+"/sub/map."+c["fmt"]
	fmt = c["fmt"].split(".")[0]
	ffmt = None
	if c["forcefmt"]: fname, ffmt = t.tmpdir+"/sub/map_x.dat", fmt
	if c["forcefmt"] and c["fmt"] == "fits.gz": fname = t.tmpdir+"/sub/map.fits.gz"
	extra = dict(c["extra"])
	if fmt == "fits": extra.update({"KEY%d" % i: i for i in range(c["nextra"])})
	kw = {"allow_modify":True} if c["allow"] and fmt == "fits" else {}
	# Something else is there already
	enmap.write_map(fname, enmap.zeros((3,4,5), wcs), fmt=ffmt)
	enmap.write_map(fname, m, fmt=ffmt, extra=extra, **kw)
	if not kw: t.eq(np.asarray(m), m0, "write_map modified the map")
	t.true(m.wcs.to_header_string() == h0, "write_map modified the wcs")
	r = enmap.read_map(fname, fmt=ffmt)
	want_dt = np.dtype(c["dtype"]).newbyteorder("=")
	t.true(isinstance(r, enmap.ndmap), "type")
	t.true(r.dtype == want_dt and (fmt == "hdf" or r.dtype.isnative), "dtype %s became %s" % (want_dt, r.dtype))
	t.eq(np.asarray(r), m0, "values"); same_wcs(t, r.wcs, wcs, shape, "wcs")
	t.true(r.flags.writeable, "writeable")
	s, w = enmap.read_map_geometry(fname, fmt=(ffmt if c["fmt"] != "fits.gz" else None))
	t.eq(s, full, "read_map_geometry shape"); same_wcs(t, w, wcs, shape, "read_map_geometry")
	dt = np.dtype(enmap.read_map_dtype(fname, fmt=(ffmt if c["fmt"] != "fits.gz" else None)))
	t.true(dt == want_dt or dt.newbyteorder("=") == want_dt, "read_map_dtype %s, expected %s" % (dt, want_dt))
	# Slices in the file name
	if ffmt is None:
		a, b = c["sel"]
		r2 = enmap.read_map(fname+":[...,%d:,:%d]" % (a,b+1))
		w2 = m[...,a:,:b+1]
		t.eq(np.asarray(r2), np.asarray(w2), "slice in file name"); 
		if w2.size: same_wcs(t, r2.wcs, w2.wcs, w2.shape, "slice in file name")
		s2, ww2 = enmap.read_map_geometry(fname+":[...,%d:,:%d]" % (a,b+1))
		t.eq(s2[-2:], w2.shape[-2:], "slice in file name, geometry shape")
		if w2.size: same_wcs(t, ww2, w2.wcs, w2.shape, "slice in file name, geometry")
		m.write(t.tmpdir+"/other/m."+c["fmt"]); t.eq(np.asarray(enmap.read_map(t.tmpdir+"/other/m."+c["fmt"])), m0, "ndmap.write")
		m.write(t.tmpdir+"/m.dat", fmt=fmt); t.eq(np.asarray(enmap.read_map(t.tmpdir+"/m.dat", fmt=fmt)), m0, "ndmap.write with format")
	# The extra data is in the file
	if fmt == "hdf":
		import h5py
		with h5py.File(fname,"r") as hf:
			if ffmt is None or True:
				for k, v in extra.items(): t.true(k in hf and (hf[k][()].decode() if isinstance(v,str) else hf[k][()]) == v, "extra data %s" % k)
	else:
		h = enmap.read_fits_header(fname, quick=c["fmt"] != "fits.gz")
		for k, v in extra.items(): t.true(k in h and h[k] == v, "extra header key %s" % k)
	# Minimal npy support
	if c["fmt"] == "hdf":
		np.save(t.tmpdir+"/a.npy", np.ascontiguousarray(m0))
		r = enmap.read_map(t.tmpdir+"/a.npy", wcs=wcs); t.eq(np.asarray(r), m0, "npy values"); same_wcs(t, r.wcs, wcs, shape, "npy wcs")
	# A delayed proxy gives the same
	if fmt == "fits":
		p = enmap.read_map(fname, fmt=ffmt, delayed=True)
		t.true(tuple(p.shape) == full and p.ndim == len(full) and p.npix == shape[0]*shape[1] and p.dtype == want_dt, "proxy attributes")
		t.eq(np.asarray(p[:]), m0, "proxy values")
	# Just the geometry
	gname = t.tmpdir+"/geo.fits"
	enmap.write_map_geometry(gname, full, wcs)
	s, w = enmap.read_map_geometry(gname)
	t.eq(s, full, "write_map_geometry shape"); same_wcs(t, w, wcs, shape, "write_map_geometry")

def gen_part(d):
	g = d.choice([geo.gen_cyl, geo.gen_full, geo.gen_cyl, geo.gen_zen])(d, 2, 9)
	ny, nx = g["n"]
	y1, x1 = d.int(-2,ny-1), d.int(-3,nx+2)
	def sl(n): 
		k = d.choice(["full","a","ab","step"])
		a, b = sorted([d.int(-n,n),d.int(-n,n)])
		return {"full":[None,None,None],"a":[a,None,None],"ab":[a,b,None],"step":[None,None,d.choice([2,-1,-2,3])]}[k]
	npre = d.int(0,2)
	return {"geo":g, "fmt":d.choice(["fits","fits","hdf"]), "dtype":d.choice(["float64","float32","int32"]), "pre":[d.int(1,3) for _ in range(npre)], "seed":d.seed(), "ops":d.list(lambda: d.choice(["sel","box","pixbox","geometry"]),1,1),
		"pixbox":[[y1,x1],[y1+d.int(1,ny+2),x1+d.int(1,nx+3)]], "stride":d.choice([None,None,[1,2],[2,1]]), "sel":[sl(ny),sl(nx)], "selpre":d.choice(["none","first","last"]), "thr":d.choice([0,50,1e7]), "wrap":d.choice(["auto","auto",0]), "mode":d.choice([None,"floor","ceil","inclusive","exclusive"]),
		"recenter":d.choice([False,"auto"]), "stokes":d.choice([None,None,"IAU","COSMO","NONE"]), "U":d.int(0,2), "scd":d.choice([1,1,-1]), "flip":d.choice([False,False,True]), "frac":d.float(-0.4,0.4)}

@prop.law(gen_part, quick=1500, rule="part of the map is selected")
def partial(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	ny, nx = shape
	pre = tuple(c["pre"])
	stokes = c["stokes"] if c["fmt"] == "fits" and pre else None
	full = pre+shape
	m = mkmap(c, full, wcs, c["dtype"], False, "C")
	fname = t.tmpdir+"/map."+c["fmt"]
	extra = {}
	memory = m.copy()
	if stokes:
		t.label("stokes")
		# the last pre-axis (fits axis 3) is stokes. crpix and crval chosen so that U is index c["U"]
		extra = {"CTYPE3":"STOKES", "CRPIX3":float(c["U"]+1), "CRVAL3":3.0, "CDELT3":float(c["scd"])}
		if stokes != "NONE": extra["POLCCONV" if c["thr"] else "POLCONV"] = stokes
		if stokes != "COSMO" and c["U"] < pre[-1]: memory[...,c["U"],:,:] *= -1
	enmap.write_map(fname, m, extra=extra)
	whole = enmap.read_map(fname, sel_threshold=c["thr"])
	t.eq(np.asarray(whole), np.asarray(memory), "full read"); same_wcs(t, whole.wcs, wcs, shape, "full read")
	kw, op = {"wrap":c["wrap"]}, c["ops"][0]
	t.label(op)
	pb = np.array(c["pixbox"])
	if op == "sel":
		sel = (Ellipsis,)+tuple(slice(*s) for s in c["sel"])
		if pre and c["selpre"] == "first": sel = (0,)+sel
		elif pre and c["selpre"] == "last": sel = (Ellipsis,slice(pre[-1]-1,None))+sel[1:]
		kw["sel"] = sel
		want = memory[sel]
	elif op == "pixbox":
		if c["stride"]: pb = np.concatenate([pb,[c["stride"]]],0)
		kw.update(pixbox=pb.copy(), recenter=c["recenter"])
		want = enmap.extract_pixbox(memory, pb, wrap=c["wrap"], recenter=c["recenter"])
	elif op == "geometry":
		ow = wcs.deepcopy(); ow.wcs.crpix -= pb[0,::-1]
		kw["geometry"] = (pre+tuple(pb[1]-pb[0]),ow)
		want = enmap.extract(memory, pre+tuple(pb[1]-pb[0]), ow, wrap=c["wrap"])
	else:
		if g["kind"] == "zen": t.mark_trivial(); return
		p = pb.astype(float)+c["frac"]; p[:,0] = np.clip(p[:,0],-0.5,ny-0.5)
		if np.any(np.abs(p[1]-p[0]) < 1): t.mark_trivial(); return
		if c["flip"]: p = p[::-1]
		box = np.array(geo.cyl_pix2sky(g, p[:,0], p[:,1])).T
		if np.any(np.abs(box[:,0]) > 89.99*DEG): t.mark_trivial(); return
		kw.update(box=box, mode=c["mode"], recenter=c["recenter"])
		want = enmap.submap(memory, box, wrap=c["wrap"], mode=c["mode"], recenter=c["recenter"])
	t.mark_trivial(want.size == 0)
	if want.size == 0: return
	got = enmap.read_map(fname, sel_threshold=c["thr"], **kw)
	t.eq(np.asarray(got), np.asarray(want), "partial read with "+op)
	t.true(got.dtype == want.dtype, "partial read dtype")
	same_wcs(t, got.wcs, want.wcs, want.shape, "partial read with "+op)
	if kw.get("recenter") and g["kind"] != "zen": t.close(got.wcs.wcs.crpix[0], (want.shape[-1]+1)/2., "recentering", rtol=1e-9)
	# Through a delayed proxy, repeatedly
	if c["fmt"] == "fits":
		p = enmap.read_map(fname, delayed=True, sel_threshold=c["thr"])
		for i in range(2):
			if   op == "sel":      got = p[kw["sel"]]
			elif op == "pixbox":   got = p.extract_pixbox(pb, wrap=c["wrap"])
			elif op == "geometry": got = p.extract(*kw["geometry"], wrap=c["wrap"])
			else:                  got = p.submap(kw["box"], mode=c["mode"], wrap=c["wrap"], recenter=c["recenter"])
			t.eq(np.asarray(got), np.asarray(want), "delayed read %d with %s" % (i,op))
			same_wcs(t, got.wcs, want.wcs, want.shape, "delayed read with "+op) if op != "pixbox" else None

def gen_addr(d):
	names = ["a","b","a2","c/d"]
	ops = []
	for i in range(d.int(1,6)): ops.append([d.choice(["write","write","truncate"]), d.choice(names), d.seed(), d.choice(["float64","float32","int32"])])
	return {"geo":geo.gen_any(d,1,5), "ops":ops, "handle":d.bool()}

@prop.law(gen_addr, quick=200, rule="at least two addresses written")
def hdf_addresses(c, t):
	"""A history of writes to addresses in one HDF file, against a dictionary"""
	import h5py
	shape, wcs = geo.build(c["geo"])
	fname = t.tmpdir+"/file.hdf"
	model = {}
	for op, name, seed, dtype in c["ops"]:
		m = enmap.ndmap(geo.data({"seed":seed}, shape, dtype), wcs)
		if op == "truncate":
			enmap.write_map(fname, m); model = {None:m}
		else:
			if c["handle"]:
				with h5py.File(fname,"a") as hf: enmap.write_hdf(hf, m, address=name)
			else: enmap.write_map(fname, m, address=name)
			model[name] = m
		for key, val in model.items():
			r = enmap.read_map(fname, address=key)
			t.eq(np.asarray(r), np.asarray(val), "map at address %s" % key)
			t.true(r.dtype == val.dtype, "dtype")
			s, w = enmap.read_map_geometry(fname, address=key)
			t.eq(s, shape, "geometry at address"); same_wcs(t, w, wcs, shape, "geometry at address")
			t.true(enmap.read_map_dtype(fname, address=key) == val.dtype, "dtype at address")
			with h5py.File(fname,"r") as hf: t.eq(np.asarray(enmap.read_hdf(hf, address=key)), np.asarray(val), "read from handle")
	t.mark_trivial(len(model) < 2)

def gen_hdu(d): return {"geos":[geo.gen_any(d,1,6) for _ in range(d.int(2,4))], "dtypes":[d.choice(["float64","float32","int16","int32"]) for _ in range(4)], "pre":geo.gen_pre(d,2), "seed":d.seed(), "gz":d.bool()}
@prop.law(gen_hdu, quick=150, rule="every generated file")
def hdus(c, t):
	"""Each image of a FITS file with several is read with its own data, geometry and type"""
	from astropy.io import fits
	fname = t.tmpdir+"/multi.fits"+(".gz" if c["gz"] else ""); maps = []; hdus = []
	for i, g in enumerate(c["geos"]):
		shape, wcs = geo.build(g)
		m = enmap.ndmap(geo.data(c, tuple(c["pre"])+shape, c["dtypes"][i], i), wcs); maps.append(m)
		h = wcs.to_header(relax=True); cls = fits.PrimaryHDU if i == 0 else fits.ImageHDU
		hdus.append(cls(np.asarray(m), header=h))
	fits.HDUList(hdus).writeto(fname, overwrite=True)
	for i, m in list(enumerate(maps))+[(None,maps[0])]:
		r = enmap.read_map(fname, hdu=i)
		t.eq(np.asarray(r), np.asarray(m), "image %s" % i); t.true(r.dtype == m.dtype, "dtype of image %s" % i); same_wcs(t, r.wcs, m.wcs, m.shape, "wcs of image %s" % i)
		s, w = enmap.read_map_geometry(fname, hdu=i); t.eq(s, m.shape, "shape of image %s" % i); same_wcs(t, w, m.wcs, m.shape, "geometry of image %s" % i)
		t.true(np.dtype(enmap.read_map_dtype(fname, hdu=i)) == m.dtype, "read_map_dtype of image %s" % i)

_methods.add_law(prop)
