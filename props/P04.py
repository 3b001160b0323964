import numpy as np
from harness.core import Prop, rng
from harness import methods as _methods, geo
from pixell import enmap, wcsutils, utils
prop = Prop("P04", assumptions=["zenithal pixel areas are compared within the accuracy of the contour approximation, for pixels below 1 degree and |dec|<70"])
DEG = np.pi/180

def gen_cyl(d):
	g = d.choice([geo.gen_cyl,geo.gen_cyl,geo.gen_full])(d, 1 if d.bool() else 4, 14, flips=True)
	if g["kind"] == "full" and g["n"][0] < 4: g = geo.gen_full(d, 4, 14, flips=True)
	return {"geo":g, "pre":geo.gen_pre(d,2), "bsize":d.choice([1,2,5,1000]), "bc":d.bool(), "seed":d.seed()}

def row_edges(g, ny):
	dec, _ = geo.cyl_pix2sky(g, np.arange(ny+1)-0.5, 0*np.arange(ny+1))
	return np.clip(dec, -np.pi/2, np.pi/2)

@prop.law(gen_cyl, quick=1500, rule="every cylindrical geometry")
def cylindrical(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	full = tuple(c["pre"])+shape
	ny, nx = shape
	e = row_edges(g, ny)
	dra  = g["cdelt"][0]*DEG
	rowA = np.abs((np.sin(e[1:])-np.sin(e[:-1]))*dra)
	H    = e[1:]-e[:-1]
	W    = dra*(np.sin(e[1:])-np.sin(e[:-1]))/H
	want = np.broadcast_to(rowA[:,None],shape)
	t.label(g["kind"])
	ps = enmap.pixsizemap(full, wcs)
	t.true(ps.shape == shape, "pixsizemap shape")
	t.close(np.asarray(ps), want, "pixsizemap", rtol=1e-10)
	t.true(np.array_equal(ps.wcs.wcs.crpix, wcs.wcs.crpix), "pixsizemap wcs")
	t.close(np.asarray(ps)/want, np.ones(shape), "pixsizemap of each pixel", rtol=1e-6)
	b = enmap.pixsizemap(full, wcs, broadcastable=True, separable=True)
	t.close(np.broadcast_to(np.asarray(b),shape), want, "pixsizemap broadcastable", rtol=1e-10)
	# At the poles the contour integral can't be done, since the corners are all the same point
	s  = enmap.pixsizemap(full, wcs, separable=False, bsize=c["bsize"])
	t.close(np.asarray(s), want, "pixsizemap contour", rtol=1e-8)
	m = enmap.zeros(full, wcs, np.int8)
	t.eq(m.pixsizemap(), ps, "ndmap.pixsizemap")
	# shapes
	for signed in [False,True]:
		wsh = np.array([H,W]) if signed else np.abs([H,W])
		# row height of a row that is entirely inside
		p = enmap.pixshapemap(full, wcs, signed=signed)
		t.true(p.shape == (2,)+shape, "pixshapemap shape")
		t.close(np.asarray(p), np.broadcast_to(wsh[:,:,None],p.shape), "pixshapemap signed=%s" % signed, rtol=1e-9)
		t.close(np.asarray(enmap.pixshapes_cyl(full, wcs, signed=signed)), wsh, "pixshapes_cyl", rtol=1e-9)
		t.eq(m.pixshapemap(signed=signed), p, "ndmap.pixshapemap")
		if np.all(np.abs(e)<np.pi/2-1e-6): # from the corners, without using that the rows are uniform
			wc = np.array([H,dra*.5*(np.cos(e[1:])+np.cos(e[:-1]))]); p = enmap.pixshapemap(full, wcs, separable=False, bsize=c["bsize"], signed=signed); t.close(np.asarray(p), np.broadcast_to((wc if signed else np.abs(wc))[:,:,None],p.shape), "pixshapemap signed=%s from corners" % signed, rtol=1e-8)
	t.close(np.asarray(enmap.pixshapebounds(full, wcs)), np.array([np.min(np.abs([H,W]),1),np.max(np.abs([H,W]),1)]), "pixshapebounds", rtol=1e-9)
	# totals
	A = np.sum(want)
	t.close(enmap.area(full, wcs), A, "area", rtol=1e-10)
	t.close(m.area(), A, "ndmap.area", rtol=1e-10)
	t.close(enmap.area(full, wcs, method="contour"), A, "area contour", rtol=1e-3)
	t.close(np.sum(np.asarray(ps)), A, "sum of pixel areas", rtol=1e-10)
	if g["kind"] == "full": t.close(A, 4*np.pi, "full sky area", rtol=1e-9)
	t.close(enmap.pixsize(full, wcs), A/(ny*nx), "pixsize", rtol=1e-9)
	t.close(m.pixsize(), A/(ny*nx), "ndmap.pixsize", rtol=1e-9)
	# extent: height is exact, product is the area
	for signed in [False,True]:
		ext = enmap.extent(full, wcs, signed=signed)
		hh  = e[-1]-e[0]
		we  = np.array([hh, np.sign(dra)*A/abs(hh)])
		if not signed: we = np.abs(we)
		t.close(ext, we, "extent signed=%s" % signed, rtol=1e-9)
		t.eq(m.extent(signed=signed), ext, "ndmap.extent")
		t.close(enmap.pixshape(full, wcs, signed=signed), we/np.array(shape), "pixshape", rtol=1e-9)
		ei = np.array([ny*g["cdelt"][1],nx*g["cdelt"][0]])*DEG
		t.close(enmap.extent(full, wcs, signed=signed, method="intermediate"), ei if signed else np.abs(ei), "extent intermediate", rtol=1e-12)
	lp = np.array([hh, np.sign(dra)*A/abs(hh)])
	t.close(enmap.lpixshape(full, wcs), np.abs(2*np.pi/lp), "lpixshape", rtol=1e-9)
	t.close(enmap.lpixsize(full, wcs), 4*np.pi**2/A, "lpixsize", rtol=1e-9)
	# Areas add up over any split of the map
	if ny > 1:
		k = int(rng(c).integers(1,ny))
		t.close(m[...,:k,:].area()+m[...,k:,:].area(), A, "areas of the parts", rtol=1e-9)
	if nx > 1:
		k = int(rng(c).integers(1,nx))
		t.close(m[...,:k].area()+m[...,k:].area(), A, "areas of the parts", rtol=1e-9)

def gen_zen(d):
	g = geo.gen_zen(d, 1, 12, projs=("tan","zea","arc","sin"), maxrad=9, res=(0.01,0.9))
	g["crval"][1] = d.float(-60,60,3)
	return {"geo":g, "pre":geo.gen_pre(d,2), "bsize":d.choice([1,2,5,1000]), "seed":d.seed()}

def jac(g, wcs):
	"""Solid angle of each pixel from the analytic jacobian of the projection integrated over the pixel"""
	ny, nx = g["n"]
	xg, wg = np.polynomial.legendre.leggauss(4)
	y, x = np.mgrid[:ny,:nx].astype(float)
	tot = 0
	for a, wa in zip(xg/2, wg/2):
		for b, wb in zip(xg/2, wg/2):
			X = (x+b+1-g["crpix"][0])*g["cdelt"][0]*DEG
			Y = (y+a+1-g["crpix"][1])*g["cdelt"][1]*DEG
			R = np.sqrt(X**2+Y**2)
			if   g["proj"] == "tan": j = (1+R**2)**-1.5
			elif g["proj"] == "zea": j = 1+0*R
			elif g["proj"] == "arc": j = np.sinc(R/np.pi)
			elif g["proj"] == "sin": j = 1/np.sqrt(1-R**2)
			tot = tot + j*wa*wb
	return tot*abs(g["cdelt"][0]*g["cdelt"][1])*DEG**2

@prop.law(gen_zen, quick=800, rule="every zenithal geometry")
def zenithal(c, t):
	g = c["geo"]
	shape, wcs = geo.build(g)
	full = tuple(c["pre"])+shape
	want = jac(g, wcs)
	ps = enmap.pixsizemap(full, wcs, bsize=c["bsize"])
	t.true(ps.shape == shape, "pixsizemap shape")
	t.close(np.asarray(ps)/want, np.ones(shape), "pixsizemap", rtol=0.02)
	t.close(enmap.area(full, wcs), np.sum(want), "area", rtol=2e-3)
	t.close(enmap.pixsize(full, wcs), np.mean(want), "pixsize", rtol=2e-3)
	for signed in [False,True]:
		ext = enmap.extent(full, wcs, signed=signed)
		t.close(abs(np.prod(ext)), np.sum(want), "extent times extent is the area", rtol=2e-3)
		we = np.array([shape[0]*g["cdelt"][1],shape[1]*g["cdelt"][0]])*DEG
		t.close(ext/(we if signed else np.abs(we)), np.ones(2), "extent", rtol=0.05)
		t.close(enmap.pixshape(full, wcs, signed=signed), ext/shape, "pixshape", rtol=1e-12)
	ny, nx = shape; dec, ra = np.array(wcs.wcs_pix2world(*[a.reshape(-1) for a in np.mgrid[:ny+1,:nx+1][::-1]-.5],0))[::-1].reshape(2,ny+1,nx+1)*DEG
	for signed in [False,True]: # height and width between opposite corners
		dd = dec[1:,1:]-dec[:-1,:-1]; dr = (ra[1:,1:]-ra[:-1,:-1]+np.pi)%(2*np.pi)-np.pi; wsh = np.array([dd,dr*.5*(np.cos(dec[1:,1:])+np.cos(dec[:-1,:-1]))]); p = enmap.pixshapemap(full, wcs, bsize=c["bsize"], signed=signed); t.true(p.shape == (2,)+shape, "pixshapemap shape"); t.close(np.asarray(p), wsh if signed else np.abs(wsh), "pixshapemap signed=%s" % signed, rtol=1e-7)
	b = enmap.pixshapebounds(full, wcs)
	t.true(np.shape(b) == (2,2), "pixshapebounds shape")

_methods.add_law(prop)
