"""Generators and builders for pixelizations. Geometries are built straight from astropy, so that
they don't depend on the pixell code that constructs geometries."""
import numpy as np
from astropy.wcs import WCS
DEG = np.pi/180

def make_wcs(proj, crval, cdelt, crpix):
	"""crval, cdelt, crpix in astropy order (x,y), degrees"""
	w = WCS(naxis=2)
	w.wcs.ctype = ["RA---"+proj.upper(), "DEC--"+proj.upper()]
	w.wcs.crval = crval
	w.wcs.cdelt = cdelt
	w.wcs.crpix = crpix
	w.wcs.cunit = ["deg","deg"]
	if proj.lower() == "cea": w.wcs.set_pv([(2,1,1.0)])
	w.wcs.set()
	return w

CYL = ["car","cea","mer"]
ZEN = ["tan","zea","arc","sin"]

def gen_cyl(d, nmin=1, nmax=12, projs=("car","cea","mer"), flips=True, maxdec=85, res=(0.1,8), square=False):
	"""A cylindrical patch. Anywhere in ra, any crval ra, inside |dec|<maxdec"""
	proj = d.choice(list(projs))
	ny, nx = d.int(nmin,nmax), d.int(nmin,nmax)
	ry = d.logfloat(*res)
	rx = ry if square or d.bool() else d.logfloat(*res)
	# y extent must fit. Work in the linear y coordinate of the projection, in degrees
	ymax = {"car":maxdec, "cea":np.sin(maxdec*DEG)/DEG, "mer":np.log(np.tan(np.pi/4+maxdec*DEG/2))/DEG}[proj]
	ry = min(ry, 2*ymax/max(ny,1)*0.999)
	rx = min(rx, 359.0/nx)
	y0 = d.float(-ymax+ry*ny/2., ymax-ry*ny/2.)
	sy = d.choice([1,-1]) if flips else 1
	sx = d.choice([-1,1]) if flips else -1
	ra0   = d.float(-200,380,3)
	xoff  = d.float(-60,60,2) # distance of patch center from crval in deg
	return {"kind":"cyl","proj":proj,"n":[ny,nx],"cdelt":[sx*rx,sy*ry],"crval":[ra0,0.0],
		"crpix":[ (nx+1)/2.-xoff/(sx*rx), (ny+1)/2.-y0/(sy*ry)]}

def gen_zen(d, nmin=1, nmax=12, projs=tuple(ZEN), flips=True, maxrad=20, res=(0.02,2)):
	proj = d.choice(list(projs))
	ny, nx = d.int(nmin,nmax), d.int(nmin,nmax)
	ry = d.logfloat(*res)
	rx = ry if d.bool() else d.logfloat(*res)
	ry, rx = min(ry, maxrad/max(ny,1)), min(rx, maxrad/max(nx,1))
	sy = d.choice([1,-1]) if flips else 1
	sx = d.choice([-1,1]) if flips else -1
	crval = [d.float(-200,380,3), d.float(-89,89,3)]
	return {"kind":"zen","proj":proj,"n":[ny,nx],"cdelt":[sx*rx,sy*ry],"crval":crval,
		"crpix":[(nx+1)/2.+d.float(-3,3,2), (ny+1)/2.+d.float(-3,3,2)]}

def gen_full(d, nmin=4, nmax=16, variants=("cc","fejer1"), flips=False):
	"""Full-sky CAR with exact periodicity"""
	variant = d.choice(list(variants))
	nyi = d.int(nmin,nmax)
	if variant == "cc":
		# pixels on the poles: ny-1 intervals of size pi/(ny-1). nx = 2*(ny-1)
		ny = nyi+1; r = 180.0/nyi; nx = 2*nyi
		crpix = [nx//2+0.5 if False else nx/2.+1, (ny+1)/2.]
	else:
		ny = nyi; r = 180.0/nyi; nx = 2*nyi
		crpix = [nx/2.+0.5, (ny+1)/2.]
	ra0 = d.choice([0.0,0.0,180.0,90.0,13.5])
	sy = d.choice([1,-1]) if flips else 1
	sx = d.choice([-1,1]) if flips else -1
	return {"kind":"full","variant":variant,"proj":"car","n":[ny,nx],"cdelt":[sx*r,sy*r],"crval":[ra0,0.0],"crpix":crpix}

def gen_any(d, nmin=1, nmax=12, flips=True):
	k = d.choice(["cyl","cyl","zen","full"])
	if k == "cyl": return gen_cyl(d, nmin, nmax, flips=flips)
	if k == "zen": return gen_zen(d, nmin, nmax, flips=flips)
	return gen_full(d, max(4,nmin), max(6,nmax//2), flips=flips)

def build(g):
	"""-> (ny,nx), wcs"""
	return tuple(g["n"]), make_wcs(g["proj"], g["crval"], g["cdelt"], g["crpix"])

def gen_pre(d, maxdim=2, maxlen=3):
	return [d.int(1,maxlen) for _ in range(d.int(0,maxdim))]

def ref_pix2sky(wcs, y, x):
	"""Reference transform straight from astropy. -> dec, ra in radians"""
	y, x = np.broadcast_arrays(np.asarray(y,float), np.asarray(x,float))
	ra, dec = wcs.wcs_pix2world(x.reshape(-1), y.reshape(-1), 0)
	return np.asarray(dec).reshape(y.shape)*DEG, np.asarray(ra).reshape(y.shape)*DEG

def ref_posmap(shape, wcs):
	y, x = np.mgrid[:shape[-2],:shape[-1]]
	return np.array(ref_pix2sky(wcs, y, x))

def to_vec(dec, ra):
	return np.array([np.cos(dec)*np.cos(ra), np.cos(dec)*np.sin(ra), np.sin(dec)])

def sky_dist(p1, p2):
	"""Angular distances between [{dec,ra},...] arrays. Robust for small and large angles"""
	a, b = to_vec(*p1), to_vec(*p2)
	return 2*np.arctan2(np.sqrt(np.sum((a-b)**2,0)), np.sqrt(np.sum((a+b)**2,0)))

def data(c, shape, dtype="float64", extra=0, kind="gauss"):
	r = np.random.default_rng([c["seed"], 77, extra])
	dt = np.dtype(dtype)
	if dt.kind == "f": return r.standard_normal(shape).astype(dt)
	if dt.kind == "c": return (r.standard_normal(shape)+1j*r.standard_normal(shape)).astype(dt)
	if dt.kind == "b": return r.random(shape)<0.5
	if dt.kind == "u": return r.integers(0,100,shape).astype(dt)
	return r.integers(-100,100,shape).astype(dt)

# ---- Analytic transforms, independent of wcslib, for the cylindrical projections ----
def cyl_pix2sky(g, y, x):
	"""Analytic dec,ra in radians (ra not wrapped) of 0-based pixel coordinates"""
	X = (np.asarray(x,float)+1-g["crpix"][0])*g["cdelt"][0]
	Y = (np.asarray(y,float)+1-g["crpix"][1])*g["cdelt"][1]
	ra = (g["crval"][0]+X)*DEG
	if   g["proj"] == "car": dec = Y*DEG
	elif g["proj"] == "cea": dec = np.arcsin(np.clip(Y*DEG,-1,1))
	elif g["proj"] == "mer": dec = 2*np.arctan(np.exp(Y*DEG))-np.pi/2
	return dec, ra

def cyl_sky2pix(g, dec, ra):
	"""Analytic 0-based pixel coordinates, without any wrapping"""
	dec, ra = np.asarray(dec,float), np.asarray(ra,float)
	if   g["proj"] == "car": Y = dec/DEG
	elif g["proj"] == "cea": Y = np.sin(dec)/DEG
	elif g["proj"] == "mer": Y = np.log(np.tan(np.pi/4+dec/2))/DEG
	X = ra/DEG-g["crval"][0]
	return Y/g["cdelt"][1]+g["crpix"][1]-1, X/g["cdelt"][0]+g["crpix"][0]-1
