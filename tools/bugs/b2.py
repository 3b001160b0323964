import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
pre = """
import numpy as np, sys, tempfile, os
from pixell import enmap, utils, wcsutils, curvedsky
"""
E, U, C = "pixell/enmap.py", "pixell/utils.py", "pixell/curvedsky.py"
plant("c05-nbhood", "P05", [(E, "			scale = 1/min(np.cos(dec1), np.cos(dec2))\n", "			scale = 1/np.cos(dec)\n")], pre+"""
s, w = enmap.fullsky_geometry(shape=(90,180), variant="fejer1")
pos, r = np.array([1.2,0.3]), 0.25
b = enmap.neighborhood_pixboxes(s, w, [pos], r)[0]
d = enmap.modrmap(s, w, ref=pos)
y, x = np.where(d < r*0.97)
dx = (x-b[0,1])%180
ok = np.all(y>=b[0,0]) and np.all(y<b[1,0]) and np.all(dx < b[1,1]-b[0,1])
sys.exit(0 if ok else 1)
""", "a circle at high declination", "the box misses the parts of the circle closest to the pole")
plant("c05-blank", "P05", [(E, "equal_nan=True, rtol=1e-6, atol=0).T,axis=tuple(range(m.ndim-2)))", "equal_nan=True, rtol=1e-6, atol=0).T[:1] if m.ndim > 3 else np.isclose(m.T, value.T, equal_nan=True, rtol=1e-6, atol=0).T,axis=tuple(range(m.ndim-2)))")], pre+"""
m = enmap.zeros((2,3,10,12), enmap.geometry([[-0.1,0.1],[0.1,-0.1]], shape=(10,12), proj="car")[1])
m[0,:,3:5,4:6] = 1; m[1,:,2:8,1:10] = 1
b = enmap.find_blank_edges(m, 0)
sys.exit(0 if np.all(b == [[2,1],[2,2]]) else 1)
""", "a map with two leading dimensions whose components are blank in different places", "areas that are only blank in the first map are reported as blank")
plant("c06-stokes", "P06", [(E, "			U_ind = utils.nint((3-crval)/cdelt+crpix)\n", "			U_ind = utils.nint((3-crval)/cdelt)+1\n")], pre+"""
import astropy.io.fits, warnings
warnings.simplefilter("ignore")
with tempfile.TemporaryDirectory() as d:
	w = enmap.geometry([[-0.1,0.1],[0.1,-0.1]], shape=(4,5), proj="car")[1]
	m = enmap.ndmap(np.arange(60.).reshape(3,4,5)+1, w)
	h = m.wcs.to_header(relax=True)
	h["NAXIS"]=3
	for k, v in [("CTYPE3","STOKES"),("CRPIX3",2.0),("CRVAL3",2.0),("CDELT3",1.0),("POLCCONV","IAU")]: h[k] = v
	astropy.io.fits.HDUList([astropy.io.fits.PrimaryHDU(np.array(m), h)]).writeto(d+"/m.fits")
	a = enmap.read_map(d+"/m.fits")
	sys.exit(0 if np.all(a == m*np.array([1,1,-1])[:,None,None]) else 1)
""", "a fits file whose Stokes axis has its reference pixel somewhere else than at 1", "the sign of the wrong component is flipped")
plant("c07-spinrot", "P07", [(E, "			if s != s0: s0, rot = s, queb_rotmat(emap.lmap(), iau=iau, spin=s)\n", "			if rot is None: s0, rot = s, queb_rotmat(emap.lmap(), iau=iau, spin=s)\n")], pre+"""
w = enmap.geometry([[-0.1,0.1],[0.1,-0.1]], shape=(8,9), proj="car")[1]
m = enmap.ndmap(np.random.default_rng(1).standard_normal((5,8,9)), w)
o = enmap.harm2map(enmap.map2harm(m, spin=[0,2,1]), spin=[0,2,1])
sys.exit(0 if np.allclose(o, m) else 1)
""", "a map with components of two different non-zero spins", "the rotation for the first of the spins is used for all of them")
plant("c08-order", "P08", [(E, "omap  = ndmap(map.at(ipix, unit=\"pix\", border=border, order=order), owcs)", "omap  = ndmap(map.at(ipix, unit=\"pix\", border=border, order=min(order,3)), owcs)")], pre+"""
w = enmap.geometry([[-0.1,0.1],[0.1,-0.1]], shape=(12,12), proj="car")[1]
m = enmap.ndmap(np.random.default_rng(1).standard_normal((12,12)), w)
a = enmap.resample(m, (24,24), method="spline", order=5, border="mirror")
p = (np.mgrid[:24,:24]+0.5)/2-0.5
b = utils.interpol(np.asarray(m), p, order=5, border="mirror")
sys.exit(0 if np.allclose(a,b) else 1)
""", "spline resampling with an order above 3", "the order is silently lowered")
plant("c08-nyq", "P08", [(E, '		elif norm == "plain":  norm = fomap.npix/fimap.npix # Corresponds to normalize=False in enmap.ifft', '		elif norm == "plain":  norm = np.prod(oshape[-2:])//fimap.npix or 1./(fimap.npix//fomap.npix) # Corresponds to normalize=False in enmap.ifft')], pre+"""
w = enmap.geometry([[-0.1,0.1],[0.1,-0.1]], shape=(8,9), proj="car")[1]
m = enmap.ndmap(np.ones((8,9)), w)
f = enmap.resample_fft(enmap.fft(m, normalize=False), (12,9), norm="plain")
o = enmap.ifft(f, normalize=False).real/f.npix
sys.exit(0 if np.allclose(o,1) else 1)
""", "fourier resampling with norm='plain' and sizes that do not divide each other", "the values come out scaled")
plant("c09-irfft", "P09", [("pixell/fft.py", "	off  = _dct_sizes[type]\n", "	off  = _dct_sizes[type] if len(utils.astuple(axes or -1)) < 2 else 0\n")], pre+"""
from pixell import fft
a = np.random.default_rng(1).standard_normal((5,6))
b = fft.idct(fft.dct(a, axes=(0,1), type="DST-I"), axes=(0,1), type="DST-I", normalize=True)
sys.exit(0 if np.allclose(a,b) else 1)
""", "a normalized inverse sine or cosine transform of type I along more than one axis", "the result has the wrong scale")
plant("c10-refoff", "P10", [(E, "	else:           return utils.nint(sky2pix(shape, wcs, ref))%factor\n", "	else:           return utils.nint(sky2pix(shape, wcs, ref))%factor[0]\n")], pre+"""
s, w = enmap.geometry([[-0.1,0.1],[0.1,-0.1]], shape=(24,30), proj="car")
o = enmap.get_downgrade_offset(s, w, (2,5), ref=enmap.pix2sky(s, w, [7,13]))
sys.exit(0 if np.all(o == [1,3]) else 1)
""", "downgrading by different factors in y and x with a reference position", "the blocks are not aligned with the reference position")
plant("c11-context", "P11", [(E, "			y2     = np.max(pix[0]).astype(int)+context+1\n", "			y2     = np.max(pix[0]).astype(int)+context\n")], pre+"""
s, w = enmap.geometry([[-0.1,0.1],[0.1,-0.1]], shape=(24,30), proj="car")
m = enmap.ndmap(np.random.default_rng(1).standard_normal(s), w)
os, ow = enmap.geometry([[-0.08,0.08],[0.08,-0.08]], shape=(31,17), proj="car")
a = enmap.project(m, os, ow, order=1, bsize=4)
b = enmap.project(m, os, ow, order=1)
sys.exit(0 if np.allclose(a,b) else 1)
""", "linear projection of more rows than the block size", "rows at the edges of the blocks are wrong")
plant("c12-logbin", "P12", [(U, "	pix  = np.maximum(np.minimum(pix, (np.array(shape)-1)[:,None]),0)\n	inds = np.ravel_multi_index(tuple(pix), tuple(shape))", "	pix  = np.maximum(np.minimum(pix, np.max(shape)-1),0)%np.array(shape)[:,None]\n	inds = np.ravel_multi_index(tuple(pix), tuple(shape))")], pre+"""
h = utils.bin_multi(np.array([[0,2,1],[2,3,9]]), (2,4))
sys.exit(0 if np.all(h == [[0,0,1,0],[0,0,0,2]]) else 1)
""", "samples outside a histogram with different lengths of its axes", "they are wrapped around instead of ending up at the edge")
plant("c13-cellwrap", "P13", [("cython/distances_core.c", "int wrap1(int a, int n) { return a < 0 ? a+n : a >= n ? a-n : a; }", "int wrap1(int a, int n) { return a < 0 ? 0 : a >= n ? n-1 : a; }")], pre+"""
s, w = enmap.fullsky_geometry(shape=(60,120), variant="fejer1")
p = np.array([[0.1,-0.2],[np.pi-0.01,1]]).T.copy()
p = enmap.pix2sky(s, w, [[30,20],[0,60]])
a = enmap.distance_from(s, w, p, method="cellgrid")
b = enmap.distance_from(s, w, p, method="simple")
sys.exit(0 if np.max(np.abs(a-b)) < 0.1 else 1)
""", "a full-sky map, the cellgrid method, and a point near the edge of the map", "distances do not propagate across the edge")
plant("c15-partial", "P15", [(C, "			weights/= minfo.ducc_geo.nx\n		else:", "			weights/= map.shape[-1]\n		else:")], pre+"""
s, w = enmap.fullsky_geometry(shape=(20,40), variant="fejer1")
m = enmap.ndmap(np.random.default_rng(1).standard_normal(s), w)
c = m[:,5:25]
f = enmap.zeros(s,w); f[:,5:25] = c
a = curvedsky.map2alm(c, lmax=8, method="cyl")
b = curvedsky.map2alm(f, lmax=8, method="cyl")
sys.exit(0 if np.allclose(a,b) else 1)
""", "analysis of a map covering a part of each row, with the cyl method", "the coefficients are scaled by the covered fraction")
