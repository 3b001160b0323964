import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
pre = """
import numpy as np, sys, tempfile, os
from pixell import enmap, utils, wcsutils, curvedsky
"""
E, U, C = "pixell/enmap.py", "pixell/utils.py", "pixell/curvedsky.py"
plant("d16-lmat", "P16", [("cython/cmisc_core.c", """		float * vreal = calloc(N, sizeof(float));
		float * vimag = calloc(N, sizeof(float));
		#pragma omp for
		for(int m = 0; m <= mmax; m++) {
			for(int l = m; l <= leff; l++) {""", """		float * vreal = calloc(N, sizeof(float));
		float * vimag = calloc(N, sizeof(float));
		#pragma omp for
		for(int m = 0; m <= mmax; m++) {
			for(int l = m; l < leff; l++) {""")], pre+"""
ai = curvedsky.alm_info(lmax=4); alm = np.ones((2,ai.nelem),np.complex64)
mat = np.ones((2,2,3),np.float32)
o = ai.lmul(alm.copy(), mat)
sys.exit(0 if abs(o[0,ai.lm2ind(2,1)]-2) < 1e-6 else 1)
""", "single-precision coefficients multiplied by a matrix that ends before lmax", "the last multipole of the matrix is not applied")
plant("d18-rangesub", "P18", [(U, "		if r[1]>r[0]:\n			abmap.append(len(c))\n			rmap.append(rainds[ai])\n			c.append(r)\n		else:\n", "		if r[1]>r[0]:\n			abmap.append(len(c))\n			rmap.append(rainds[ai])\n			c.append(r)\n		elif len(b) > len(a):\n")], pre+"""
c = utils.range_sub([[0,10],[12,20]], [[8,15]])
sys.exit(0 if np.all(np.array(c) == [[0,8],[15,20]]) else 1)
""", "a range to remove that covers the end of one range and the start of the next, with no more ranges to remove than to keep", "the next range is not cut")
plant("d20-cgload", "P20", [(U, """			for key in ["i","rz","rz0","x","r","p","err"]:
				setattr(self, key, hfile[key][()])""", """			for key in ["i","rz","x","r","p","err"]:
				setattr(self, key, hfile[key][()])""")], pre+"""
A = lambda x: np.array([1.,2,3])*x
b = np.array([1.,2,3]); d = tempfile.mkdtemp()
s1 = utils.CG(A, b); s1.step(); s1.save(d+"/cg.hdf")
s2 = utils.CG(A, b, x0=np.array([.9,.9,1.1])); s2.load(d+"/cg.hdf")
s1.step(); s2.step()
os.remove(d+"/cg.hdf"); os.rmdir(d)
sys.exit(0 if np.isclose(s1.err,s2.err) else 1)
""", "resuming a saved solver in one that was set up with another starting point", "the error estimate after resuming is relative to the wrong start")
plant("d23-stable", "P23", [("pixell/powspec.py", "			for i in range(min(c,n-len(which))):\n", "			for i in range(min(c,n-len(which)))[::-1 if c > 2 else 1]:\n")], pre+"""
from pixell import powspec
o = powspec.compressed_order(10, "stable")
sys.exit(0 if [list(x) for x in o][6:] == [[3,3],[0,3],[1,3],[2,3]] else 1)
""", "compressed spectra of four or more fields in the stable order", "the cross-spectra of the fourth field change places")
plant("d26-polewrap", "P26", [("pixell/lensing.py", "	a[0,bad] = -np.pi - a[0,bad]\n	a[1,bad] = a[1,bad]+np.pi\n", "	a[0,bad] = -np.pi - a[0,bad]\n	a[1,bad] = a[1,bad]-np.pi/1.0 if np.any(~bad) else a[1,bad]\n")], pre+"""
from pixell import lensing
p = lensing.pole_wrap(np.array([[-1.6,-1.7],[0.3,1.]]))
sys.exit(0 if np.allclose(p[1]%(2*np.pi), np.array([0.3,1])+np.pi) else 1)
""", "positions that are all past the south pole", "right ascension is not changed to the other side of the pole")
plant("d28-brow", "P28", [("pixell/reproject.py", "				vals = iheal[...,healpy.ang2pix(nside, pos[1], pos[0])]\n", "				vals = iheal[...,healpy.ang2pix(nside, pos[1], pos[0]%np.pi if rot is not None and pos.shape[0] < 3 else pos[0])]\n")], pre+"""
from pixell import reproject
import healpy
h = np.array(healpy.pix2vec(16, np.arange(12*16**2))[0])
s, w = enmap.geometry([[-0.2,3.1],[0.2,-3.1]], shape=(5,36), proj="car")
m = reproject.healpix2map(h, s, w, method="spline", order=0, rot=(1.5,0,0))
n = reproject.healpix2map(h, s, w, method="spline", order=1, rot=(1.5,0,0))
sys.exit(0 if np.max(np.abs(m-n)) < 0.2 else 1)
""", "nearest-neighbour reprojection of an unpolarized map with a rotation", "half of the sky is replaced by the other half")
plant("d29-haar", "P29", [("pixell/wavelets.py", "			off  = enmap.get_downgrade_offset(*wave.geometries[i], 2, self.ref)\n", "			off  = enmap.get_downgrade_offset(*wave.geometries[-1], 2, self.ref)\n")], pre+"""
from pixell import wavelets
s, w = enmap.geometry([[0.001,0.1],[0.1,-0.1]], shape=(21,18), proj="car")
m = enmap.ndmap(np.random.default_rng(1).standard_normal(s), w)
ok = True
for k in range(4):
	mm = m[k:]
	h = wavelets.HaarTransform(3)
	ok &= np.allclose(h.wave2map(h.map2wave(mm)), mm)
sys.exit(0 if ok else 1)
""", "a Haar transform with several levels, where the alignment with the reference point differs between levels", "the map is not reconstructed")
plant("d31-quant", "P31", [(U, "	rinds = np.where(i1 == n)\n	cinds = np.where((i1>0)&(i1<n))\n", "	rinds = np.where(i1 >= n-1)\n	cinds = np.where((i1>0)&(i1<n-1))\n")], pre+"""
q = utils.weighted_quantile(np.array([1.,2,3,4]), np.ones(4), 0.8)
sys.exit(0 if np.isclose(q, 3.7) else 1)
""", "quantiles close to the upper end", "the maximum is returned instead of an interpolated value")
plant("d32-kappa", "P32", [("pixell/analysis.py", "		kappa[i,i] = np.maximum(kappa[i,i], np.max(kappa[i,i])*tol)\n", "		kappa[i,i] = np.maximum(kappa[i,i], np.max(kappa[0,0])*tol)\n")], pre+"""
from pixell import analysis
k = np.zeros((2,2,3,3)); k[0,0] = 1; k[1,1] = 1e-6; k[1,1,0,0] = 0
o = analysis.sanitize_kappa(k)
sys.exit(0 if np.isclose(o[1,1,1,1],1e-6) and np.isclose(o[1,1,0,0],1e-10) else 1)
""", "several maps with very different depth", "the weights of the shallow map are raised to those of the deep one")
plant("d35-regbeam", "P35", [(U, "	mask  = np.cumsum(mask,-1) < 0.5\n", "	mask  = np.cumsum(mask,-1) < 0.5 if cutoff > 1e-3 else beam[...,:nl_both] > vcut\n")], pre+"""
l = np.arange(100); b = np.exp(-0.5*(l/8.)**2); b[60] = 0.5
o = utils.regularize_beam(b, cutoff=1e-3)
sys.exit(0 if o[60] < 1e-3 else 1)
""", "a beam that rises above a small cutoff again after having fallen below it", "the part after the first crossing is not regularized")
