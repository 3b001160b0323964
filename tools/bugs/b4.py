"""Fourth batch of planted bugs, for the properties that had none."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
U, EN, CS = "pixell/utils.py", "pixell/enmap.py", "pixell/curvedsky.py"
pre = "import sys, os, tempfile, numpy as np\nfrom pixell import enmap, utils\n"
plant("e14-spincycle", "P14", [(EN, "		yield spin[ci], i1, i2\n		if i2 == n: break\n		i1 = i2\n		ci = (ci+1)%len(spin)\n", "		yield spin[ci], i1, i2\n		if i2 == n: break\n		i1 = i2\n		ci = min(ci+1,len(spin)-1)\n"),
	(EN, "			yield spin[ci], Itot\n			if i2 == n: break\n			i1 = i2\n			ci = (ci+1)%len(spin)\n", "			yield spin[ci], Itot\n			if i2 == n: break\n			i1 = i2\n			ci = min(ci+1,len(spin)-1)\n")], pre+"""
from pixell import curvedsky
s, w = enmap.fullsky_geometry(res=np.pi/12)
alm = curvedsky.rand_alm(np.ones((7,7,7))*np.eye(7)[:,:,None], seed=1)
# [0,1,2] followed by 0 and 1 again would leave one component over
m = curvedsky.alm2map(alm[:6], enmap.zeros((6,)+s, w), spin=[0,0,1])
n = [curvedsky.alm2map(alm[i:i+1], enmap.zeros((1,)+s, w), spin=0)[0] for i in (0,1)]
ok = np.allclose(m[:2], n)
try: m = curvedsky.alm2map(alm[:5], enmap.zeros((5,)+s, w), spin=[0,0,1])
except IndexError: ok = False
else: ok &= np.allclose(m[4], curvedsky.alm2map(alm[4:5], enmap.zeros((1,)+s, w), spin=0)[0])
sys.exit(0 if ok else 1)
""", "more components than the spin list describes, so that it has to start over", "the last spin is repeated instead of starting over from the first")
plant("e16-lmulsp", "P16", [("cython/cmisc_core.c", "			float   v = l <= lfmax ? lfun[l] : 0;\n", "			float   v = lfun[l <= lfmax ? l : lfmax];\n")], pre+"""
from pixell import curvedsky
ai = curvedsky.alm_info(10)
o = ai.lmul(np.ones(ai.nelem, np.complex64), np.ones(5, np.float32))
sys.exit(0 if np.allclose(o[5:11], 0) and np.allclose(o[:5],1) else 1)
""", "a single-precision filter that ends before lmax", "the last value of the filter is used beyond its end")
plant("e17-m0imag", "P17", [(CS, "	alm[:,:ainfo.lmax+1].imag  = 0\n	alm[:,:ainfo.lmax+1].real *= 2**0.5\n	if ps.ndim == 1: alm = alm[0]\n", "	alm[:1,:ainfo.lmax+1].imag = 0\n	alm[:,:ainfo.lmax+1].real *= 2**0.5\n	if ps.ndim == 1: alm = alm[0]\n")], pre+"""
from pixell import curvedsky
a = curvedsky.rand_alm(np.ones((3,3,11))*np.eye(3)[:,:,None], seed=1)
sys.exit(0 if np.all(a[:,:11].imag == 0) else 1)
""", "simulating several fields", "the m=0 coefficients of all but the first field are not real, and have too much power")
plant("e19-polyedge", "P19", [(U, "		between = (pang >= 0) & (pang < ang2)\n", "		between = (pang >= 0) & (pang < np.maximum(ang2,1*degree))\n")], pre+"""
p = np.array([[0,0],[0.001,0],[0.001,0.001],[0,0.001]])
d = utils.poly_edge_dist(np.array([0.005,0.0]), p)
sys.exit(0 if np.isclose(d, 0.004, rtol=1e-3) else 1)
""", "polygons with edges shorter than a degree, and points a bit outside", "the edges are taken to be a degree long")
plant("e21-tilesum", "P21", [("pixell/tilemap.py", "		oflat[ooffs[oact]:ooffs[oact]+osizes[oact]] += recv_buf[rbuf_off:rbuf_off+osizes[oact]]\n", "		oflat[ooffs[oact]:ooffs[oact]+osizes[oact]] = recv_buf[rbuf_off:rbuf_off+osizes[oact]] if rank == comm.rank else oflat[ooffs[oact]:ooffs[oact]+osizes[oact]] + recv_buf[rbuf_off:rbuf_off+osizes[oact]]\n")], pre+"""
import threading
from pixell import tilemap
# A minimal communicator with two ranks in threads
class Comm:
	size = 2; bar = threading.Barrier(2); box = [None,None]
	def __init__(self, rank): self.rank = rank
	def ex(self, v):
		self.bar.wait(); self.box[self.rank] = v; self.bar.wait(); r = list(self.box); self.bar.wait(); return r
	def allgather(self, v): return self.ex(v)
	def Allgather(self, s, r):
		r[...] = np.array(self.ex(np.array(s))).reshape(r.shape)
	def Allgatherv(self, s, r):
		v = np.concatenate([x.reshape(-1) for x in self.ex(np.array(s))]); b = r[0] if isinstance(r,(tuple,list)) else r; b.reshape(-1)[:] = v
	def Alltoallv(self, s, r):
		(sb,(ss,so)),(rb,(rs,ro)) = s, r
		alls = self.ex([np.array(sb[o:o+n]) for n,o in zip(ss,so)])
		for i in range(self.size): rb[ro[i]:ro[i]+rs[i]] = alls[i][self.rank]
s, w = enmap.geometry([[-0.1,0.1],[0.1,-0.1]], shape=(8,8), proj="car")
res = [None,None]
def work(rank):
	g = tilemap.geometry(s, w, tile_shape=(4,4), active=[0,1])
	m = tilemap.zeros(g); m += rank+1.0
	try: res[rank] = np.array(tilemap.redistribute(m, Comm(rank), active=[rank]))
	except Exception as e: res[rank] = e; Comm.bar.abort()
th = [threading.Thread(target=work, args=(i,)) for i in range(2)]
for x in th: x.start()
for x in th: x.join()
sys.exit(0 if all(isinstance(r,np.ndarray) and np.all(r == 3) for r in res) else 1)
""", "a tile that several tasks own, being moved to one that is not the first of them", "the contributions from lower ranks are lost")
plant("e22-modrref", "P22", [("pixell/multimap.py", "return modrmap(self.geometries, ref=ref, safe=safe, corner=corner, dtype=dtype)", "return modrmap(self.geometries, ref=ref if not corner else 'center', safe=safe, corner=corner, dtype=dtype)")], pre+"""
from pixell import multimap
s, w = enmap.geometry([[-0.1,0.1],[0.1,-0.1]], shape=(8,8), proj="car")
mm = multimap.multimap([enmap.zeros(s,w), enmap.zeros((5,6),w)])
r  = mm.modrmap(ref=[0.05,0.01], corner=True)
sys.exit(0 if all(np.allclose(a, enmap.modrmap(a.shape, a.wcs, ref=[0.05,0.01], corner=True)) for a in r.maps) else 1)
""", "the distances from a given point to the pixel corners", "the given point is ignored")
plant("e24-profend", "P24", [("cython/srcsim_core.c", "	if(i2 >= n) return 0;\n", "	if(i2 >= n) return equi ? 0 : vs[n-1];\n")], pre+"""
from pixell import pointsrcs
s, w = enmap.geometry([[-0.02,0.02],[0.02,-0.02]], shape=(32,32), proj="car")
r = np.array([0,0.001,0.003,0.006]); v = np.array([1,0.8,0.5,0.2])
m = pointsrcs.sim_objects(s, w, np.array([[0.],[0.]]), np.array([1.]), [np.array([r,v])], vmin=1e-3)
d = enmap.modrmap(s, w, ref=[0,0])
sys.exit(0 if np.all(m[d > 0.0061] == 0) else 1)
""", "a profile with uneven spacing that has not fallen to zero at its end", "the last value continues to the edge of the cell")
plant("e25-dotdir", "P25", [("pixell/bunch.py", "		for i, tok in reversed(list(enumerate(toks))):\n			if \".\" in tok: break\n", "		for i, tok in enumerate(toks):\n			if \".\" in tok.strip(\".\"): break\n")], pre+"""
from pixell import bunch
f, g = bunch.split_hdf_path("a/run.1/b.hdf/x")
sys.exit(0 if (f,g) == ("a/run.1/b.hdf","x") else 1)
""", "a file in a directory with a dot in its name", "the directory is taken to be the file")
plant("e27-dipole", "P27", [("pixell/aberration.py", "			if spin == 0 and dipole:\n				oval -= off\n", "			if dipole:\n				oval -= off\n")], pre+"""
from pixell import aberration
s, w = enmap.fullsky_geometry(res=np.pi/8)
m = enmap.ndmap(np.random.default_rng(1).standard_normal((3,)+s), w)
a = aberration.modulate_map(m, beta=1e-3, dipole=False, modulation="T2lin")
b = aberration.modulate_map(m, beta=1e-3, dipole=True,  modulation="T2lin")
sys.exit(0 if np.allclose(a[1:],b[1:],rtol=1e-6) else 1)
""", "a polarized map modulated to linear units with the dipole kept", "a dipole is added to Q and U too")
plant("e30-cyclic", "P30", [("fortran/interpol.F90", "				v = modulo(i, n)\n", "				v = mod(i+n, n)\n")], pre+"""
a = np.arange(4.)
from pixell import interpol
o = interpol.map_coordinates(a, np.array([[-9.0]]), order=1, border="cyclic")
sys.exit(0 if np.allclose(o, 3.0) else 1)
""", "cyclic interpolation more than a full period before the start", "a value outside the array is read")
plant("e33-nofft", "P33", [(EN, "	else:         emap = emap.copy()\n	emap *= wy[:,None]**pow\n", "	else:         emap = emap if np.iscomplexobj(emap) else emap.copy()\n	emap *= wy[:,None]**pow\n")], pre+"""
s, w = enmap.geometry([[-0.02,0.02],[0.02,-0.02]], shape=(8,8), proj="car")
f = enmap.fft(enmap.ones(s,w)); g = f.copy()
f[1,1] = g[1,1] = 1
enmap.apply_window(f, nofft=True)
sys.exit(0 if np.all(f == g) else 1)
""", "applying the pixel window to a map that is in Fourier space already", "the caller's map is changed")
plant("e34-rgbmask", "P34", [("pixell/enplot.py", "			if args.rgb: bad[:] = np.all(bad,0)\n", "			if args.rgb: bad[:] = np.any(bad,0)\n")], pre+"""
from pixell import enplot
s, w = enmap.geometry([[-0.02,0.02],[0.02,-0.02]], shape=(8,8), proj="car")
m = enmap.ndmap(np.arange(3*64.).reshape((3,)+s), w)
p = enplot.get_plots(m, rgb=True, mask=0, colorbar=False, grid=False, ticks="1", layers=False)[0]
a = np.array(p.img)
q = enplot.get_plots(m+1, rgb=True, colorbar=False, grid=False, ticks="1", layers=False)[0]
sys.exit(0 if a.shape[-1] < 4 or np.all(a[...,3] == np.array(q.img)[...,3]) else 1)
""", "an RGB plot with a mask value that only some of the channels have", "pixels that are only partly masked disappear")
