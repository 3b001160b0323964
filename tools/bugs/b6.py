"""Sixth batch of planted bugs."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
U, EN, CS, RE, PS, UH, AN, CO = ["pixell/%s.py" % n for n in "utils enmap curvedsky reproject pointsrcs uharm analysis coordinates".split()]
pre = "import sys, os, tempfile, numpy as np\nfrom pixell import enmap, utils\n"
plant("g24-mixequi", "P24", [(PS, 'prof_equi = all([is_equi(prof[0]) for prof in profile])', 'prof_equi = any([is_equi(prof[0]) for prof in profile])')], pre+"""
from pixell import pointsrcs
s, w = enmap.geometry(pos=[0,0], res=0.002, shape=(41,41), proj="car")
r1 = np.linspace(0,.02,101); r2 = np.concatenate([[0],np.geomspace(1e-4,.02,100)]); f = lambda r: np.array([r,np.exp(-.5*(r/.004)**2)])
pos = np.array([[-.02,.02],[-.02,.02]])
m = pointsrcs.sim_objects(s, w, pos, np.ones(2), [f(r1),f(r2)], prof_ids=[0,1])
m2= pointsrcs.sim_objects(s, w, pos, np.ones(2), [f(r1),f(r1)], prof_ids=[0,1])
sys.exit(0 if np.allclose(m, m2, atol=1e-2) else 1)
""", "a list of profiles of which some are evenly spaced and others not", "the unevenly spaced profiles are read as if they were evenly spaced")
plant("g29-niter", "P29", [(UH, "return curvedsky.map2alm_adjoint(harm, omap, ainfo=self.ainfo, spin=spin, niter=self.niter)", "return curvedsky.map2alm_adjoint(harm, omap, ainfo=self.ainfo, spin=spin)")], pre+"""
from pixell import uharm, curvedsky
s, w = enmap.geometry(pos=np.array([[-30,40],[30,-40]])*utils.degree, res=4*utils.degree, proj="car")
u = uharm.UHT(s, w, mode="curved", lmax=20, niter=2)
rng = np.random.default_rng(1); m = enmap.ndmap(rng.standard_normal(s), w)
a = rng.standard_normal(u.ainfo.nelem)+1j*rng.standard_normal(u.ainfo.nelem); a[:21] = a[:21].real
l, mm = u.ainfo.get_map().T; wt = np.where(mm>0,2,1)
x = np.sum(wt*(np.conj(u.map2harm(m))*a).real); y = np.sum(m*u.map2harm_adjoint(a.copy()))
sys.exit(0 if abs(x-y) < 1e-6*abs(x) else 1)
""", "a curved-sky transform with iterations", "the adjoint of the analysis ignores the iterations")
plant("g32-cache", "P32", [(AN, "		rho   = enmap.harm2map(beam*rho, spin=0, normalize=\"phys\")\n		# Denominator\n", "		rho  *= beam\n		rho   = enmap.harm2map(rho, spin=0, normalize=\"phys\")\n		# Denominator\n")], pre+"""
from pixell import analysis
s, w = enmap.geometry(pos=[0,0], res=0.001, shape=(20,22), proj="car")
rng = np.random.default_rng(1); m = enmap.ndmap(rng.standard_normal((1,)+s), w); l = enmap.modlmap(s, w)
iv = enmap.ndmap(rng.uniform(1,2,(1,)+s), w); N = analysis.NmatConstcorr((1+0*l)[None,None], iv)
b1, b2 = [enmap.ndmap(np.exp(-.5*(l*x)**2)[None],w) for x in (.001,.002)]
c = {}; N.matched_filter(m, b1, cache=c); a = N.matched_filter(m, b2, cache=c)[0]
sys.exit(0 if np.allclose(a, N.matched_filter(m, b2)[0]) else 1)
""", "filtering with a second beam with the same cache", "the first beam is applied too")
plant("g16-rect", "P16", [(CS, "				mstart = np.arange(mmax+1)*(lmax+1)*stride\n", "				mstart = np.arange(mmax+1)*(mmax+1)*stride\n")], pre+"""
from pixell import curvedsky
a = curvedsky.alm_info(lmax=6, mmax=3, layout="rect")
sys.exit(0 if a.nelem == 4*7 and len(set((l,m) for l,m in a.get_map().tolist())) >= 18+4 else 1)
""", "the rectangular layout with mmax below lmax", "the coefficients of different m overlap")
TI, PW = "pixell/tilemap.py", "pixell/powspec.py"
plant("g23-gap", "P23", [(PW, "	n = np.max(x)+1\n	res = np.zeros((y.shape[0],n))\n	res[:,x] = y\n", "	n = np.max(x)+1\n	res = np.zeros((y.shape[0],n))\n	res[:,n-len(x):] = y\n")], pre+"""
from pixell import powspec
a = powspec.expand_inds(np.array([2,3,6]), np.arange(1,4.)[None])
sys.exit(0 if np.allclose(a, [[0,0,1,2,0,0,3]]) else 1)
""", "a spectrum file in which some multipoles are missing in the middle", "values end up at other multipoles")
LE, AB, WA = "pixell/lensing.py", "pixell/aberration.py", "pixell/wavelets.py"
plant("g26-phiseed", "P26", [(LE, "		alm = np.empty([len(wps),ainfo.nelem],ctype)\n		curvedsky.rand_alm_white(ainfo, alm=alm[:1], seed=phi_seed)\n		curvedsky.rand_alm_white(ainfo, alm=alm[1:], seed=seed)\n", "		alm = np.empty([len(wps),ainfo.nelem],ctype)\n		curvedsky.rand_alm_white(ainfo, alm=alm[1:], seed=seed)\n		curvedsky.rand_alm_white(ainfo, alm=alm[:1], seed=phi_seed if seed is None else seed+phi_seed)\n")], pre+"""
from pixell import lensing
ps = np.array([np.eye(2)]*9).T.copy()
a = lensing.rand_alm(ps, lmax=8, seed=1, phi_seed=7)[0]; b = lensing.rand_alm(ps, lmax=8, seed=2, phi_seed=7)[0]
sys.exit(0 if np.allclose(a,b) else 1)
""", "the same lensing seed with different cmb seeds", "the lensing field isn't the same")
