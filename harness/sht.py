"""Plain reference implementation of spin-weighted spherical harmonics, independent of ducc"""
import numpy as np
from math import factorial, pi

def wigner_d(l, m, s, theta):
	"""d^l_{m,s}(theta) by the explicit sum"""
	c, sn = np.cos(theta/2), np.sin(theta/2)
	pre = (factorial(l+m)*factorial(l-m)*factorial(l+s)*factorial(l-s))**0.5
	res = np.zeros(np.shape(theta))
	for k in range(max(0,s-m),min(l+s,l-m)+1):
		res = res + (-1)**(m-s+k)/(factorial(l+s-k)*factorial(k)*factorial(m-s+k)*factorial(l-m-k)) * c**(2*l+s-m-2*k)*sn**(m-s+2*k)
	return pre*res
def sYlm(s, l, m, theta, phi):
	"""Goldberg convention: sYlm = (-1)^s sqrt((2l+1)/4pi) d^l_{m,-s}(theta) exp(i m phi)"""
	if l < abs(s) or l < abs(m): return np.zeros(np.shape(theta),complex)
	return (-1)**s*((2*l+1)/(4*pi))**0.5*wigner_d(l,m,-s,theta)*np.exp(1j*m*phi)

def lms(lmax, mmax): return [(l,m) for m in range(mmax+1) for l in range(m,lmax+1)]

def basis(pos, lmax, mmax=None, spin=0):
	"""Matrices that synthesise real fields at pos[{dec,ra},...]. For spin 0 returns (nlm,npix) complex Y such
	that map = Re(sum w_m a_lm Y_lm), w_0 = 1, otherwise 2. For spin s returns a pair for gradient and curl
	each complex (nlm,2,npix)"""
	if mmax is None: mmax = lmax
	theta, phi = np.pi/2-np.asarray(pos[0]).reshape(-1), np.asarray(pos[1]).reshape(-1)
	if spin == 0: return np.array([sYlm(0,l,m,theta,phi) for l,m in lms(lmax,mmax)])
	E, B = [], []
	for l,m in lms(lmax,mmax):
		p = sYlm(spin,l,m,theta,phi); q = (-1)**spin*sYlm(-spin,l,m,theta,phi)
		X1, X2 = (p+q)/2, (p-q)/2
		# a_E, a_B -> (map1, map2)
		E.append([-X1, 1j*X2]); B.append([-1j*X2, -X1])
	return np.array(E), np.array(B)
def weight(lmax, mmax=None):
	return np.array([1. if m==0 else 2. for l,m in lms(lmax,lmax if mmax is None else mmax)])
def synth(alm, pos, lmax, mmax=None, spin=0):
	"""alm[ncomp,nlm] in lms order (m-major triangular) for one spin, ncomp = 1 or 2"""
	w = weight(lmax,mmax)
	if spin == 0:
		Y = basis(pos,lmax,mmax,0); return np.real((alm[0]*w)@Y)[None]
	E, B = basis(pos,lmax,mmax,spin)
	return np.real(np.einsum("i,icp->cp",alm[0]*w,E)+np.einsum("i,icp->cp",alm[1]*w,B))
def deriv(alm, pos, lmax, mmax=None):
	"""(d/ddec, 1/cos(dec) d/dra) of the scalar field alm[nlm]"""
	# The gradient is the spin 1 field with a_E = sqrt(l(l+1)) alm, up to sign
	f = np.array([(l*(l+1))**0.5 for l,m in lms(lmax,lmax if mmax is None else mmax)])
	m = synth(np.array([alm*f,alm*0]), pos, lmax, mmax, spin=1)
	return m
def rand_alm(r, pre, lmax, mmax=None, slope=0):
	ll = lms(lmax,lmax if mmax is None else mmax)
	a = r.standard_normal(tuple(pre)+(len(ll),))+1j*r.standard_normal(tuple(pre)+(len(ll),))
	a[...,[m==0 for l,m in ll]] = a[...,[m==0 for l,m in ll]].real
	return a
def aprod(a, b, lmax, mmax=None):
	"""The inner product of alms, matching the integral of the product of the fields"""
	return np.sum(np.real(a*np.conj(b))*weight(lmax,mmax))

# ---- Geometries for harmonic transforms ----
def ducc_wcs(kind, ny, nx, flips, ra0, xoff):
	"""The full-sky CAR grids: name -> fraction of a pixel between the first/last row and the poles"""
	o1, o2 = {"CC":(0,0),"F1":(.5,.5),"MW":(.5,0),"MWflip":(0,.5),"DH":(0,1),"F2":(1,1)}[kind]
	dy = 180./(ny-1+o1+o2); dx = 360./nx
	# in north to south order
	y0 = (o1+90/dy*0) # distance of row 0 from the north pole in rows
	yeq = 90./dy-o1   # row (0-based) of the equator
	if flips[0]: cy, sy = yeq, -1
	else:        cy, sy = ny-1-yeq, 1
	return {"kind":"full","grid":kind,"proj":"car","n":[ny,nx],"cdelt":[(1 if flips[1] else -1)*dx,sy*dy],"crval":[ra0,0.0],"crpix":[nx/2.+xoff,cy+1]}
def gen_sht_full(d, nymin=3, nymax=10, nxmax=16, grids=("CC","F1","MW","MWflip","DH","F2"), nxmin=2):
	return ducc_wcs(d.choice(grids), d.int(nymin,nymax), d.int(nxmin,nxmax), [d.bool(),d.bool()], d.choice([0.,180.,13.5,-77.,361.25]), d.choice([0.,.5,1.,.25,-3.7]))
def cut(g, y1, y2, x1, x2):
	g = dict(g); g["n"] = [y2-y1,x2-x1]; g["crpix"] = [g["crpix"][0]-x1,g["crpix"][1]-y1]; g["kind"] = "cut"; return g
def gen_sht_cut(d, nymax=12, nxmax=16):
	g = gen_sht_full(d,4,nymax,nxmax); ny, nx = g["n"]
	y1 = d.int(0,ny-1); y2 = d.int(y1+1,ny)
	if d.bool(): x1, x2 = 0, nx
	else: x1 = d.int(0,nx-1); x2 = d.int(x1+1,nx)
	return cut(g,y1,y2,x1,x2)
def gen_sht_cyl(d, nymax=10, nxmax=16):
	"""Other cylindrical geometries whose pixels divide the sky"""
	from harness import geo
	proj = d.choice(["car","cea","mer","cea"]); ny, nx = d.int(1,nymax), d.int(1,nxmax); N = nx if d.bool() else nx+d.int(0,10)
	if N < 3: N = 3
	nx = min(nx,N)
	sx, sy = d.choice([-1,1]), d.choice([-1,1])
	if proj == "cea" and d.bool(): # full sky, exactly
		dy = 2/geo.DEG/ny; yc = (ny-1)/2.
	else:
		ymax = {"car":89,"cea":np.sin(89*geo.DEG)/geo.DEG,"mer":np.log(np.tan(np.pi/4+85*geo.DEG/2))/geo.DEG}[proj]
		dy = min(d.logfloat(1,20),2*ymax/max(1,ny)*.99); y0 = d.float(-ymax+dy*ny/2,ymax-dy*ny/2); yc = (ny-1)/2.-y0/(sy*dy)
	return {"kind":"cyl","proj":proj,"n":[ny,nx],"cdelt":[sx*360./N,sy*dy],"crval":[d.float(-200,380,2),0.0],"crpix":[d.float(-2,nx+2,2),yc+1]}
def gen_sht_gen(d, nmax=8):
	from harness import geo
	k = d.choice(["cyl","zen","big"])
	if k == "cyl": return geo.gen_cyl(d,1,nmax)
	if k == "zen": return geo.gen_zen(d,1,nmax,maxrad=60,res=(0.5,20))
	n = d.int(2,nmax); m = d.int(2,nmax); r = 360./min(n,m)*d.float(.7,1.3); proj = d.choice(["zea","arc","sin","ait","tan"])
	return {"kind":"big","proj":proj,"n":[n,m],"cdelt":[-r,r] if proj!="sin" else [-120./n,120./m],"crval":[d.float(-200,380,1),0. if proj=="ait" else d.float(-89,89,1)],"crpix":[m/2.+d.float(-1,1,1),n/2.+d.float(-1,1,1)]}
def gen_sht(d):
	k = d.choice(["full","cut","cyl","gen"])
	return {"full":gen_sht_full,"cut":gen_sht_cut,"cyl":gen_sht_cyl,"gen":gen_sht_gen}[k](d)
def posmap(g):
	from harness import geo
	shape, wcs = geo.build(g)
	if g["proj"] in geo.CYL:
		y, x = np.mgrid[:shape[0],:shape[1]]
		return np.array(geo.cyl_pix2sky(g,y,x))
	wcs = wcs.deepcopy(); wcs.wcs.bounds_check(False,False)
	return geo.ref_posmap(shape,wcs)
