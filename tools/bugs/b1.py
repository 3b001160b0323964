import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
pre = """
import numpy as np, sys, tempfile, os
from pixell import enmap, utils, wcsutils
"""
E = "pixell/enmap.py"
plant("b01-substep", "P01", [(E, "		wcs.wcs.crpix[j] += 0.5\n", "		wcs.wcs.crpix[j] += 0.5 if s.step > -3 else 0.5/abs(s.step)\n")], pre+"""
m = enmap.zeros((12,12), enmap.geometry([[-0.1,0.1],[0.1,-0.1]], shape=(12,12), proj="car")[1])
s = m[::-3]
p, q = m.posmap()[0,:,0], s.posmap()[0,:,0]
# pixel k covers input rows 11-3k, 10-3k, 9-3k, whose middle is row 10-3k
want = p[10::-3]
sys.exit(0 if np.allclose(q, want, atol=1e-8) else 1)
""", "a slice with a step of -3 or below", "the wcs of a map sub-sampled backwards is offset by a fraction of a pixel")
plant("b02-skywrap", "P02", [(E, "			wn = np.abs(360./wcs.wcs.cdelt[i])\n			if safe == 1:", "			wn = np.abs(360./wcs.wcs.cdelt[0])\n			if safe == 1:")], pre+"""
w = wcsutils.WCS(naxis=2)
w.wcs.ctype = ["RA---CAR","DEC--CAR"]; w.wcs.crval = [0,0]; w.wcs.cdelt = [-4,0.5]; w.wcs.crpix=[5,5]; w.wcs.set()
p = np.array([60*np.pi/180, 0])
y, x = enmap.sky2pix((9,9), w, p)
sys.exit(0 if abs(y-124)<1e-6 and abs(x-4)<1e-6 else 1)
""", "pixels much wider than tall and positions far outside the map in dec", "sky2pix wraps the dec axis with the period of the ra axis")
plant("b03-thumb", "P03", [(E, "crval=[0,0], cdelt=res[::-1]/utils.degree, crpix=shape[::-1]//2+1)", "crval=[0,0], cdelt=res[::-1]/utils.degree, crpix=shape//2+1)")], pre+"""
s, w = enmap.thumbnail_geometry(res=0.01, shape=(11,31))
p = enmap.pix2sky(s, w, [5,15])
sys.exit(0 if np.allclose(p, 0, atol=1e-9) else 1)
""", "a thumbnail with different height and width, given by shape and resolution", "the centre of the thumbnail is not at the middle pixel")
plant("b04-polecap", "P04", [(E, "if not np.isfinite(dec[-1]): dec[-1] =  np.pi/2 if wcs.wcs.cdelt[1] >= 0 else -np.pi/2\n	dec = np.clip(dec, -np.pi/2, np.pi/2)", "if not np.isfinite(dec[-1]): dec[-1] =  np.pi/2 if wcs.wcs.cdelt[1] >= 0 else -np.pi/2\n	dec = np.maximum(dec, -np.pi/2)")], pre+"""
s, w = enmap.fullsky_geometry(shape=(13,24), variant="cc")
a = np.sum(enmap.pixsizemap(s, w))
sys.exit(0 if abs(a-4*np.pi)<1e-9 else 1)
""", "a map whose last row of pixels extends beyond the north pole", "the pixels on the pole have the wrong area")
plant("b05-widewrap", "P05", [(E, "	# If our map is wider than the wrapping length, assume we're a lower-spin field\n	nphi *= (nphi+map.shape[-1]-1)//nphi\n", "	# If our map is wider than the wrapping length, assume we're a lower-spin field\n	nphi *= (nphi+map.shape[-1])//nphi\n")], pre+"""
s, w = enmap.fullsky_geometry(shape=(8,16), variant="fejer1")
m = enmap.ndmap(np.arange(128.).reshape(8,16), w)
o = enmap.extract_pixbox(m, [[0,-3],[8,5]])
sys.exit(0 if np.all(np.asarray(o) == np.roll(np.asarray(m),3,1)[:,:8]) else 1)
""", "a map that goes exactly once around the sky and a box across its edge", "the part of the box on the other side of the edge is left empty")
plant("b06-delayedsel", "P06", [(E, """	if box      is not None: data = submap(data, box, mode=mode, wrap=wrap, recenter=recenter)
	if pixbox   is not None: data = extract_pixbox(data, pixbox, wrap=wrap, recenter=recenter)""", """	if box      is not None: data = submap(data, box, mode=mode, recenter=recenter)
	if pixbox   is not None: data = extract_pixbox(data, pixbox, wrap=wrap, recenter=recenter)""")], pre+"""
with tempfile.TemporaryDirectory() as d:
	s, w = enmap.fullsky_geometry(shape=(8,16), variant="fejer1")
	m = enmap.ndmap(np.arange(128.).reshape(8,16)+1, w)
	enmap.write_map(d+"/m.fits", m)
	box = np.array([[-1,3.5],[1,2.7]])
	a = enmap.read_map(d+"/m.fits", box=box, wrap=0)
	b = m.submap(box, wrap=0)
	sys.exit(0 if a.shape == b.shape and np.all(a==b) else 1)
""", "reading a box that crosses the edge of the sky with wrapping turned off", "the box is wrapped in spite of wrap=0")
