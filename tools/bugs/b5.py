"""Fifth batch of planted bugs."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
U, EN, CS, RE = "pixell/utils.py", "pixell/enmap.py", "pixell/curvedsky.py", "pixell/reproject.py"
pre = "import sys, os, tempfile, numpy as np\nfrom pixell import enmap, utils\n"
plant("f31-wquant", "P31", [(U, "	icum      = (icum - 0.5*ivar)/np.where(ends>0, ends, 1) # [A,n]\n", "	icum      = (icum - 0.5*ivar)/np.maximum(ends, 1) # [A,n]\n")], pre+"""
x = np.arange(10.)
a = utils.weighted_quantile(x, np.ones(10)*0.01, 0.5)
sys.exit(0 if np.isclose(a, 4.5) else 1)
""", "weights that sum to less than one", "the weights are not normalized")
plant("f33-cgx0", "P33", [(U, "			self.x  = x0.copy()\n			self.r  = b-self.A(self.x)\n		# Internal work variables\n		n = b.size\n", "			self.x  = np.asanyarray(x0, dtype=b.dtype)\n			self.r  = b-self.A(self.x)\n		# Internal work variables\n		n = b.size\n")], pre+"""
A = np.diag(np.arange(1,6.)); b = np.ones(5); x0 = np.zeros(5)+.5
cg = utils.CG(lambda x: A.dot(x), b, x0=x0)
for i in range(3): cg.step()
sys.exit(0 if np.all(x0 == .5) else 1)
""", "a starting guess of the same type as the right-hand side", "the solver works in the caller's starting guess")
plant("f28-distribute", "P28", [(RE, "			snx += tNxs[j]\n", "			snx += tNxs[0]\n")], pre+"""
import io, contextlib
from pixell import reproject
s, w = enmap.geometry(pos=[0,0], res=0.01, shape=(5,11), proj="car")
with contextlib.redirect_stdout(io.StringIO()): m = reproject.populate(s, w, lambda s, w: enmap.posmap(s, w)[1], maxpixy=3, maxpixx=4)
sys.exit(0 if np.allclose(m, enmap.posmap(s, w)[1]) else 1)
""", "a map whose width isn't a multiple of the tile width", "tiles after the first short or long one are put at the wrong place")
plant("f07-pix2l", "P07", [(EN, "	def pix2l(self, pix): return pix2l(self.shape, self.wcs, pix)\n	def contains", "	def pix2l(self, pix): return pix2l(self.shape[-2:][::-1], self.wcs, pix)\n	def contains")], pre+"""
m = enmap.zeros((20,30), enmap.geometry(pos=[0,0], res=0.01, shape=(20,30), proj="car")[1])
p = np.array([[1,2,3],[4,5,6]])
sys.exit(0 if np.allclose(m.pix2l(p), enmap.pix2l(m.shape, m.wcs, p)) else 1)
""", "maps that aren't square", "the method swaps the height and the width of the map")
plant("f13-apodmed", "P13", [(EN, "		offset = np.median(map,(-2,-1))[...,None,None]\n", "		offset = np.median(map,(-2,-1))[...,None,None] if map.ndim < 4 else np.median(map)\n")], pre+"""
s, w = enmap.geometry(pos=[0,0], res=0.01, shape=(10,12), proj="car")
m = enmap.zeros((2,2)+s, w); m += np.arange(4).reshape(2,2,1,1)
o = enmap.apod(m, 3, fill="median")
sys.exit(0 if np.allclose(o, m) else 1)
""", "maps with two or more leading dimensions", "all components get the same median")
plant("f03-mul32", "P28", [(RE, "			nside = round(nside/32)*32\n", "			nside = round(nside//32)*32\n")], pre+"""
from pixell import reproject
sys.exit(0 if reproject.restrict_nside(33,"mul32") == 64 and reproject.restrict_nside(64,"mul32") == 64 else 1)
""", "an nside that isn't a multiple of 32 already", "the result is rounded down to below the resolution needed")
plant("f25-range", "P25", [(U, "			step = toks[2] if len(toks) > 2 else 1\n", "			step = abs(toks[2]) if len(toks) > 2 else 1\n")], pre+"""
sys.exit(0 if utils.parse_ints("10:2:-3,7").tolist() == [10,7,4,7] else 1)
""", "ranges with negative steps", "ranges with negative steps are empty")
