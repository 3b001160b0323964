"""Law registry, generator wrapper and comparison helpers shared by every property module."""
import hashlib, json, sys
import numpy as np

# check.py has already brought the build up to date. Stop the editable install from running
# ninja again in every worker, which would race.
for _f in sys.meta_path:
	if type(_f).__name__ == "MesonpyMetaFinder" and hasattr(_f, "_build_cmd"): _f._build_cmd = ["true"]

class Violation(Exception):
	"""The property does not hold for the current case."""

class HarnessError(Exception):
	"""The machinery itself failed; never reported as a violation."""

class Draw:
	"""Thin layer over a hypothesis `draw` function. Everything drawn is JSON-able, so a
	shrunk case can be saved and replayed without hypothesis."""
	def __init__(self, draw):
		self._draw = draw
		from hypothesis import strategies as st
		self.st = st
	def int(self, lo, hi): return self._draw(self.st.integers(lo, hi))
	def bool(self): return self._draw(self.st.booleans())
	def choice(self, vals): return self._draw(self.st.sampled_from(list(vals)))
	def float(self, lo, hi, digits=None):
		"""Floats over [lo,hi]. Drawn on a fine integer grid so that they shrink nicely, include the
		end points, and mix round values with arbitrary ones."""
		n = self._draw(self.st.integers(0, 2**20))
		v = lo + (hi-lo)*(n/2.0**20)
		if digits is not None: v = min(hi,max(lo,round(v, digits)))
		return float(v)
	def logfloat(self, lo, hi):
		return float(np.exp(self.float(np.log(lo), np.log(hi))))
	def seed(self): return self._draw(self.st.integers(0, 2**31-1))
	def list(self, fun, nmin, nmax):
		n = self.int(nmin, nmax)
		return [fun() for _ in range(n)]
	def subset(self, vals):
		return [v for v in vals if self.bool()]
	def text(self, alphabet, nmin=0, nmax=10):
		return self._draw(self.st.text(alphabet=alphabet, min_size=nmin, max_size=nmax))

class Ctx:
	"""Per-case context handed to the laws."""
	def __init__(self):
		self.labels  = {}
		self.trivial = False
		self.tmpdir  = None
	def label(self, *names):
		for n in names: self.labels[str(n)] = 1
	def mark_trivial(self, cond=True):
		if cond: self.trivial = True
	# Comparisons
	def fail(self, msg): raise Violation(msg)
	def true(self, cond, msg):
		if not np.all(cond): raise Violation(msg)
	def eq(self, a, b, msg):
		"""Exact equality, including shape, NaN compares equal"""
		a, b = np.asarray(a), np.asarray(b)
		if a.shape != b.shape: raise Violation("%s: shape %s != %s" % (msg, a.shape, b.shape))
		if a.dtype.kind in "fc" or b.dtype.kind in "fc":
			ok = (a==b)|((a!=a)&(b!=b))
		else: ok = a==b
		if not np.all(ok):
			i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(ok))[0])
			raise Violation("%s: %d/%d differ, first at %s: %r != %r" % (msg, np.sum(~np.asarray(ok)), a.size, i, np.atleast_1d(a)[i], np.atleast_1d(b)[i]))
	def close(self, a, b, msg, rtol=1e-7, atol=0, scale=None):
		"""|a-b| <= atol + rtol*scale, where scale defaults to max(|b|)"""
		a, b = np.asarray(a), np.asarray(b)
		if a.shape != b.shape: raise Violation("%s: shape %s != %s" % (msg, a.shape, b.shape))
		if a.size == 0: return
		if a.dtype == bool: a = a.astype(int)
		if b.dtype == bool: b = b.astype(int)
		na, nb = a!=a, b!=b
		if np.any(na != nb): raise Violation("%s: NaN pattern differs (%d vs %d)" % (msg, np.sum(na), np.sum(nb)))
		good = ~nb
		if not np.any(good): return
		a, b = a[good], b[good]
		inf = np.isinf(b)|np.isinf(a)
		if np.any(inf):
			if not np.all(a[inf]==b[inf]): raise Violation("%s: infinities differ" % msg)
			a, b = a[~inf], b[~inf]
			if a.size == 0: return
		if scale is None: scale = np.max(np.abs(b))
		tol  = atol + rtol*scale
		err  = np.abs(a-b)
		worst= np.max(err)
		if not worst <= tol:
			i = int(np.argmax(err))
			raise Violation("%s: max error %.4g > tol %.4g (got %r, expected %r, %d/%d bad)" % (msg, worst, tol, a.reshape(-1)[i], b.reshape(-1)[i], np.sum(err>tol), err.size))
	def close_ang(self, a, b, msg, atol=1e-9, period=2*np.pi):
		a, b = np.asarray(a,float), np.asarray(b,float)
		if a.shape != b.shape: raise Violation("%s: shape %s != %s" % (msg, a.shape, b.shape))
		d = (a-b+period/2)%period-period/2
		self.close(d, np.zeros(d.shape), msg, rtol=0, atol=atol)
	def raises(self, exc, fun, msg):
		try: fun()
		except exc: return
		except Exception as e: raise Violation("%s: expected %s but got %s: %s" % (msg, exc, type(e).__name__, e))
		raise Violation("%s: expected %s but nothing was raised" % (msg, exc))

class Law:
	def __init__(self, name, gen, check, quick, thorough, rule, shards=None):
		self.name, self.gen, self.check = name, gen, check
		self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards

class Prop:
	"""A property: a set of laws. Each law is a generator gen(d)->case and a check(case, t)."""
	def __init__(self, id, env=None, assumptions=()):
		self.id, self.laws, self.env = id, {}, env or {}
		self.assumptions = list(assumptions)
	def law(self, gen, quick=200, thorough=None, rule="every generated case", name=None, shards=None):
		def deco(fun):
			n = name or fun.__name__
			assert n not in self.laws
			self.laws[n] = Law(n, gen, fun, quick, thorough or quick*12, rule, shards)
			return fun
		return deco

def casehash(law, case):
	return hashlib.sha1((law+json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]

def rng(c, extra=0):
	"""The numpy generator for the case"""
	return np.random.default_rng([c["seed"] if isinstance(c, dict) else c, extra])
