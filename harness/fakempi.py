"""A small in-process communicator: every rank is a thread. Enough of mpi4py's interface for the
functions of pixell that take a comm argument. Buffers are checked for being contiguous and of equal size."""
import threading, queue
import numpy as np

class _World:
	def __init__(self, n):
		self.n, self.bar, self.slots = n, threading.Barrier(n), [None]*n
		self.q = {}; self.lock = threading.Lock()
	def chan(self, src, dst, tag):
		with self.lock: return self.q.setdefault((src,dst,tag), queue.Queue())

def _flat(a):
	if not isinstance(a, np.ndarray): a = np.asarray(a)
	if not a.flags["C_CONTIGUOUS"]: raise ValueError("buffer is not contiguous")
	return a.reshape(-1)

class Comm:
	def __init__(self, world, rank): self._w, self.rank, self.size = world, rank, world.n
	def Get_rank(self): return self.rank
	def Get_size(self): return self.size
	def _ex(self, v):
		self._w.slots[self.rank] = v; self._w.bar.wait(60)
		res = list(self._w.slots); self._w.bar.wait(60)
		return res
	def Barrier(self): self._ex(None)
	barrier = Barrier
	def allgather(self, v): return self._ex(v)
	def bcast(self, v, root=0): return self._ex(v)[root]
	def Allgather(self, a, b):
		vals = self._ex(np.array(_flat(a))); out = _flat(b); out[:] = np.concatenate(vals)
	def Allgatherv(self, a, spec):
		b, (n,o) = spec; vals = self._ex(np.array(_flat(a))); out = _flat(b)
		for v,n1,o1 in zip(vals,n,o):
			if v.size != n1: raise ValueError("count mismatch")
			out[o1:o1+n1] = v
	def _red(self, a, op):
		vals = self._ex(np.array(a)); res = vals[0].copy()
		for v in vals[1:]: res = res+v if op is None else op(res,v)
		return res
	def Allreduce(self, a, b, op=None): np.asarray(b)[...] = self._red(a,op)
	def Reduce(self, a, b, op=None, root=0):
		r = self._red(a,op)
		if self.rank == root: np.asarray(b)[...] = r
	def allreduce(self, a, op=None): return self._red(a,op)
	def Alltoallv(self, s, r):
		(sb,(sn,so)), (rb,(rn,ro)) = s, r
		sb = _flat(sb); vals = self._ex([np.array(sb[o:o+n]) for n,o in zip(sn,so)])
		out = _flat(rb)
		for i in range(self.size):
			v = vals[i][self.rank]
			if v.size != rn[i]: raise ValueError("count mismatch: %d sent, %d expected" % (v.size, rn[i]))
			out[ro[i]:ro[i]+rn[i]] = v
	def send(self, v, dest=0, tag=0): self._w.chan(self.rank,dest,tag).put(v)
	def recv(self, source=0, tag=0): return self._w.chan(source,self.rank,tag).get(timeout=60)
	def Send(self, a, dest=0, tag=0): self._w.chan(self.rank,dest,("B",tag)).put(np.array(_flat(a)))
	def Recv(self, a, source=0, tag=0):
		v = self._w.chan(source,self.rank,("B",tag)).get(timeout=60); out = _flat(a)
		if out.size != v.size: raise ValueError("message size mismatch")
		out[:] = v

def run(n, fun):
	"""Run fun(comm) on n ranks, return the list of results. The first real exception is passed on."""
	w = _World(n); res = [None]*n; err = [None]*n
	def work(i):
		try: res[i] = fun(Comm(w,i))
		except BaseException as e: err[i] = e; w.bar.abort()
	ths = [threading.Thread(target=work,args=(i,)) for i in range(n)]
	for th in ths: th.start()
	for th in ths: th.join()
	real = [e for e in err if e is not None and not isinstance(e,(threading.BrokenBarrierError,queue.Empty))] or [e for e in err if e is not None]
	if real: raise real[0]
	return res
