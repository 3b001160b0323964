From 6a48ef15f0a9396798f1af891ac0279f4cd553bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:22 +0000
Subject: [PATCH 001/203] fix: slice bounds beyond the edge of a map shifted
 its wcs

expand_slice did not clamp out-of-range bounds the way numpy does, so
m[-100:5] or m[100:0:-1] returned the right data with the wrong wcs, and
slice_geometry returned negative shapes for empty selections.
---
 pixell/enmap.py | 2 +-
 pixell/utils.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c3767b7..ec41012 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -277,7 +277,7 @@ def slice_geometry(shape, wcs, sel, nowrap=False):
 		wcs.wcs.crpix[j] /= s.step
 		wcs.wcs.cdelt[j] *= s.step
 		wcs.wcs.crpix[j] += 0.5
-		oshape[i] = (s.stop-s.start+s.step-np.sign(s.step))//s.step
+		oshape[i] = max(0,(s.stop-s.start+s.step-np.sign(s.step))//s.step)
 	# Convert this is a bit cumbersome, but ensures we get a tuple of
 	# plain python ints instead of numpy.int64s
 	oshape = tuple([int(a) for a in oshape])
diff --git a/pixell/utils.py b/pixell/utils.py
index a647e0a..b4620ad 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2836,10 +2836,9 @@ def expand_slice(sel, n, nowrap=False):
 	After this, all entries of the slice are guaranteed to be present in their final form.
 	Note, doing this twice may result in odd results, so don't send the result of this
 	into functions that expect an unexpanded slice. Might be replacable with slice.indices()."""
+	if not nowrap: return slice(*sel.indices(n))
 	step = sel.step or 1
-	def cycle(i,n):
-		if nowrap: return i
-		else: return min(i,n) if i >= 0 else n+i
+	def cycle(i,n): return i
 	def default(a, val): return a if a is not None else val
 	if step == 0: raise ValueError("slice step cannot be zero")
 	if step > 0: return slice(cycle(default(sel.start,0),n),cycle(default(sel.stop,n),n),step)
-- 
2.43.0


From 865552dbb7fe3137f51ddc1c42a688f9a9ec1cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:51 +0000
Subject: [PATCH 002/203] fix: shape-based pixelization used the wrong axis and
 sign for ra

---
 pixell/wcsutils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index c4325d4..b74d3e5 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -84,19 +84,17 @@ def pixelization(pwcs, shape=None, res=None, variant=None):
 		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], res=res[0],  offs=offs[0], periodic=periodic[0])
 		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], res=res[1],  offs=offs[1], periodic=periodic[1])
 	elif res is None:
-		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-2], offs=offs[0], periodic=periodic[0])
-		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[0])
+		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-1], offs=offs[0], periodic=periodic[0], sign=-1)
+		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[1])
 	else:
 		raise ValueError("Either res or shape must be given to build a pixelization")
 	# Now that we have the intermediate coordinates of our endpoints, we
 	# can calculate cdelt and crpix
 	owcs  = pwcs.deepcopy()
 	owcs.wcs.cdelt = [(ra2-ra1)/(nx-1), (dec2-dec1)/(ny-1)]
-	# The bottom-left corner has pixel coordinates -ox1,-oy1
-	# The top-right   corner has pixel coordinates (nx-1)-ox2,(ny-1)-oy2
-	# The center is the average of these
-	owcs.wcs.crpix[0] = 1+((nx-1)-ox2-ox1)/2
-	owcs.wcs.crpix[1] = 1+((ny-1)-oy2-oy1)/2
+	# crval has intermediate coordinates 0,0. Find its pixel coordinates from
+	# those of the first pixel
+	owcs.wcs.crpix = [1-ra1/owcs.wcs.cdelt[0], 1-dec1/owcs.wcs.cdelt[1]]
 	if lonpole is not None:
 		owcs.wcs.lonpole = lonpole
 	return (ny,nx), owcs
@@ -313,7 +311,9 @@ def pixelize_1d(w, n=None, res=None, offs=None, periodic=False, adjust=False, si
 	else:
 		if o1 is None: o1 =  0.5
 		if o2 is None: o2 = -0.5
-		res = w/(n-1+o1-o2)
+		# When wrapping around, the pixels at the edges are one and the same
+		if periodic and o1 == o2: res = w/n
+		else: res = w/(n-1+o1-o2)
 	# Finish up
 	if o1 is not None:
 		ra1 = -w/2+o1*res
-- 
2.43.0


From 35a1d8df85119510bce8e6edc78c107b359a5fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:51 +0000
Subject: [PATCH 003/203] fix: recenter_cyl_ra did not pass on the wcs

---
 pixell/wcsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index b74d3e5..2e0e582 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -343,7 +343,7 @@ def recenter_cyl_x(wcs, x):
 	return owcs
 
 def recenter_cyl_ra(wcs, ra):
-	return recenter_cyl_x(wcs.wcs.crpix[0] + (ra-wcs.wcs.crval[0])/wcs.wcs.cdelt[0])
+	return recenter_cyl_x(wcs, wcs.wcs.crpix[0] + (ra-wcs.wcs.crval[0])/wcs.wcs.cdelt[0])
 
 def fix_wcs(wcs, axis=0):
 	"""Returns a new WCS object which has had the reference pixel moved to the
-- 
2.43.0


From d2a5920a9d9597e55e4e1c92a2b926ea167c5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:51 +0000
Subject: [PATCH 004/203] fix: fix_wcs moved crval by the wrong amount

---
 pixell/wcsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index 2e0e582..ed553df 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -618,7 +618,7 @@ def fix_wcs(wcs, axis=0, n=None):
 	dra   = mid-wcs.wcs.crval[axis]
 	dpix  = dra/wcs.wcs.cdelt[axis]
 	res = wcs.deepcopy()
-	res.wcs.crval[axis] += mid
+	res.wcs.crval[axis] += dra
 	res.wcs.crpix[axis] += dpix
 	# I don't think this is necessary any more, but apparently I had
 	# problems with wcs not being properly updated if I didn't do this
-- 
2.43.0


From 24cd8efb570e0d00ef4a9736c53dd1a9afe1f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:51 +0000
Subject: [PATCH 005/203] fix: fullsky_geometry2 and band_geometry2 called the
 wrong geometry function

---
 pixell/enmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index ec41012..0f13cc3 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1582,7 +1582,7 @@ def fullsky_geometry2(res=None, shape=None, pre=None, deg=False, proj="car", var
 	geometry(). See its docstring for the meaning of the arguments.
 
 	dims is an alias for pre provided for backwards compatibility"""
-	return geometry(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
+	return geometry2(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
 
 def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="car", variant=None, dims=None):
 	"""Build a geometry covering a range of declinations. Equivalent to
@@ -1591,10 +1591,11 @@ def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="ca
 
 	dims is an alias for pre provided for backwards compatibility"""
 	unit     = utils.degree if deg else 1
+	if np.ndim(decrange) == 0: decrange = [-decrange,decrange]
 	decrange = (np.zeros(2)+decrange)*unit
 	if decrange.shape != (2,): raise ValueError("decrange must be a number or (dec1,dec2)")
 	pos      = np.array([[decrange[0],np.pi],[decrange[1],-np.pi]])/unit
-	return geometry(pos=pos, res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
+	return geometry2(pos=pos, res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
 
 # Idea: Make geometry a class with .shape and .wcs members.
 # Make a function that takes (foo,bar) and returns a geometry,
-- 
2.43.0


From cc1dda0680c249216bffc964f18f1d1778773eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:08 +0000
Subject: [PATCH 006/203] fix: Geometry(geometry) and Geometry.downgrade always
 failed, pre-dimensions were lost

---
 pixell/enmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0f13cc3..e9336c9 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -301,7 +301,7 @@ class Geometry:
 	def __init__(self, shape, wcs=None):
 		try: self.shape, self.wcs = tuple(shape.shape), shape.wcs
 		except AttributeError: self.shape, self.wcs = tuple(shape), wcs
-		assert wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
+		assert self.wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
 	@property
 	def npix(self): return self.shape[-2]*self.shape[-1]
 	# Make it behave a bit like a tuple, so we can use it interchangably with a shape, wcs pair
@@ -325,7 +325,7 @@ class Geometry:
 		shape, wcs = scale_geometry(self.shape, self.wcs, scale)
 		return Geometry(shape, wcs)
 	def downgrade(self, factor, op=np.mean):
-		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor, op=op)
+		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor)
 		return Geometry(shape, wcs)
 	def copy(self):
 		return Geometry(tuple(self.shape), self.wcs.deepcopy())
@@ -2042,7 +2042,7 @@ def downgrade_geometry(shape, wcs, factor):
 	to scale_geometry, but truncates the same way as downgrade, and only
 	supports integer factors."""
 	factor = np.full(2, 1, dtype=int)*factor
-	oshape = tuple(shape[-2:]//factor)
+	oshape = tuple(shape[:-2])+tuple(shape[-2:]//factor)
 	owcs   = wcsutils.scale(wcs, 1.0/factor, rowmajor=True)
 	return oshape, owcs
 
-- 
2.43.0


From 2cc06ebaa06c71a626a32edb2842039a829e48b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:54 +0000
Subject: [PATCH 007/203] fix: crop_geometry truncated boxes crossing the ra
 wraparound

---
 pixell/enmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index e9336c9..b85d507 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2054,7 +2054,10 @@ def crop_geometry(shape, wcs, box=None, pixbox=None, oshape=None):
 		box    = np.asarray(box)
 		# Allow box and pixbox to be 1d, in which case we will
 		# crop around a central point
-		if box.ndim == 2: pixbox = subinds(shape, wcs, box)
+		if box.ndim == 2:
+			pixbox = subinds(shape, wcs, box)
+			# ra wraps in cylindrical projections, so there's no edge to truncate at there
+			if wcsutils.is_cyl(wcs): pixbox[:,1] = subinds(shape, wcs, box, cap=False)[:,1]
 		else:             pixbox = utils.nint(sky2pix(shape, wcs, box))
 	# We assume that the box selects pixel edges, so any pixel that is
 	# even partially inside the box should be included. This means that
-- 
2.43.0


From 327a1279163913a6baf3cb1eecf81599ee2317eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:40 +0000
Subject: [PATCH 008/203] fix: pixshapebounds mixed height and width for
 non-separable geometries

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index b85d507..6384e33 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1192,7 +1192,7 @@ def pixshapebounds(shape, wcs, separable="auto"):
 	if separable == True or (separable == "auto" and wcsutils.is_separable(wcs)):
 		return utils.minmax(pixshapes_cyl(shape, wcs),1)
 	else:
-		return utils.minmax(pixshapemap(shape, wcs))
+		return utils.minmax(pixshapemap(shape, wcs),(-2,-1))
 
 def lmap(shape, wcs, oversample=1, method="auto"):
 	"""Return a map of all the wavenumbers in the fourier transform
-- 
2.43.0


From 1503b123f8ebcde4d9454148a6eafd4658ff465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:24 +0000
Subject: [PATCH 009/203] fix: insert ignored its wrap argument

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 6384e33..97e5986 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -704,7 +704,7 @@ def extract_pixbox(map, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0,
 def insert(omap, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
 	"""Insert imap into omap based on their world coordinate systems, which
 	must be compatible. Essentially the reverse of extract."""
-	extract(omap, imap.shape, imap.wcs, imap, wrap="auto", op=op, cval=0, iwcs=None, reverse=True)
+	extract(omap, imap.shape, imap.wcs, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=True)
 	return omap
 
 def insert_at(omap, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
-- 
2.43.0


From a50d8d6e3aa30c4cd3343e09ee585b35224ab388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:24 +0000
Subject: [PATCH 010/203] fix: overlap modified the pixbox passed to it

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 97e5986..69223a9 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -734,7 +734,7 @@ def overlap(shape, wcs, shape2_or_pixbox, wcs2=None, wrap="auto"):
 	# Is it a shape or a pixbox
 	tmp = np.asarray(shape2_or_pixbox)
 	if   tmp.ndim == 1: pixbox = pixbox_of(wcs, shape2_or_pixbox, wcs2)
-	elif tmp.ndim == 2: pixbox = shape2_or_pixbox
+	elif tmp.ndim == 2: pixbox = np.array(shape2_or_pixbox)
 	else: raise ValueError("3rd argument of overlap should be an enmap, a shape tuple or a pixbox")
 	# Handle wrapping
 	nphi = utils.nint(360/np.abs(wcs.wcs.cdelt[0]))
-- 
2.43.0


From 39bc2af507da02424ed02c356fae46e27025737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:24 +0000
Subject: [PATCH 011/203] fix: pad with wrap failed when one side had no
 padding

---
 pixell/enmap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 69223a9..1ca7064 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2262,10 +2262,11 @@ def pad(emap, pix, return_slice=False, wrap=False, value=0):
 	mslice = (Ellipsis,slice(pix[0,0],res.shape[-2]-pix[1,0]),slice(pix[0,1],res.shape[-1]-pix[1,1]))
 	res[mslice] = emap
 	if wrap:
-		res[...,:pix[0,0],:]  = res[...,-pix[0,0]-pix[1,0]:-pix[1,0],:]
-		res[...,-pix[1,0]:,:] = res[...,pix[0,0]:pix[0,0]+pix[1,0],:]
-		res[...,:,:pix[0,1]]  = res[...,:,-pix[0,1]-pix[1,1]:-pix[1,1]]
-		res[...,:,-pix[1,1]:] = res[...,:,pix[0,1]:pix[0,1]+pix[1,1]]
+		ny, nx = emap.shape[-2:]
+		res[...,:pix[0,0],:]    = res[...,ny:ny+pix[0,0],:]
+		res[...,pix[0,0]+ny:,:] = res[...,pix[0,0]:pix[0,0]+pix[1,0],:]
+		res[...,:,:pix[0,1]]    = res[...,:,nx:nx+pix[0,1]]
+		res[...,:,pix[0,1]+nx:] = res[...,:,pix[0,1]:pix[0,1]+pix[1,1]]
 	return (res,mslice) if return_slice else res
 
 def find_blank_edges(m, value="auto"):
-- 
2.43.0


From f66e721c3dc90fb07f3da65761fe2d79c020fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:24 +0000
Subject: [PATCH 012/203] fix: neighborhood_pixboxes always failed for plain
 coordinates

---
 pixell/enmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 1ca7064..bd530c0 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -766,9 +766,9 @@ def neighborhood_pixboxes(shape, wcs, poss, r):
 	return pixboxes[npos][{from,to},{y,x}] corresponding to the regions within a
 	distance of r from each entry in poss."""
 	if wcsutils.is_plain(wcs):
-		rpix = r/pixsize(shape, wcs)
-		centers = sky2pix(poss.T).T
-		return np.moveaxis([centers-rpix,center+rpix+1],0,1)
+		rpix    = np.asarray(r)[...,None]/pixshape(shape, wcs)
+		centers = np.moveaxis(sky2pix(shape, wcs, np.moveaxis(poss,-1,0)),0,-1)
+		return utils.nint(np.stack([centers-rpix,centers+rpix+1],-2))
 	poss, r = utils.broadcast_arrays(poss, r, npost=(1,0))
 	res     = np.zeros(poss.shape[:-1]+(2,2))
 	for I in utils.nditer(poss.shape[:-1]):
-- 
2.43.0


From 863ddbf4b70912a1d7d27a20d0001b06e1dc3a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:25 +0000
Subject: [PATCH 013/203] fix: sbox functions modified the sboxes passed to
 them

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index b4620ad..b02d202 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1693,7 +1693,7 @@ def sbox_fix0(sbox):
 
 def sbox_fix(sbox):
 	# Ensure that we have a step, setting it to 1 if missing
-	sbox = sbox_fix0(sbox)
+	sbox = np.array(sbox_fix0(sbox))
 	# Make sure our end point is a whole multiple of the step
 	# from the start
 	sbox[...,1] = sbox[...,0] + sbox_size(sbox)*sbox[...,2]
-- 
2.43.0


From a4f432baca400e082e1c12594cf3922653ed0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:25 +0000
Subject: [PATCH 014/203] fix: sbox_intersect used np.object, which no longer
 exists

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index b02d202..0d71a74 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1578,7 +1578,7 @@ def sbox_intersect(a,b,wrap=0):
 	ndim = a.shape[-2]
 	wrap = np.zeros(ndim,int)+wrap
 	# Loop over all combinations
-	res = np.empty((fa.shape[0],fb.shape[0]),dtype=np.object)
+	res = np.empty((fa.shape[0],fb.shape[0]),dtype=object)
 	for ai, a1 in enumerate(fa):
 		for bi, b1 in enumerate(fb):
 			peraxis = [sbox_intersect_1d(a1[d],b1[d],wrap=wrap[d]) for d in range(ndim)]
-- 
2.43.0


From fe6f217eb629b70d50025a77e541b0b320181e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:25 +0000
Subject: [PATCH 015/203] fix: ndmap.fillbad did not return its result

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index bd530c0..ad87231 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -118,7 +118,7 @@ class ndmap(np.ndarray):
 	def center(self): return center(self.shape,self.wcs)
 	def downgrade(self, factor, op=np.mean, ref=None, off=None): return downgrade(self, factor, op=op, ref=ref, off=off)
 	def upgrade(self, factor,  off=None, oshape=None, inclusive=False): return upgrade(self, factor, off=off, oshape=oshape, inclusive=inclusive)
-	def fillbad(self, val=0, inplace=False): fillbad(self, val=val, inplace=inplace)
+	def fillbad(self, val=0, inplace=False): return fillbad(self, val=val, inplace=inplace)
 	def to_healpix(self, nside=0, order=3, omap=None, chunk=100000, destroy_input=False):
 		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk, destroy_input=destroy_input)
 	def to_flipper(self, omap=None, unpack=True): return to_flipper(self, omap=omap, unpack=unpack)
-- 
2.43.0


From 540dfaa28da4e8e855cc111d2c5b9fee9ff18c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:25 +0000
Subject: [PATCH 016/203] fix: ndmap.at ignored cval

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index ad87231..d9abaec 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -104,7 +104,7 @@ class ndmap(np.ndarray):
 	def extract_pixbox(self, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None, reverse=False): return extract_pixbox(self, pixbox, omap=omap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=reverse)
 	def insert(self, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert(self, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
 	def insert_at(self, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert_at(self, pix, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
-	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=0, unit=unit, safe=safe, ip=ip)
+	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=cval, unit=unit, safe=safe, ip=ip)
 	def argmax(self, unit="coord"): return argmax(self, unit=unit)
 	def autocrop(self, method="plain", value="auto", margin=0, factors=None, return_info=False): return autocrop(self, method, value, margin, factors, return_info)
 	def apod(self, width, profile="cos", fill="zero"): return apod(self, width, profile=profile, fill=fill)
-- 
2.43.0


From bdd3ef0f15a03dfb216ea5638c512c5dad288e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:25 +0000
Subject: [PATCH 017/203] fix: ndmap.to_healpix passed an argument that does
 not exist

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index d9abaec..1f7ab44 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -120,7 +120,7 @@ class ndmap(np.ndarray):
 	def upgrade(self, factor,  off=None, oshape=None, inclusive=False): return upgrade(self, factor, off=off, oshape=oshape, inclusive=inclusive)
 	def fillbad(self, val=0, inplace=False): return fillbad(self, val=val, inplace=inplace)
 	def to_healpix(self, nside=0, order=3, omap=None, chunk=100000, destroy_input=False):
-		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk, destroy_input=destroy_input)
+		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk)
 	def to_flipper(self, omap=None, unpack=True): return to_flipper(self, omap=omap, unpack=unpack)
 	def __getitem__(self, sel):
 		# Split sel into normal and wcs parts.
-- 
2.43.0


From f7b7dafc0f7f6a863680823eef46696efb96d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:14 +0000
Subject: [PATCH 018/203] fix: strided sbox_wrap lost track of samples when
 wrapping or capping

---
 pixell/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 0d71a74..f7c027d 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1747,10 +1747,10 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			boxes_1d = []
 			i = 0
 			while ibox[1] > 0:
-				npre = max((-ibox[0])//ibox[2],0)
+				npre = max(-(ibox[0]//ibox[2]),0)
 				# ibox slice assuming all of the logical ibox is available
 				isub = sbox_fix([ibox[0]+npre*ibox[2],min(ibox[1],w),ibox[2]])
-				nsub = sbox_size(isub)
+				nsub = max(sbox_size(isub),0)
 				# the physical array may be smaller than the logical one.
 				if c:
 					isub = sbox_fix([ibox[0]+npre*ibox[2],min(ibox[1],c),ibox[2]])
@@ -1768,8 +1768,8 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			# upwards and downwards capping. Find the number of samples to
 			# crop on each side
 			if c:
-				npre  = max((-ibox[0])//ibox[2],0)
-				npost = max((ibox[1]-ibox[2]-(c-1))//ibox[2],0)
+				npre  = max(-(ibox[0]//ibox[2]),0)
+				npost = max(-((c-1-ibox[1]+ibox[2])//ibox[2]),0)
 			else: npre, npost = 0, 0
 			# Don't produce a slice if it would be empty
 			if npre + npost < ilen:
-- 
2.43.0


From 69ed28ad0a16834938de3e4f1815ea636b107673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:01 +0000
Subject: [PATCH 019/203] fix: find_blank_edges and autocrop failed for maps
 with components

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 1f7ab44..00da4e7 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2275,14 +2275,14 @@ def find_blank_edges(m, value="auto"):
 	"value" determines which value is considered blank. Can be a float value,
 	or the strings "auto" or "none". Auto will choose the value that maximizes
 	the edge area considered blank. None will result in nothing being consideered blank."""
-	if value == "auto":
+	if utils.streq(value, "auto"):
 		# Find the median value along each edge
 		medians = [np.median(m[...,:,i],-1) for i in [0,-1]] + [np.median(m[...,i,:],-1) for i in [0,-1]]
 		bs = [find_blank_edges(m, med) for med in medians]
 		nb = [np.prod(np.sum(b,0)) for b in bs]
 		blanks = bs[np.argmax(nb)]
 		return blanks
-	elif value == "none":
+	elif utils.streq(value, "none"):
 		# Don't use any values for cropping, so no cropping is done
 		return np.zeros([2,2],dtype=int)
 	else:
-- 
2.43.0


From 1bb61a3a19ce9ccb8e95aafe5a98bbd064f59168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:01 +0000
Subject: [PATCH 020/203] fix: autocrop ignored factors

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 00da4e7..f42275f 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2312,7 +2312,7 @@ def autocrop(m, method="plain", value="auto", margin=0, factors=None, return_inf
 	if method == "plain":
 		goodshape = minshape
 	elif method == "fft":
-		goodshape = np.array([enfft.fft_len(l, direction="above", factors=None) for l in minshape])
+		goodshape = np.array([enfft.fft_len(l, direction="above", factors=factors) for l in minshape])
 	else:
 		raise ValueError("Unknown autocrop method %s!" % method)
 	# Pad if necessary
-- 
2.43.0


From 62c3054b77d0d8c290db55809ace8b1e35b006e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:28 +0000
Subject: [PATCH 021/203] fix: read_map ignored mode

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index f42275f..e08f4a9 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2945,7 +2945,7 @@ def read_helper(data, sel=None, box=None, pixbox=None, geometry=None, wrap="auto
 	"""Helper function for map reading. Handles the slicing, sky-wrapping and capping, etc."""
 	if delayed: return data # Slicing not supported yet when we want to return a proxy object
 	if geometry is not None: data = extract(data, *geometry, wrap=wrap)
-	if box      is not None: data = submap(data, box, wrap=wrap, recenter=recenter)
+	if box      is not None: data = submap(data, box, mode=mode, wrap=wrap, recenter=recenter)
 	if pixbox   is not None: data = extract_pixbox(data, pixbox, wrap=wrap, recenter=recenter)
 	if sel      is not None: data = data[sel]
 	data = data[:] # Get rid of the wrapper if it still remains
-- 
2.43.0


From c89d86b7818fdd7cf6fc8458133319c5b19f9500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:28 +0000
Subject: [PATCH 022/203] fix: each access to a delayed IAU map flipped the
 sign of U again

---
 pixell/enmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index e08f4a9..53fd228 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3016,7 +3016,8 @@ class ndmap_proxy_fits(ndmap_proxy):
 				if ind >= 0 and ind < self.shape[i]:
 					signs[(slice(None),)*i + (ind,)] *= -1
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-2,2])
-			res *= signs[sel1][...,None,None]
+			# Not in-place, since res can be a view of the hdu's cached data
+			res = res*signs[sel1][...,None,None].astype(res.dtype)
 		return ndmap(fix_endian(res), wcs)
 	def __repr__(self): return "ndmap_proxy_fits(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (str(self.fname), str(self.shape), str(self.wcs), str(self.dtype))
 
-- 
2.43.0


From d5672fe3a78ea6d01e3f9787bb4117af2b559962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:51 +0000
Subject: [PATCH 023/203] fix: read_fits_dtype was wrong for unsigned integers

---
 pixell/enmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 53fd228..0ed1a73 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2833,9 +2833,11 @@ def read_fits_dtype(fname, hdu=None, quick=True):
 	header = read_fits_header(fname, hdu=hdu, quick=quick)
 	if "BITPIX" not in header: raise KeyError("BITPIX not defined in fits file")
 	bitpix = header["BITPIX"]
-	table  = {-32:np.float32, -64:np.float64, 8:np.int8, 16:np.int16, 32:np.int32, 64:np.int64}
+	table  = {-32:np.float32, -64:np.float64, 8:np.uint8, 16:np.int16, 32:np.int32, 64:np.int64}
+	# fits only has unsigned 8-bit integers and signed longer ones. The others are represented using an offset
+	offtab = {(8,-2**7):np.int8, (16,2**15):np.uint16, (32,2**31):np.uint32, (64,2**63):np.uint64}
 	if bitpix not in table: raise ValueError("Unrecognized BITPIX %d" % bitpix)
-	return table[bitpix]
+	return offtab.get((bitpix,header.get("BZERO",0)), table[bitpix])
 
 def write_hdf(fname, emap, address=None, extra={}):
 	"""Write an enmap as an hdf file, preserving all the WCS
-- 
2.43.0


From 6cd1fda748279acd9b9b9fb599e2b890f8f21f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:19 +0000
Subject: [PATCH 024/203] fix: fix_endian byteswapped the caller's array
 in-place, corrupting delayed reads

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0ed1a73..65ca1a7 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3043,7 +3043,7 @@ def fix_endian(map):
 	"""Make endianness of array map match the current machine.
 	Returns the result."""
 	if map.dtype.byteorder not in ['=','<' if sys.byteorder == 'little' else '>']:
-		map = map.byteswap(True).view(map.dtype.newbyteorder())
+		map = map.byteswap().view(map.dtype.newbyteorder())
 	map.dtype = utils.fix_dtype_mpi4py(map.dtype)
 	return map
 
-- 
2.43.0


From 38fa30fec493dfc2edf8882dc6b03a4f34191837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:33 +0000
Subject: [PATCH 025/203] fix: read_hdf_geometry failed on byte strings

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 65ca1a7..0e9d87b 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2918,7 +2918,7 @@ def read_hdf_geometry(fname, address=None):
 		hwcs = hfile["wcs"]
 		header = astropy.io.fits.Header()
 		for key in hwcs:
-			header[key] = hwcs[key][()]
+			header[key] = fix_python3(hwcs[key][()])
 		wcs   = wcsutils.WCS(header).sub(2)
 		shape = hfile["data"].shape
 	return shape, wcs
-- 
2.43.0


From 196940093829982e11ac32b668dda8de58b984e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:38 +0000
Subject: [PATCH 026/203] fix: read_fits_header only read the first block of
 the header

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0e9d87b..591ada1 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2807,10 +2807,10 @@ def read_fits_header(fname, hdu=None, quick=True):
 		# Read header only, without body
 		if isinstance(fname, str):
 			with open(fname, "rb") as ifile:
-				header = astropy.io.fits.Header.fromstring(ifile.read(2880))
+				header = astropy.io.fits.Header.fromfile(ifile)
 		else:
 			# Handle the case where the user already has a file object
-			header = astropy.io.fits.Header.fromstring(fname.read(2880))
+			header = astropy.io.fits.Header.fromfile(fname)
 	else:
 		with utils.nowarn():
 			header = astropy.io.fits.open(fname)[hdu].header
-- 
2.43.0


From a6de4db78141ff593b2cac3af3a2b704403c6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:54 +0000
Subject: [PATCH 027/203] fix: dct normalization did not make idct the inverse
 of dct

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 591ada1..c5d5c71 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1270,7 +1270,7 @@ def fft(emap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=Fals
 	else:   res  = samewcs(enfft.fft(emap,omap,axes=[-2,-1],nthread=nthread), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_ifft: norm /= emap.pixsize()**0.5
@@ -1283,7 +1283,7 @@ def ifft(emap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=Fals
 	else:   res  = samewcs(enfft.ifft(emap,omap,axes=[-2,-1],nthread=nthread, normalize=False), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_fft: norm *= emap.pixsize()**0.5
-- 
2.43.0


From f0456623a0ded0cce1eeb88db223fe5c08fd01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:21 +0000
Subject: [PATCH 028/203] fix: fourier resampling moved the highest mode of odd
 lengths to another frequency

---
 pixell/enmap.py    | 11 +++++++----
 pixell/fft.py      | 13 ++++++++-----
 pixell/resample.py | 12 ++++++------
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c5d5c71..e0eadcd 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3168,15 +3168,18 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	# fourier center had been in the middle. This could be acieved using fftshift,
 	# but that would require two extra full-array shifts
 	cny, cnx = np.minimum(fimap.shape[-2:], oshape[-2:])
-	hny, hnx = cny//2, cnx//2
+	# Odd lengths have one more non-negative than negative frequency
+	hny, hnx = (cny+1)//2, (cnx+1)//2
+	iy,  ix  = fimap.shape[-2]-(cny-hny), fimap.shape[-1]-(cnx-hnx)
+	oy,  ox  = oshape[-2]-(cny-hny), oshape[-1]-(cnx-hnx)
 	# This function is used to avoid paying the cost of multiplying by norm when it's one
 	def transfer(dest, source, norm, op):
 		if norm != 1: source = source*norm
 		dest[:] = op(dest, source)
 	transfer(fomap[...,:hny,       :hnx       ],fimap[...,:hny,       :hnx       ], norm, op)
-	transfer(fomap[...,:hny,       -(cnx-hnx):],fimap[...,:hny,       -(cnx-hnx):], norm, op)
-	transfer(fomap[...,-(cny-hny):,:hnx       ],fimap[...,-(cny-hny):,:hnx       ], norm, op)
-	transfer(fomap[...,-(cny-hny):,-(cnx-hnx):],fimap[...,-(cny-hny):,-(cnx-hnx):], norm, op)
+	transfer(fomap[...,:hny,       ox:        ],fimap[...,:hny,       ix:        ], norm, op)
+	transfer(fomap[...,oy:,        :hnx       ],fimap[...,iy:,        :hnx       ], norm, op)
+	transfer(fomap[...,oy:,        ox:        ],fimap[...,iy:,        ix:        ], norm, op)
 	if np.any(off != 0):
 		# It's fastest to do this here when downsampling, but when upsampling
 		# it's faster to do so in the fimap. And for a mix it's bad to do it both places.
diff --git a/pixell/fft.py b/pixell/fft.py
index f486b48..fbb256d 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -416,13 +416,16 @@ def resample_fft(fa, n, out=None, axes=-1, norm=1, op=lambda a,b:b):
 		dest[:] = op(dest, source)
 	# Loop over start and end blocks for all dimensions
 	for bi, I in enumerate(utils.nditer([2]*len(axes))):
-		sel = [slice(None) for n in oshape]
+		isel = [slice(None) for n in oshape]
+		osel = [slice(None) for n in oshape]
 		for ai, ax in enumerate(axes):
 			c = min(fa.shape[ax], oshape[ax])
-			if I[ai] == 0: sel[ax] = slice(0,c//2)
-			else:          sel[ax] = slice(-(c-c//2),None)
-		sel = tuple(sel)
-		transfer(out[sel], fa[sel], norm, op)
+			# Odd lengths have one more non-negative than negative frequency
+			h = (c+1)//2
+			if I[ai] == 0: isel[ax], osel[ax] = slice(0,h), slice(0,h)
+			else:          isel[ax], osel[ax] = slice(fa.shape[ax]-(c-h),None), slice(oshape[ax]-(c-h),None)
+		isel, osel = tuple(isel), tuple(osel)
+		transfer(out[osel], fa[isel], norm, op)
 	return out
 
 def interpol_nufft(a, inds, out=None, axes=None, normalize=True,
diff --git a/pixell/resample.py b/pixell/resample.py
index 21e5a36..d0cfbee 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -86,12 +86,12 @@ def resample_fft(d, n, axes=None):
 		dn   = nnew-nold
 		if dn > 0:
 			padvals = np.zeros(fd.shape[:ax]+(dn,)+fd.shape[ax+1:],fd.dtype)
-			spre  = tuple([slice(None)]*ax+[slice(0,nold//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nold//2,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,(nold+1)//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice((nold+1)//2,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],padvals,fd[spost]],axis=ax)
 		elif dn < 0:
-			spre  = tuple([slice(None)]*ax+[slice(0,nnew//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nnew//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,(nnew+1)//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice((nnew+1)//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],fd[spost]],axis=ax)
 		norm *= float(nnew)/nold
 	# And transform back
@@ -110,9 +110,9 @@ def resample_fft_simple(d, n, ngroup=100):
 	for di in range(0, d.shape[0], ngroup):
 		fd = fft.fft(d[di:di+ngroup])
 		if n < nold:
-			fd = np.concatenate([fd[:,:n//2],fd[:,n//2-dn:]],1)
+			fd = np.concatenate([fd[:,:(n+1)//2],fd[:,(n+1)//2-dn:]],1)
 		else:
-			fd = np.concatenate([fd[:,:nold//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,nold//2:]],-1)
+			fd = np.concatenate([fd[:,:(nold+1)//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,(nold+1)//2:]],-1)
 		res[di:di+ngroup] = fft.ifft(fd, normalize=True).real
 		del fd
 	res *= float(n)/nold
-- 
2.43.0


From c85974d2c47a0859014cb0b228255d7d36d03600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:21 +0000
Subject: [PATCH 029/203] fix: resample_fft returned its input unchanged if the
 last axes happened to have the target length

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index d0cfbee..f46689d 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -67,7 +67,7 @@ def resample_fft(d, n, axes=None):
 	else: assert len(n) == len(axes)
 	assert len(n) <= d.ndim
 	# Nothing to do?
-	if np.all(d.shape[-len(n):] == n): return d
+	if all(d.shape[ax] == nnew for ax, nnew in zip(axes, n)): return d
 	# Use the simple version if we can. It has lower memory overhead
 	if d.ndim == 2 and len(n) == 1 and (axes[0] == 1 or axes[0] == -1):
 		return resample_fft_simple(d, n[0])
-- 
2.43.0


From 9a1b7e19457058acb09819bc2bd36529ec212f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:36 +0000
Subject: [PATCH 030/203] fix: 2d fourier resampling dropped the imaginary part
 and truncated integers

---
 pixell/resample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index f46689d..2c418c6 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -105,7 +105,7 @@ def resample_fft_simple(d, n, ngroup=100):
 	last axis."""
 	nold = d.shape[1]
 	if n == nold: return d
-	res  = np.zeros([d.shape[0],n],dtype=d.dtype)
+	res  = np.zeros([d.shape[0],n],dtype=np.result_type(d,0.0))
 	dn   = n-nold
 	for di in range(0, d.shape[0], ngroup):
 		fd = fft.fft(d[di:di+ngroup])
@@ -113,7 +113,8 @@ def resample_fft_simple(d, n, ngroup=100):
 			fd = np.concatenate([fd[:,:(n+1)//2],fd[:,(n+1)//2-dn:]],1)
 		else:
 			fd = np.concatenate([fd[:,:(nold+1)//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,(nold+1)//2:]],-1)
-		res[di:di+ngroup] = fft.ifft(fd, normalize=True).real
+		tmp = fft.ifft(fd, normalize=True)
+		res[di:di+ngroup] = tmp if np.iscomplexobj(res) else tmp.real
 		del fd
 	res *= float(n)/nold
 	return res
-- 
2.43.0


From ab81c87fb8dcf872ffa64c1ff4a02a714842878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:36 +0000
Subject: [PATCH 031/203] fix: upsample_bin assigned the steps to the axes in
 reverse order

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 2c418c6..b462a28 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -40,7 +40,7 @@ def downsample_bin(d, steps=[2], axes=None):
 def upsample_bin(d, steps=[2], axes=None):
 	shape = d.shape
 	assert len(steps) <= d.ndim
-	if axes is None: axes = np.arange(-1,-len(steps)-1,-1)
+	if axes is None: axes = range(-len(steps),0)
 	assert len(axes) == len(steps)
 	# Expand steps to cover every axis in order
 	fullsteps = np.zeros(d.ndim,dtype=int)+1
-- 
2.43.0


From 05272a3612d5a00b80b4f666a2472e4779d15f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:54 +0000
Subject: [PATCH 032/203] fix: make_equispaced used arguments interpol no
 longer supports

---
 pixell/resample.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index b462a28..3e568d7 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -135,5 +135,11 @@ def make_equispaced(d, t, quantile=0.1, order=3, mask_nan=False):
 	# To interpolate, we need the input sample number as a function of time
 	samples = np.interp(tout, t, np.arange(len(t)))
 	# Now that we have the samples we can finally evaluate the function
-	dout = utils.interpol(d, samples[None], mode="nearest", order=order, mask_nan=mask_nan)
+	d = np.asarray(d)
+	if mask_nan:
+		mask = ~np.isfinite(d)
+		d    = np.where(mask, 0, d)
+	dout = utils.interpol(d, samples[None], border="nearest", order=order)
+	if mask_nan:
+		dout[utils.interpol(mask.astype(dout.dtype), samples[None], mode="nn", border="nearest") != 0] = np.nan
 	return dout, tout
-- 
2.43.0


From e133345f78bafd03aeeacdc1867fcc79e1d998bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:29 +0000
Subject: [PATCH 033/203] fix: wcsutils.scale with corner=False kept the wrong
 point fixed

---
 pixell/wcsutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index ed553df..64c7fc5 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -193,12 +193,12 @@ def scale(wcs, scale=1, rowmajor=False, corner=True):
 	scale = np.zeros(2)+scale
 	if rowmajor: scale = scale[::-1]
 	wcs = wcs.deepcopy()
-	if corner:
-		wcs.wcs.crpix -= 0.5
+	# crpix counts from 1, so the first pixel starts at 0.5 and has its center at 1
+	off = 0.5 if corner else 1
+	wcs.wcs.crpix -= off
 	wcs.wcs.crpix *= scale
 	wcs.wcs.cdelt /= scale
-	if corner:
-		wcs.wcs.crpix += 0.5
+	wcs.wcs.crpix += off
 	return wcs
 
 #def expand_res(res, default_dirs=[1,-1]):
-- 
2.43.0


From 0a941141c81319e70ac65a0474b14f4d676bfc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:45 +0000
Subject: [PATCH 034/203] fix: irfft to length 1 or 2 failed with the ducc
 engine

---
 pixell/fft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index fbb256d..8c8ae15 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -53,7 +53,8 @@ class ducc_FFTW:
 				# Real to complex
 				ducc0.fft.r2c(self.a, axes=self.axes, out=self.b, nthreads=self.threads)
 		elif self.direction == "FFTW_BACKWARD":
-			if self.a.shape == self.b.shape:
+			# The shapes are also the same for real transforms of length 1 and 2
+			if self.a.shape == self.b.shape and np.iscomplexobj(self.b):
 				# Complex to complex
 				ducc0.fft.c2c(a=self.a, axes=self.axes, out=self.b, forward=False, inorm=2 if normalise_idft else 0, nthreads=self.threads)
 			else:
-- 
2.43.0


From 6a9e8bb6e71ff10952e8646c1de53c1abd535f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:45 +0000
Subject: [PATCH 035/203] fix: chebt and ichebt scaled the first axis instead
 of the last

---
 pixell/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 8c8ae15..1d3776c 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -310,13 +310,13 @@ def redft00(a, b=None, nthread=0, normalize=False, flags=None, engine="auto"):
 def chebt(a, b=None, nthread=0, flags=None, engine="auto"):
 	"""The chebyshev transform of a, along its last dimension."""
 	b = redft00(a, b, nthread, normalize=True, flags=flags, engine=engine)
-	b[1:-1] *= 2
+	b[...,1:-1] *= 2
 	return b
 
 def ichebt(a, b=None, nthread=0, engine="auto"):
 	"""The inverse chebyshev transform of a, along its last dimension."""
 	a = asfcarray(a).copy()
-	a[1:-1] *= 0.5
+	a[...,1:-1] *= 0.5
 	return redft00(a, b, nthread, engine=engine)
 
 def fft_len(n, direction="below", factors=None):
-- 
2.43.0


From da2a002fa18a03eb99e9de229ef918d026e84d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:45 +0000
Subject: [PATCH 036/203] fix: nearest_product below did not return the highest
 product

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index f7c027d..9258c9c 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -786,7 +786,7 @@ def nearest_product(n, factors, direction="below"):
 			m = i*f
 			if below:
 				if m > n: continue
-				else: best = m
+				elif best is None or m > best: best = m
 			else:
 				if m >= n and (best is None or best > m):
 					best = m
-- 
2.43.0


From 02472da5b2036f5643f9725f3469085d334dee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:29 +0000
Subject: [PATCH 037/203] fix: nu2u failed for real samples and for samples
 with more than one dimension

---
 pixell/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 1d3776c..d4d7166 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -501,7 +501,7 @@ def nu2u(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=No
 		epsilon=epsilon, nthread=nthread, normalize=normalize, complex=complex)
 	work = np.zeros(h.tshape, h.ctype)
 	for uI, nuI in zip(h.uiter, h.nuiter):
-		res = ducc0.nufft.nu2u(points=h.nu[nuI], coord=h.iflat, out=work,
+		res = ducc0.nufft.nu2u(points=h.nu[nuI].reshape(-1).astype(h.ctype, copy=False), coord=h.iflat, out=work,
 			forward=forward, epsilon=h.epsilon, nthreads=h.nthread,
 			periodicity=h.periodicity, fft_order=True)
 		if not np.iscomplexobj(h.u):
-- 
2.43.0


From 250b0bf27b769b50d7c1c68fe7b2bdd83ec10550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:51 +0000
Subject: [PATCH 038/203] fix: iu2nu failed for real samples

---
 pixell/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index d4d7166..758af53 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -544,7 +544,7 @@ def iu2nu(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=N
 		# with solution out = (P'P)"P'a. The CG solver wants real numbers, though,
 		# so we hack around that with view
 		# Set up the equation system. Our degrees of freedom are flattened real u
-		b = wzip(PT(h.nu[nuI].reshape(-1)))
+		b = wzip(PT(h.nu[nuI].reshape(-1).astype(h.ctype, copy=False)))
 		def A(x): return wzip(PT(P(wunzip(x))))
 		solver = utils.CG(A, b)
 		while solver.err > h.epsilon:
-- 
2.43.0


From 5578990976745dd13d0b3db56f3764845a24b57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:51 +0000
Subject: [PATCH 039/203] fix: inufft_adjoint ignored complex

---
 pixell/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 758af53..f53ba15 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -604,7 +604,7 @@ def nufft_adjoint(a, inds, out=None, oshape=None, axes=None, periodicity=None, e
 
 def inufft_adjoint(fa, inds, out=None, axes=None, periodicity=None, epsilon=None, nthread=None, normalize=False, flip=False, complex=True):
 	"""Alias of inu2u(..., forward=not flip). This involves inverting a system with conjugate gradients"""
-	return inu2u(fa, inds, out=out, axes=axes, periodicity=periodicity, epsilon=epsilon, nthread=nthread, normalize=normalize, forward=not flip)
+	return inu2u(fa, inds, out=out, axes=axes, periodicity=periodicity, epsilon=epsilon, nthread=nthread, normalize=normalize, forward=not flip, complex=complex)
 
 # Incremental nufft. This is useful for low-latency interpolation, or interpolation
 # where you don't know how many points there will be
-- 
2.43.0


From 24ce867da9e8daaf42f981b4ea760c133032e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:54 +0000
Subject: [PATCH 040/203] fix: upgrade(inclusive=True) of an enmap

---
 pixell/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 9258c9c..ffaefa0 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2225,7 +2225,8 @@ def block_expand(a, bsize, osize, axis=-1, off=0, op="nearest", inclusive=True):
 	axis  %= a.ndim
 	if op == "nearest":
 		if inclusive:
-			pre, mid, tail = np.split(a, [off>0,(off>0)+nwhole], axis)
+			npre = 1 if off > 0 else 0
+			pre, mid, tail = np.split(a, [npre,npre+nwhole], axis)
 			parts = []
 			if pre.size > 0: parts.append(np.repeat(pre, off,   axis))
 			if mid.size > 0: parts.append(np.repeat(mid, bsize, axis))
-- 
2.43.0


From 04f95ab963b11f7aa3117e282ce63622d629f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:03 +0000
Subject: [PATCH 041/203] fix: enmap.project to a different shape with the same
 wcs

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index e0eadcd..3c825d1 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -605,7 +605,7 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 	  one go, ignoring bsize"""
 	# Skip expensive operation if map is compatible
 	if not force:
-		if wcsutils.equal(map.wcs, wcs) and tuple(shape[-2:]) == tuple(shape[-2:]):
+		if wcsutils.equal(map.wcs, wcs) and tuple(map.shape[-2:]) == tuple(shape[-2:]):
 			return map.copy()
 		elif wcsutils.is_compatible(map.wcs, wcs) and border == "constant":
 			return extract(map, shape, wcs, cval=cval)
-- 
2.43.0


From 8c909ee2cc1009ad8826e48d9fad410730a6c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:09 +0000
Subject: [PATCH 042/203] fix: nearest border for higher-order spline
 interpolation

---
 pixell/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index ffaefa0..ff66e02 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -614,10 +614,16 @@ class SplineInterpolator:
 		self.arr = arr
 	def __call__(self, inds, out=None):
 		inds, out = _ip_prepare(self, inds, out=out)
+		border    = self.border
+		if border == "nearest" and self.order > 1:
+			# scipy would use the nearest spline coefficient instead of the nearest value.
+			# Its spline filter uses reflecting boundary conditions for this border
+			inds   = np.array([np.clip(ind,0,n-1) for ind, n in zip(inds, self.arr.shape[self.npre:])])
+			border = "reflect"
 		# Do the actual interpolation
 		for I in nditer(self.arr.shape[:self.npre]):
 			out[I] = scipy.ndimage.map_coordinates(self.arr[I], inds, order=self.order,
-				mode=self.border, cval=self.cval, prefilter=False)
+				mode=border, cval=self.cval, prefilter=False)
 		return out
 
 class FourierInterpolator:
-- 
2.43.0


From 87e94722389502af2739f1abb12721d40ba641dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:09 +0000
Subject: [PATCH 043/203] fix: border handling in enmap.project

---
 pixell/enmap.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 3c825d1..5f1ca30 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -613,8 +613,9 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 	# Save memory by looping over rows. This won't work for non-"prefiltered" interpolators
 	if ip and not ip.prefiltered: bsize=100000000
 	# Avoid unneccessary padding for local cases
-	if   ip or (mode == "spline" and order == 0): context = 0
-	elif        mode == "spline" and order == 1 : context = 1
+	mode, order = utils._ip_get_mode(mode, order)
+	if   ip: context = 0
+	elif mode == "spline" and order <= 1: context = 1
 	# It would have been nice to be able to use padtiles here, but
 	# the input and output tilings are very different
 	for i1 in range(0, shape[-2], bsize):
@@ -627,10 +628,14 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 		else:
 			y1     = np.min(pix[0]).astype(int)-context
 			y2     = np.max(pix[0]).astype(int)+context+1
+			# Splines handle the map edges themselves according to border and cval
+			if mode == "spline":
+				y1 = min(max(y1,0),map.shape[-2]-1)
+				y2 = min(max(y2,y1+1),map.shape[-2])
 			pix[0]-= y1
 			band   = map.extract_pixbox([[y1,0],[y2,map.shape[-1]]])
 			# Apodize if necessary
-			if context > 1:
+			if context > 1 and mode != "spline":
 				band = apod(band, width=(context,0), fill="crossfade")
 		# And do the interpolation
 		somap[:] = utils.interpol(band, pix, mode=mode, order=order, border=border, cval=cval, ip=ip)
-- 
2.43.0


From bddd09a66192a74ecf33b22bc8ef8b8f78a9a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:03 +0000
Subject: [PATCH 044/203] fix: smooth_spectrum ignored weight arrays

---
 pixell/enmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 5f1ca30..6145368 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1912,6 +1912,7 @@ def smooth_spectrum(ps, kernel="gauss", weight="mode", width=1.0):
 	else:
 		tmp = np.atleast_2d(weight)
 		assert tmp.shape[-1] == W.shape[-1], "Spectrum weight must have the same length as spectrum"
+		W[:] = tmp
 	pWK = _convolute_sym(pflat*W, K)
 	WK  = _convolute_sym(W, K)
 	res = pWK/WK
-- 
2.43.0


From bc8d88485294e5f1996d0b804447c3327a75ca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:03 +0000
Subject: [PATCH 045/203] fix: spec2flat_corr for odd map sizes

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 6145368..86b5e72 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1877,8 +1877,8 @@ def spec2flat_corr(shape, wcs, cov, exp=1.0, border="constant"):
 	dpos -= dpos[:,None,None,dpos.shape[-2]//2,dpos.shape[-1]//2]
 	ipos = np.arccos(np.cos(dpos[0])*np.cos(dpos[1]))*nr/rmax
 	corr2d = utils.interpol(corrfun, ipos.reshape((-1,)+ipos.shape), border=border, order=1)
-	corr2d = np.roll(corr2d, -corr2d.shape[-2]//2, -2)
-	corr2d = np.roll(corr2d, -corr2d.shape[-1]//2, -1)
+	corr2d = np.roll(corr2d, -(corr2d.shape[-2]//2), -2)
+	corr2d = np.roll(corr2d, -(corr2d.shape[-1]//2), -1)
 	corr2d = ndmap(corr2d, wcs)
 	return fft(corr2d).real * np.prod(shape[-2:])**0.5
 
-- 
2.43.0


From 1e9cc16841bb79566651dbac79f56f037f00f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:03 +0000
Subject: [PATCH 046/203] fix: bins2edges for other than two bins

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index ff66e02..40cadb3 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2487,7 +2487,7 @@ def edges2bins(edges):
 	return res
 
 def bins2edges(bins):
-	return np.concatenate([bins[:,0],bins[1,-1:]])
+	return np.concatenate([bins[:,0],bins[-1,1:]])
 
 def linbin(n, nbin=None, nmin=None, bsize=None):
 	"""Given a number of points to bin and the number of approximately
-- 
2.43.0


From e2b5855c4eb6595ad059f0b67590c029a358a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:03 +0000
Subject: [PATCH 047/203] fix: bin_expand with leading dimensions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 40cadb3..49bec4f 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2542,7 +2542,7 @@ def bin_data(bins, d, op=np.mean):
 def bin_expand(bins, bdata):
 	res = np.zeros(bdata.shape[:-1]+(bins[-1,1],),bdata.dtype)
 	for bi, b in enumerate(bins):
-		res[...,b[0]:b[1]] = bdata[...,bi]
+		res[...,b[0]:b[1]] = bdata[...,bi,None]
 	return res
 
 def is_int_valued(a): return a%1 == 0
-- 
2.43.0


From 024127ae449b24b2dad3dd05230e8355c68ff43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:03 +0000
Subject: [PATCH 048/203] fix: expbin could loop forever

---
 pixell/utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 49bec4f..82223f0 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2511,12 +2511,12 @@ def expbin(n, nbin=None, nmin=8, nmax=0):
 	if not nbin: nbin = int(np.round(n**0.5))
 	tmp  = np.array(np.exp(np.arange(nbin+1)*np.log(n+1)/nbin)-1,dtype=int)
 	fixed = [tmp[0]]
-	i = 0
-	while i < nbin:
-		for j in range(i+1,nbin+1):
-			if tmp[j]-tmp[i] >= nmin:
-				fixed.append(tmp[j])
-				i = j
+	for v in tmp[1:]:
+		if v-fixed[-1] >= nmin:
+			fixed.append(v)
+	# Any points left over go in the last bin
+	if len(fixed) > 1: fixed[-1] = n
+	else: fixed.append(n)
 	# Optionally split too large bins
 	if nmax:
 		tmp = [fixed[0]]
@@ -2526,7 +2526,6 @@ def expbin(n, nbin=None, nmin=8, nmax=0):
 			tmp += [tmp[-1]+dv*(i+1)//nsplit for i in range(nsplit)]
 		fixed = tmp
 	tmp = np.array(fixed)
-	tmp[-1] = n
 	return np.vstack((tmp[:-1],tmp[1:])).T
 
 def bin_data(bins, d, op=np.mean):
-- 
2.43.0


From b6782b875e8b46a9ae42c694946f97e9e3e938b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:35 +0000
Subject: [PATCH 049/203] fix: seed distances of points that are not at a pixel
 centre, share a pixel or are beyond rmax

---
 cython/distances_core.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cython/distances_core.c b/cython/distances_core.c
index 276a5fc..f495f34 100644
--- a/cython/distances_core.c
+++ b/cython/distances_core.c
@@ -206,6 +206,8 @@ void distance_from_points_bubble(int ny, int nx, double * posmap, inum npoint, d
 		int y = point_y[i], x = point_x[i];
 		inum pix = (inum)y*nx+x;
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], pix_ra[pix], cos(pix_dec[pix]), sin(pix_dec[pix]));
+		// Skip if another point is closer to this pixel, or if we're beyond rmax
+		if(!(dist < dists[y*nx+x])) continue;
 		pointvec_push(curr, y, x);
 		dists[y*nx+x]   = dist;
 		domains[y*nx+x] = i;
@@ -290,6 +292,8 @@ void distance_from_points_bubble_separable(int ny, int nx, double * ypos, double
 	for(inum i = 0; i < npoint; i++) {
 		int y = point_y[i], x = point_x[i];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], xpos[x], pix_cos_dec[y], pix_sin_dec[y]);
+		// Skip if another point is closer to this pixel, or if we're beyond rmax
+		if(!(dist < dists[y*nx+x])) continue;
 		pointvec_push(curr, y, x);
 		dists[y*nx+x]   = dist;
 		domains[y*nx+x] = i;
@@ -673,6 +677,11 @@ void distance_from_points_cellgrid(int ny, int nx, double * ypos, double * xpos,
 		inum by = point_y[i] / bsize_y;
 		inum bx = point_x[i] / bsize_x;
 		inum ci = by*grid.nbx+bx;
+		// The distance from the point to the center of its pixel
+		inum iy = separable ? point_y[i] : (inum)point_y[i]*nx+point_x[i];
+		inum ix = separable ? point_x[i] : iy;
+		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i], xpos[ix], cos(ypos[iy]), sin(ypos[iy]));
+		if(!(dist < rmax)) continue;
 		if(grid.cells[ci].status == CELL_UNALLOC) {
 			allocate_cell(&grid, &grid.cells[ci], by, bx);
 			pointvec_push(current_cells, by, bx);
@@ -681,9 +690,11 @@ void distance_from_points_cellgrid(int ny, int nx, double * ypos, double * xpos,
 		int y1 = by*bsize_y, yrel = point_y[i]-y1;
 		int x1 = bx*bsize_x, xrel = point_x[i]-x1;
 		int pixrel = yrel*grid.cells[ci].nx+xrel;
+		// Skip if another point is closer to this pixel
+		if(!(dist < grid.cells[ci].dists[pixrel])) continue;
 		pointvec_push(grid.cells[ci].current, yrel, xrel);
 		grid.cells[ci].domains[pixrel] = i;
-		grid.cells[ci].dists[pixrel] = 0;
+		grid.cells[ci].dists[pixrel] = dist;
 	}
 	// Initialize them
 	#pragma omp parallel for
@@ -1032,6 +1043,8 @@ void distance_from_points_bubble_healpix(healpix_info * geo, inum npoint, double
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
+		// Skip if another point is closer to this pixel, or if we're beyond rmax
+		if(!(dist < dists[pix])) continue;
 		pointvec_push(curr, y, x);
 		dists[pix]   = dist;
 		domains[pix] = i;
@@ -1167,6 +1180,8 @@ void distance_from_points_heap_healpix(healpix_info * geo, inum npoint, double *
 		double dra  = 2*pi/geo->nx[y];
 		double dist = dist_vincenty_helper(point_ra[i], point_cos_dec[i], point_sin_dec[i],
 				geo->ra0[y]+dra*x, geo->cos_dec[y], geo->sin_dec[y]);
+		// Skip if another point is closer to this pixel, or if we're beyond rmax
+		if(!(dist < dists[pix])) continue;
 		HeapEntry entry = { dist, y, x };
 		pointheap_push(heap, entry);
 		dists[pix]   = dist;
-- 
2.43.0


From 704d80fc18e983ea51cb0c019ec139f281dde57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:12 +0000
Subject: [PATCH 050/203] fix: healpix distance transforms without any edges

---
 cython/distances.pyx | 23 ++++++++++++++++++-----
 pixell/enmap.py      |  2 +-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/cython/distances.pyx b/cython/distances.pyx
index b648b17..f7021a4 100644
--- a/cython/distances.pyx
+++ b/cython/distances.pyx
@@ -382,8 +382,12 @@ def find_edges_healpix(healpix_info info, mask, flat=True):
 	cdef uint8_t[::1] mask_ = mask
 	nedge = c.find_edges_healpix(info.info, &mask_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view  = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
@@ -408,8 +412,12 @@ def find_edges_labeled_healpix(healpix_info info, labels, flat=True):
 	cdef int[::1] labels_ = labels.reshape(-1)
 	nedge = c.find_edges_labeled_healpix(info.info, &labels_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view  = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
@@ -432,13 +440,18 @@ def distance_from_points_healpix(healpix_info info, point_pos, point_pix, rmax=N
 	# point_pix can be standard 1d or our internal 2d format
 	point_pix = np.asanyarray(point_pix)
 	if point_pix.ndim == 1:
-		point_pix = unravel_healpix(info, point_pix)
+		point_pix = unravel_healpix(info, point_pix) if point_pix.size > 0 else np.zeros((2,0),np.int32)
 	point_pix = point_pix.astype(np.int32, order="C", copy=False)
 	assert point_pix.ndim == 2 and len(point_pix) == 2 and point_pix.shape[1] == point_pos.shape[1], "point_pos must be [npoint] or [{y,x},npoint]"
 	if omap is None: omap = np.empty(info.npix, dtype=np.float64)
 	assert omap.ndim == 1 and omap.size == info.npix and omap.dtype==np.float64, "omap must be [npix] float64"
 	if odomains is None: odomains = np.empty(info.npix, dtype=np.int32)
 	assert odomains.ndim == 1 and odomains.size == info.npix and odomains.dtype==np.int32, "odomains must be [npix] int32"
+	# Handle case where no points are specified
+	if point_pos.size == 0:
+		omap[:]     = np.inf if rmax is None else rmax
+		odomains[:] = -1
+		return (omap, odomains) if domains else omap
 	# Prepare to call C
 	cdef inum npoint = point_pos.shape[1]
 	cdef double      rmax_   = (0 if rmax is None else rmax)
diff --git a/pixell/enmap.py b/pixell/enmap.py
index 86b5e72..b8fa4f8 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2195,7 +2195,7 @@ def distance_transform_healpix(mask, omap=None, rmax=None, method="heap"):
 		distances.distance_from_points_healpix(info, edge_pos, edge_pix, omap=omap[i], rmax=rmax, method=method)
 	omap = omap.reshape(mask.shape)
 	# Distance is always zero inside mask
-	omap *= mask
+	omap[np.asarray(mask)==0] = 0
 	return omap
 
 def labeled_distance_transform_healpix(labels, omap=None, odomains=None, rmax=None, method="heap"):
-- 
2.43.0


From 8925ad7af0d658ccc22fdc0af1b56f3df8475426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:53 +0000
Subject: [PATCH 051/203] fix: only recognise equirectangular maps as ducc
 grids

---
 pixell/curvedsky.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 004ab7d..b00381f 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1281,6 +1281,8 @@ def get_ducc_geo(wcs, shape=None, tol=1e-6):
 	object. Returns a bunch(name, phi0) where name is one of "CC", "F1", "MW",
 	"MWflip", "DH" and "F2". "GL": gauss-legendre is not supported by wcs.
 	Returns None if the wcs doesn't correspond to a ducc geometry."""
+	# These are all equi-spaced in declination
+	if wcsutils.get_proj(wcs) != "car": return None
 	def near(a, b): return np.abs(a-b)<tol
 	def hasoff(val, off): return utils.hasoff(val, off, tol=tol)
 	# Check if we need flipping. Ducc assumes increasing phi and theta,
-- 
2.43.0


From ba8c3ec5705da338221f7379c403961ad5cb7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:53 +0000
Subject: [PATCH 052/203] fix: pole offsets of the DH grid

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index b00381f..4f78245 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1306,7 +1306,7 @@ def get_ducc_geo(wcs, shape=None, tol=1e-6):
 	# makes it easier to read
 	if   hasoff(y1,0.0) and hasoff(y2,0.0):
 		if   near(y1,-1) and near(y2,Ny): name, o1, o2 = "F2", 1, 1
-		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 1, 0
+		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 0, 1
 		else: name, o1, o2 = "CC", 0, 0
 	elif hasoff(y1,0.5) and hasoff(y2,0.5): name, o1, o2 = "F1", 0.5, 0.5
 	elif hasoff(y1,0.5) and hasoff(y2,0.0): name, o1, o2 = "MW", 0.5, 0.0
-- 
2.43.0


From 04157af560f8683b32633cb1c7fa2fae331afc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:53 +0000
Subject: [PATCH 053/203] fix: calc_locinfo skipped the last row in some cases

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 4f78245..41adba6 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1334,7 +1334,7 @@ def calc_locinfo(shape, wcs, bsize=1000):
 	loc  = np.zeros((shape[-2]*shape[-1],2))
 	mask = np.zeros(shape[-2:],bool)
 	off  = 0
-	for b1 in range(0, shape[-2]-1, bsize):
+	for b1 in range(0, shape[-2], bsize):
 		b2      = min(b1+bsize, shape[-2])
 		subgeo  = enmap.Geometry(shape, wcs)[b1:b2]
 		subpos  = enmap.posmap(*subgeo, safe=False)
-- 
2.43.0


From 39be9e587b4499272646f72fb14ee640aaf359d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:53 +0000
Subject: [PATCH 054/203] fix: wrap ra fully in calc_locinfo and alm2map_pos

---
 pixell/curvedsky.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 41adba6..61b60af 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -189,8 +189,7 @@ def alm2map_pos(alm, pos=None, loc=None, ainfo=None, map=None, spin=[0,2], deriv
 		# This should use less memory than writing loc[:,0] = np.pi/2-loc[:,0]
 		loc[...,0] *= -1
 		loc[...,0] += np.pi/2
-		# Should use rewind here, but this is more efficient
-		loc[loc[...,1]<0,1] += 2*np.pi
+		loc[...,1] %= 2*np.pi
 		# Support arbitrary pre-dimensions for loc (post-dimensions for pos)
 	lpre = loc.shape[:-1]
 	loc  = loc.reshape(-1,2)
@@ -1339,7 +1338,7 @@ def calc_locinfo(shape, wcs, bsize=1000):
 		subgeo  = enmap.Geometry(shape, wcs)[b1:b2]
 		subpos  = enmap.posmap(*subgeo, safe=False)
 		subpos[0]  = np.pi/2 - subpos[0]
-		subpos[1] += 2*np.pi*(subpos[1]<0)
+		subpos[1] %= 2*np.pi
 		submask = np.all(np.isfinite(subpos),0)
 		nok     = np.sum(submask)
 		if nok < (b2-b1)*shape[-1]:
-- 
2.43.0


From e7922267dba57b56c290258af02699c19b0175b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:53 +0000
Subject: [PATCH 055/203] fix: undefined mask for scalar maps with invalid
 pixels

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 61b60af..52c8c55 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -774,7 +774,7 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 	# these, so looping in python is cheap
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
@@ -853,7 +853,7 @@ def map2alm_general(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2]
 	if weights is None: weights = map.pixsizemap()[locinfo.mask].astype(map.dtype, copy=False)
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
-- 
2.43.0


From 1747b45a6f45e366e3f721e5c45e9a24ffcbc747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:53 +0000
Subject: [PATCH 056/203] fix: pass alm layout to synthesis_general

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 52c8c55..8cb35d7 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -971,7 +971,7 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	if epsilon is None:
 		if map.dtype == np.float64: epsilon = 1e-10
 		else:                       epsilon = 1e-6
-	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "nthreads":nthread, "epsilon":epsilon}
+	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "mstart":ainfo.mstart, "nthreads":nthread, "epsilon":epsilon}
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-- 
2.43.0


From 1060598dca4ba45404fa14f1b9f35e027646e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:46 +0000
Subject: [PATCH 057/203] fix: adjoint of alm2map with deriv

---
 pixell/curvedsky.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 8cb35d7..5da73cd 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -314,7 +314,7 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 	healmap[...,ncomp,npix]."""
 	dtype      = utils.native_dtype(utils.real_dtype(alm.dtype))
 	alm, ainfo = prepare_alm(alm, ainfo, dtype=dtype)
-	healmap    = prepare_healmap(healmap, nside, alm.shape[:-1], dtype)
+	healmap    = prepare_healmap(healmap, nside, alm.shape[:-1]+((2,) if deriv else ()), dtype)
 	alm_full   = utils.atleast_Nd(alm, 2 if deriv else 3)
 	map_full   = utils.atleast_Nd(healmap, 3)
 	alm_full   = utils.fix_zero_strides(alm_full)
@@ -336,9 +336,11 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 	# Loop over pre-dimensions
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=alm_full[I], map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			if adjoint: func(alm=utils.fix_zero_strides(alm_full[I][None]), map=flip_dec_deriv(map_full[I]), mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full[I].shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -568,6 +570,12 @@ def prof2alm(profile, dir=[0, np.pi/2], spin=0, geometry="CC", nthread=None, nor
 ###### Helpers ######
 #####################
 
+def flip_dec_deriv(map):
+	"""Return a copy of the derivative map[{theta,phi},...] with the sign of the theta derivative flipped"""
+	map = map.copy()
+	map[0] *= -1
+	return map
+
 def npix2nside(npix):
 	return utils.nint((npix/12)**0.5)
 
@@ -728,7 +736,7 @@ def alm2map_2d(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, copy=F
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3] if deriv else map.shape[:-2], dtype=utils.native_dtype(map.dtype))
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -748,7 +756,7 @@ def alm2map_cyl(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, copy=
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3] if deriv else map.shape[:-2], dtype=utils.native_dtype(map.dtype))
 	if minfo is None: minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -768,7 +776,7 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 	if copy:
 		if adjoint and alm is not None: alm = alm.copy()
 		else:       map = map.copy()
-	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-2], dtype=utils.native_dtype(map.dtype))
+	if adjoint: alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, pre=map.shape[:-3] if deriv else map.shape[:-2], dtype=utils.native_dtype(map.dtype))
 	if locinfo is None: locinfo = calc_locinfo(map.shape, map.wcs)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
@@ -885,9 +893,11 @@ def alm2map_raw_2d(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, ve
 	# pre-dimentions are map.shape[:-3]
 	for I in utils.nditer(map_full.shape[:-3]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			if adjoint: func(alm=utils.fix_zero_strides(alm_full[I][None]), map=flip_dec_deriv(map_full[I]), mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -921,9 +931,11 @@ def alm2map_raw_cyl(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, c
 	# dimensions, so this outermost loop usually does nothing
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			if adjoint: func(alm=utils.fix_zero_strides(alm_full[I][None]), map=flip_dec_deriv(map_full[I]), mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -975,9 +987,11 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			if adjoint: func(alm=utils.fix_zero_strides(alm_full[I][None]), map=flip_dec_deriv(map_full[I]), mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
-- 
2.43.0


From 2197307767e19b83a47fa69e381ef7e965bd17d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:46 +0000
Subject: [PATCH 058/203] fix: orientation of the quadrature weights

---
 pixell/curvedsky.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 5da73cd..aa6ced6 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -482,12 +482,12 @@ def quad_weights(shape, wcs, pix_tol=1e-6):
 	weights[ny] where ny is shape[-2]. For cases where quadrature weights aren't available,
 	it's a pretty good approximation to just use the pixel area."""
 	minfo = analyse_geometry(shape, wcs, tol=pix_tol)
-	if minfo.ducc_geo.name is None:
+	if minfo.ducc_geo is None:
 		raise ValueError("Quadrature weights not available for geometry %s,%s" % (str(shape),str(wcs)))
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
 	weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
-	if minfo.flip: weights = weights[::-1]
+	if minfo.flip[0]: weights = weights[::-1]
 	weights/= minfo.ducc_geo.nx
 	return weights
 
@@ -835,7 +835,7 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 			weights/= minfo.ducc_geo.nx
 		else:
 			weights = map.pixsizemap(separable=True, broadcastable=True)[:,0]
-			if minfo.flip: weights = weights[::-1]
+			if minfo.flip[0]: weights = weights[::-1]
 		weights = weights.astype(map.dtype, copy=False)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
-- 
2.43.0


From 0654bdba357868538b3d356cae76d24bdb9e6e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:46 +0000
Subject: [PATCH 059/203] fix: user-provided weights for flipped maps

---
 pixell/curvedsky.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index aa6ced6..28232dd 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -836,7 +836,8 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 		else:
 			weights = map.pixsizemap(separable=True, broadcastable=True)[:,0]
 			if minfo.flip[0]: weights = weights[::-1]
-		weights = weights.astype(map.dtype, copy=False)
+	elif minfo.flip[0]: weights = weights[::-1]
+	weights = weights.astype(map.dtype, copy=False)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
 	for I in utils.nditer(map.shape[:-3]):
-- 
2.43.0


From 8cda2935248437548987063411fccfc9edea9931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:46 +0000
Subject: [PATCH 060/203] fix: forward niter for the general method

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 28232dd..8674667 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -296,7 +296,7 @@ def map2alm(map, alm=None, lmax=None, spin=[0,2], deriv=False, adjoint=False,
 		if verbose: print("method: pos")
 		return map2alm_general(map, alm, ainfo=ainfo, lmax=lmax, spin=spin, deriv=deriv, copy=copy,
 			verbose=verbose, adjoint=adjoint, nthread=nthread, epsilon=epsilon,
-			locinfo=locinfo, weights=weights)
+			locinfo=locinfo, weights=weights, niter=niter)
 	else:
 		raise ValueError("Unrecognized alm2map method '%s'" % str(method))
 
-- 
2.43.0


From 7e21b1e3cb898acbfcea9d608ef2f670b238ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:46 +0000
Subject: [PATCH 061/203] fix: healpix transforms with theta limits

---
 pixell/curvedsky.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 8674667..b653fe7 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -589,7 +589,8 @@ def apply_minfo_theta_lim(minfo, theta_min=None, theta_max=None):
 	if theta_min is not None: mask &= minfo.theta >= theta_min
 	if theta_max is not None: mask &= minfo.theta <= theta_max
 	res = minfo.copy()
-	for key in ["theta", "nphi", "phi0"]: res[key] = res[key][mask]
+	for key in ["theta", "nphi", "phi0", "offsets", "stride"]: res[key] = res[key][mask]
+	res.nrow = len(res.theta)
 	return res
 
 def fill_gauss(arr, bsize=0x10000):
-- 
2.43.0


From 1de72d2d761e08776fe93b2cb96b3a8f7dff4170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:46 +0000
Subject: [PATCH 062/203] fix: copy argument of map2alm_healpix

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index b653fe7..5b5b2e5 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -351,7 +351,7 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weights=None, deriv=False, copy=False, verbose=False, adjoint=False, niter=0, theta_min=None, theta_max=None, nthread=None):
 	"""map2alm for healpix maps. Similar to healpy's map2alm. See the map2alm docstring for details."""
 	if adjoint:
-		if copy and map is not None: map = map.copy()
+		if copy and healmap is not None: healmap = healmap.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
 	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=healmap.shape[:-1], dtype=utils.native_dtype(healmap.dtype))
-- 
2.43.0


From 47bbd37cde7e52df809bc27a702448bade57d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:38 +0000
Subject: [PATCH 063/203] fix: ducc has no quadrature weights for MW grids

---
 pixell/curvedsky.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 5b5b2e5..ce2d66a 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -482,7 +482,7 @@ def quad_weights(shape, wcs, pix_tol=1e-6):
 	weights[ny] where ny is shape[-2]. For cases where quadrature weights aren't available,
 	it's a pretty good approximation to just use the pixel area."""
 	minfo = analyse_geometry(shape, wcs, tol=pix_tol)
-	if minfo.ducc_geo is None:
+	if not has_grid_weights(minfo.ducc_geo):
 		raise ValueError("Quadrature weights not available for geometry %s,%s" % (str(shape),str(wcs)))
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
@@ -829,7 +829,7 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Get our weights, approximate or not
 	if weights is None:
-		if minfo.ducc_geo is not None and minfo.ducc_geo.name is not None:
+		if has_grid_weights(minfo.ducc_geo):
 			ny      = map.shape[-2]+np.sum(minfo.ypad)
 			weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
 			weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
@@ -1340,6 +1340,10 @@ def get_ducc_maxlmax(name, ny):
 	elif name == "F2": return (ny-1)//2
 	else:              return ny-1
 
+def has_grid_weights(ducc_geo):
+	"""Whether ducc can provide quadrature weights for the given ducc geometry"""
+	return ducc_geo is not None and ducc_geo.name in ["CC", "F1", "DH", "F2"]
+
 def calc_locinfo(shape, wcs, bsize=1000):
 	"""Calculate pixel position info in the format ducc needs"""
 	# posmaps can be big, bigger than the normal map itself due to being
-- 
2.43.0


From b15505a2a824bf2dc4fa3d746cf6f9811f5139a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:33 +0000
Subject: [PATCH 064/203] fix: single precision lmul wrote outside the alm

---
 cython/cmisc_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc_core.c b/cython/cmisc_core.c
index ded2d9a..cb751b0 100644
--- a/cython/cmisc_core.c
+++ b/cython/cmisc_core.c
@@ -208,7 +208,7 @@ void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm
 		float * vimag = calloc(N, sizeof(float));
 		#pragma omp for
 		for(int m = 0; m <= mmax; m++) {
-			for(int l = m; l <= lfmax; l++) {
+			for(int l = m; l <= leff; l++) {
 				int64_t i = mstart[m]+l;
 				// Zero out the work arrays
 				for(int r = 0; r < N; r++) { vreal[r] = vimag[r] = 0; }
-- 
2.43.0


From a9adf25b639a5af113176172887c57ec87aa5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:33 +0000
Subject: [PATCH 065/203] fix: lmul with an out argument that is not fully
 contiguous

---
 cython/cmisc.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cython/cmisc.pyx b/cython/cmisc.pyx
index 6b5ea81..2c27b63 100644
--- a/cython/cmisc.pyx
+++ b/cython/cmisc.pyx
@@ -157,7 +157,7 @@ def lmul(ainfo, alm, lfun, out=None):
 	# The arrays need to be contiguous along the last dimension
 	alm  = aslastcontig(alm,  dtype=ctype)
 	lfun = aslastcontig(lfun, dtype=rtype)
-	if out is not None and not islastcontig(out) and out.dtype != ctype:
+	if out is not None and (not islastcontig(out) or out.dtype != ctype):
 		raise ValueError("lmul's out argument must be contiguous along last axis, and have the same dtype as alm")
 	# Are we doing a matmul?
 	if lfun.ndim == 3 and alm.ndim == 2:
@@ -176,9 +176,11 @@ def lmul(ainfo, alm, lfun, out=None):
 		# Flatten, so the C code doesn't need to deal with variable dimensionality
 		aflat= alm.reshape(-1,alm.shape[-1])
 		lflat= lfun.reshape(-1,lfun.shape[-1])
+		oarr = None
 		if out is None:
 			out = aflat.copy()
 		else:
+			oarr= out
 			out = out.reshape(aflat.shape)
 			out[:] = aflat
 		if alm.dtype == np.complex128:  _lmul_dp(ainfo, out, lflat)
@@ -186,6 +188,8 @@ def lmul(ainfo, alm, lfun, out=None):
 		else: raise ValueError("lmul requires complex64 or complex128 arrays")
 		# Unflatten output
 		out = out.reshape(pre + out.shape[-1:])
+		# Flattening may have required a copy
+		if oarr is not None and not np.may_share_memory(oarr, out): oarr[...] = out.reshape(oarr.shape)
 	return out
 
 cdef _lmul_dp(ainfo, alm, lfun):
-- 
2.43.0


From f6b0fa3f2f2e53d3987e0c2eb44a4c0885e2b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:33 +0000
Subject: [PATCH 066/203] fix: rand_alm with spectra that aren't arrays

---
 pixell/curvedsky.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index ce2d66a..256045d 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -65,6 +65,7 @@ def rand_alm(ps, ainfo=None, lmax=None, seed=None, dtype=np.complex128, m_major=
 	scales. It uses 2/3 of the memory of healpy.synalm, and has comparable
 	speed."""
 	rtype      = np.zeros([0],dtype=dtype).real.dtype
+	ps         = np.asarray(ps)
 	wps, ainfo = prepare_ps(ps, ainfo=ainfo, lmax=lmax)
 	alm = rand_alm_white(ainfo, pre=[wps.shape[0]], seed=seed, dtype=dtype, m_major=m_major)
 	# Scale alms by spectrum, taking into account which alms are complex
-- 
2.43.0


From 5315bc0d3f7d438a89271ed41ee6afa6a729bb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:33 +0000
Subject: [PATCH 067/203] fix: dtype of rand_alm_healpy

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 256045d..e4f3b5f 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -53,7 +53,7 @@ def rand_alm_healpy(ps, lmax=None, seed=None, dtype=np.complex128):
 	else: raise ValueError("ps must be either [nl], [nspec,nl] or [ncomp,ncomp,nl] in rand_alm_healpy")
 	# Flatten, since healpy wants only the non-redundant components in the diagonal-first scheme
 	fps = powspec.sym_compress(wps, scheme="diag")
-	alm = np.asarray(healpy.synalm(fps, lmax=lmax, new=True))
+	alm = np.asarray(healpy.synalm(fps, lmax=lmax, new=True)).astype(dtype, copy=False)
 	# Produce scalar output for scalar inputs
 	if ps.ndim == 1: alm = alm[0]
 	return alm
-- 
2.43.0


From f1ac2402304e34174fc5b7783a2bede7fd2a7075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:40 +0000
Subject: [PATCH 068/203] fix: dedup handles empty arrays

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 82223f0..b96d449 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -531,7 +531,7 @@ class nowarn:
 def dedup(a):
 	"""Removes consecutive equal values from a 1d array, returning the result.
 	The original is not modified."""
-	return a[np.concatenate([[True],a[1:]!=a[:-1]])]
+	return a[np.concatenate([[True],a[1:]!=a[:-1]])[:len(a)]]
 
 def interpol(arr, inds, out=None, mode="spline", border="nearest",
 		order=3, cval=0.0, epsilon=None, ip=None):
-- 
2.43.0


From a996f7f29f15a1f691c3eb43fdb33f860a63a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:40 +0000
Subject: [PATCH 069/203] fix: box_slice and box_overlap work for any number of
 dimensions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index b96d449..9159568 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1313,7 +1313,7 @@ def box_slice(a, b):
 	fa = a.reshape(-1,2,a.shape[-1])
 	fb = b.reshape(-1,2,b.shape[-1])
 	s  = np.minimum(np.maximum(0,fb[None,:]-fa[:,None,0,None]),fa[:,None,1,None]-fa[:,None,0,None])
-	return s.reshape(a.shape[:-2]+b.shape[:-2]+(2,2))
+	return s.reshape(a.shape[:-2]+b.shape[:-2]+s.shape[-2:])
 
 def box_area(a):
 	"""Compute the area of a [{from,to},ndim] box, or an array of such boxes."""
-- 
2.43.0


From 2b74caafb424d206eb849a7fa0693432ad50a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:40 +0000
Subject: [PATCH 070/203] fix: widen_box widens descending axes with a relative
 margin

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 9159568..1d8898e 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1330,7 +1330,7 @@ def box_overlap(a, b):
 def widen_box(box, margin=1e-3, relative=True):
 	box = np.asarray(box)
 	margin = np.zeros(box.shape[1:])+margin
-	if relative: margin = (box[1]-box[0])*margin
+	if relative: margin = np.abs(box[1]-box[0])*margin
 	margin = np.asarray(margin) # Support 1d case
 	margin[box[0]>box[1]] *= -1
 	return np.array([box[0]-margin/2, box[1]+margin/2])
-- 
2.43.0


From 292474e10d71fcaa20bf0ed59019193580ca9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:40 +0000
Subject: [PATCH 071/203] fix: sbox_mul with negative steps

---
 pixell/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 1d8898e..ee6147e 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1658,8 +1658,11 @@ def sbox_mul(a,b):
 	# So we will flip a and b as needed, and then flip back the result
 	# if necessary. First compute which  result entries must be flipped.
 	flip = (a[...,2] < 0)^(b[...,2] < 0)
-	# Then flip
-	a[a[...,2]<0] = sbox_flip(a[a[...,2]<0])
+	# Then flip. Reversing a means that b must count from the other end of it
+	rev  = a[...,2] < 0
+	b[rev,:2] = sbox_size(a)[rev][...,None]-1-b[rev,:2]
+	b[rev,2] *= -1
+	a[rev] = sbox_flip(a[rev])
 	b[b[...,2]<0] = sbox_flip(b[b[...,2]<0])
 	# Now that everything is in the right order, we combine
 	c0 = a[...,0] + b[...,0]*a[...,2]
-- 
2.43.0


From 8d108693e39f7bbbe96dce9518afc7e833214c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:21 +0000
Subject: [PATCH 072/203] fix: redistribute with wrapping places data that
 crosses the wrap

---
 pixell/utils.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index ee6147e..14a9933 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1530,7 +1530,7 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	for i1 in range(rboxes.shape[0]):
 		count = 0
 		for i2 in range(rboxes.shape[1]):
-			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2])
+			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2], wrap=wrap)
 			for box in rboxes[i1,i2]:
 				count += np.prod(sbox_size(box))
 		nrecv[nimap[i1]] += count*presize
@@ -1544,7 +1544,7 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	for i1 in range(sboxes.shape[0]):
 		count = 0
 		for i2 in range(sboxes.shape[1]):
-			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2])
+			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2], wrap=wrap)
 			for box in sboxes[i1,i2]:
 				count += np.prod(sbox_size(box))
 				sendbuf.append(iarrs[i2][sbox2slice(box)].reshape(-1))
@@ -1640,15 +1640,16 @@ def sbox_div(a,b,wrap=0):
 	b = sbox_fix(b)
 	step  = a[...,2]//b[...,2]
 	num   = (a[...,1]-a[...,0])//a[...,2]
-	start = (a[...,0]-b[...,0])//b[...,2]
+	off   = a[...,0]-b[...,0]
+	if np.any(wrap):
+		# Move to the copy of a that starts inside b
+		wrap  = np.asarray(wrap,int)
+		swrap = np.where(wrap==0,1,wrap)
+		sign  = np.sign(b[...,2])
+		off   = off - sign*((off*sign)//swrap*wrap)
+	start = off//b[...,2]
 	end   = start + step*num
-	res   = np.stack([start,end,step],-1)
-	if wrap:
-		wrap  = np.asarray(wrap,int)[...,None]
-		swrap = wrap.copy()
-		swrap[wrap==0] = 1
-		res[...,:2] -= res[...,0,None]//swrap*wrap
-	return res
+	return np.stack([start,end,step],-1)
 
 def sbox_mul(a,b):
 	"""Find c such that arr[c] = arr[a][b]"""
-- 
2.43.0


From 31b011b7e58c67e20898fdcfbb1f86f010017b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:58 +0000
Subject: [PATCH 073/203] fix: redistribute unpacks several arrays per task in
 the order they were sent

---
 pixell/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 14a9933..92f6f00 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1559,13 +1559,16 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 
 	# Copy out the result
 	off = 0
-	for i1 in range(rboxes.shape[0]):
+	# Each task packed what it sent us by our obox first and its ibox second
+	for task in range(len(niarrs)):
 		for i2 in range(rboxes.shape[1]):
-			for rbox in rboxes[i1,i2]:
-				rshape = tuple(sbox_size(rbox))
-				data   = recvbuf[off:off+np.prod(rshape)*presize]
-				oarrs[i2][sbox2slice(rbox)] = data.reshape(preshape + rshape)
-				off += data.size
+			for i1 in range(rboxes.shape[0]):
+				if nimap[i1] != task: continue
+				for rbox in rboxes[i1,i2]:
+					rshape = tuple(sbox_size(rbox))
+					data   = recvbuf[off:off+np.prod(rshape)*presize]
+					oarrs[i2][sbox2slice(rbox)] = data.reshape(preshape + rshape)
+					off += data.size
 	return oarrs
 
 def sbox_intersect(a,b,wrap=0):
-- 
2.43.0


From c37693d790594ce1a9696134d820745db41fe24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:58 +0000
Subject: [PATCH 074/203] fix: allgatherv sends contiguous buffers

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 92f6f00..4fbe0b6 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1448,7 +1448,7 @@ def allgatherv(a, comm, axis=0):
 	o  = cumsum(n)
 	rb = np.zeros((np.sum(n),N),dtype=ra.dtype)
 	# print("A", comm.rank, ra.shape, ra.dtype, rb.shape, rb.dtype, n, N)
-	comm.Allgatherv(ra, (rb, (n*N,o*N)))
+	comm.Allgatherv(np.ascontiguousarray(ra), (rb, (n*N,o*N)))
 	fb = rb.reshape((rb.shape[0],)+fa.shape[1:])
 	# Restore original data type
 	if must_fix:
-- 
2.43.0


From 2096c41d8ae60f64b59e778613209b3da2ebbc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:25 +0000
Subject: [PATCH 075/203] fix: vec_angdist is finite for (anti)parallel vectors

---
 pixell/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 4fbe0b6..c442da0 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1868,8 +1868,10 @@ def vec_angdist(v1, v2, axis=0):
 	a  = np.sum(v1**2,axis)**0.5
 	b  = np.sum(v2**2,axis)**0.5
 	c  = np.sum((v1-v2)**2,axis)**0.5
+	# The formula is stable for a >= b. Rounding can still make the factors slightly negative
+	a, b = np.maximum(a,b), np.minimum(a,b)
 	mu = np.where(b>=c, c-(a-b), b-(a-c))
-	ang= 2*np.arctan(((((a-b)+c)*mu)/((a+(b+c))*((a-c)+b)))**0.5)
+	ang= 2*np.arctan2((((a-b)+c)*np.maximum(mu,0))**0.5, ((a+(b+c))*np.maximum((a-c)+b,0))**0.5)
 	return ang
 
 def rotmatrix(ang, raxis, axis=-1, dtype=None):
-- 
2.43.0


From 9a8718fd81180caacb5c24663e80ada3926ce61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:25 +0000
Subject: [PATCH 076/203] fix: point_in_polygon handles vertices level with the
 point

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index c442da0..2d6d8c7 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2145,7 +2145,7 @@ def point_in_polygon(points, polys):
 		x2, y2 = verts[...,i,:].T
 		with nowarn():
 			x = -y1*(x2-x1)/(y2-y1) + x1
-		ncross += ((y1*y2 < 0) & (x > 0)).T
+		ncross += (((y1 > 0) != (y2 > 0)) & (x > 0)).T
 	return ncross.T % 2 == 1
 
 def poly_edge_dist(points, polygons):
-- 
2.43.0


From d7df64d811e81275fb1064c7c97fcbdd2ba36fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:25 +0000
Subject: [PATCH 077/203] fix: point_in_polygon does not transpose its result

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 2d6d8c7..e956846 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2146,7 +2146,7 @@ def point_in_polygon(points, polys):
 		with nowarn():
 			x = -y1*(x2-x1)/(y2-y1) + x1
 		ncross += (((y1 > 0) != (y2 > 0)) & (x > 0)).T
-	return ncross.T % 2 == 1
+	return ncross % 2 == 1
 
 def poly_edge_dist(points, polygons):
 	"""Given points [...,2] and a set of polygons [...,nvertex,2], return
-- 
2.43.0


From 994ffc4306402679f938c39b509e6506655688ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:25 +0000
Subject: [PATCH 078/203] fix: recenter and decenter do not modify the center

---
 pixell/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/coordinates.py b/pixell/coordinates.py
index 037c5c2..d274d3a 100644
--- a/pixell/coordinates.py
+++ b/pixell/coordinates.py
@@ -301,14 +301,14 @@ def recenter(angs, center, restore=False):
 	# lon_from,lat_from,lon_to,lat_to
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra1,dec0-dec1,-ra0], angs, kind="zyz")
 
 def decenter(angs, center, restore=False):
 	"""Inverse operation of recenter."""
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra0,dec1-dec0,-ra1],  angs, kind="zyz")
 
 def nohor(sys): return sys if sys not in ["altaz","tele","bore"] else "icrs"
-- 
2.43.0


From 031102e83978c42a5de0a6089f87b731377e69f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:34 +0000
Subject: [PATCH 079/203] fix: solve works for stacks of vectors with numpy 2
 and does not overwrite b

---
 pixell/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e956846..262f715 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2567,12 +2567,17 @@ def solve(A, b, axes=[-2,-1], masked=False):
 	baxes = axes if A.ndim == b.ndim else [axes[0]%A.ndim]
 	fA = partial_flatten(A, axes)
 	fb = partial_flatten(b, baxes)
+	# numpy only accepts stacks of matrices, so add a dummy column to vectors
+	isvec = len(baxes) == 1
+	if isvec: fb = fb[...,None]
 	if masked:
 		mask = fA[...,0,0] != 0
-		fb[~mask] = 0
-		fb[mask]  = np.linalg.solve(fA[mask],fb[mask])
+		x    = np.zeros(fb.shape, np.result_type(fA, fb, np.float32))
+		x[mask] = np.linalg.solve(fA[mask],fb[mask])
+		fb   = x
 	else:
 		fb = np.linalg.solve(fA,fb)
+	if isvec: fb = fb[...,0]
 	return partial_expand(fb, b.shape, baxes)
 
 def eigpow(A, e, axes=[-2,-1], rlim=None, alim=None):
-- 
2.43.0


From f52fc0098b82b985e0c7a457d22dd2d3e60aa020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:34 +0000
Subject: [PATCH 080/203] fix: eigpow with negative exponents for any number of
 dimensions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 262f715..4b1d5dd 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2616,7 +2616,7 @@ def eigpow(A, e, axes=[-2,-1], rlim=None, alim=None):
 		if e < 0:
 			aE = np.abs(E)
 			if A.ndim > 2:
-				mask |= (aE < np.max(aE,1)[:,None]*rlim) | (aE < alim)
+				mask |= (aE < np.max(aE,-1)[...,None]*rlim) | (aE < alim)
 			else:
 				mask |= (aE < np.max(aE)*rlim) | (aE < alim)
 		E[~mask] **= e
-- 
2.43.0


From 6dc3611deb98be61e8090e63ddacb9a5937d7a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:47 +0000
Subject: [PATCH 081/203] fix: with_tiles compares tile lists of different
 length

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index b126e64..2644d54 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -116,7 +116,7 @@ class TileMap(np.ndarray):
 		should be considerably faster."""
 		try: active = other.geometry.active
 		except AttributeError: active = _parse_active(other, self.ntile)
-		if np.all(active == self.geometry.active):
+		if np.array_equal(active, self.geometry.active):
 			return self.copy()
 		# Construct the new geometry
 		if strict: new_geom = self.geometry.copy(active    =active)
-- 
2.43.0


From a7ef665e829747bbbd6753e1555b1e1922a29ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:47 +0000
Subject: [PATCH 082/203] fix: tile geometries with different wcs are not
 compatible

---
 pixell/tilemap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 2644d54..e90c2e3 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -395,6 +395,7 @@ class TileGeometry:
 		0. Not compatible."""
 		if tuple(self.shape[-2:]) != tuple(other.shape[-2:]): return 0
 		if tuple(self.tile_shape) != tuple(other.tile_shape): return 0
+		if not wcsutils.equal(self.wcs, other.wcs): return 0
 		if self.nactive == other.nactive and np.all(self.active == other.active): return 2
 		else: return 1
 
-- 
2.43.0


From ea7dd60a1984a12ae2e0e90a00d10499fe1f5067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:47 +0000
Subject: [PATCH 083/203] fix: arithmetic on tile maps with different active
 tiles treats missing tiles as zero

---
 pixell/tilemap.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index e90c2e3..6df421c 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -223,7 +223,9 @@ class TileView:
 # Math operations. These are automatically supported by virtue of being a numpy subclass,
 # but the functions below add support for expanding the active tiles automatically when TileMaps
 # with incompatible active tiles are combined.
-def make_binop(op, is_inplace=False):
+def make_binop(op, is_inplace=False, update=False):
+	"""Make a binary operator. Tiles that are missing in one of the operands are treated as zero,
+	unless update is True, in which case only the tiles that are active in other are changed."""
 	if isinstance(op, str):
 		op = getattr(np.ndarray, op)
 	def binop(self, other):
@@ -232,7 +234,7 @@ def make_binop(op, is_inplace=False):
 			if comp == 0:
 				# Not compatible
 				raise ValueError("operands could not be broadcast together with geometries %s and %s" % (str(self.geometry), str(other.geometry)))
-			elif comp == 1:
+			elif comp == 1 or update:
 				# Loosely compatible. Requires manual work. Slow, both due to looping and
 				# poor memory localization.
 				if is_inplace:
@@ -242,9 +244,16 @@ def make_binop(op, is_inplace=False):
 					opre = utils.broadcast_shape(self.pre, other.pre)
 					if opre != self.pre:
 						raise ValueError("operands could not be broadcast together with geometries %s and %s" % (str(self.geometry), str(other.geometry)))
-					for gi in other.geometry.active:
-						self.tiles[gi] = op(self.tiles[gi], other.tiles[gi])
+					for gi in self.geometry.active:
+						otile = other.tiles[gi]
+						if otile is None: otile = np.zeros((), other.dtype)
+						self.tiles[gi] = op(self.tiles[gi], otile)
 					return self
+				elif not update:
+					# Expand both maps to the union of their tiles
+					oact  = np.unique(np.concatenate([self.geometry.active, other.geometry.active]))
+					self  = self.with_tiles(oact, strict=True)
+					other = other.with_tiles(oact, strict=True)
 				else:
 					# Not in-place, so we have more flexibility. First build the output map
 					oact = np.unique(np.concatenate([self.geometry.active, other.geometry.active]))
-- 
2.43.0


From 7af86ce77e77b5d1e92b6d3fb0313be0a8f1962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:47 +0000
Subject: [PATCH 084/203] fix: reductions over components give a tile map with
 the right shape

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 6df421c..8d01b19 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -75,7 +75,7 @@ class TileMap(np.ndarray):
 		# In the future need to support `return_scalar`, but that is seemingly
 		# undocumented and not actually supported in numpy 2.0? So for now we
 		# just ignore it.
-		return TileMap(arr, self.geometry)
+		return TileMap(arr, self.geometry.copy(pre=arr.shape[:-1]))
 	def __getitem__(self, sel):
 		# Split sel into normal and wcs parts.
 		sel1, sel2 = utils.split_slice(sel, [self.ndim-1,1])
-- 
2.43.0


From 1765bb700244fa7a7e70b1ec8a064be77f1a13c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:41 +0000
Subject: [PATCH 085/203] fix: tilemap.insert only changes the inserted tiles

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 8d01b19..02afd86 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -291,7 +291,7 @@ def insert(omap, imap, op=lambda a,b:b):
 	* omap is not modified. Use the result is returned. (enmap both modifies and returns)
 	* The maps must have the same geometry, only differing by the active tiles.
 	This may be generalized in the future."""
-	binop = make_binop(op)
+	binop = make_binop(op, update=True)
 	return binop(omap, imap)
 
 def map_mul(mat, vec):
-- 
2.43.0


From 9e9956b59423c7addc3bf1c1e645ac37f21a8876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:21 +0000
Subject: [PATCH 086/203] fix: redistribute exchanges tiles in a well-defined
 order

---
 pixell/tilemap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index 02afd86..78fb0a7 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -471,7 +471,10 @@ def redistribute(imap, comm, active=None, omap=None):
 	iflat     = np.ascontiguousarray(imap.T).reshape(-1)
 	send_sizes= np.sum(omask*isizes,1)
 	send_offs = utils.cumsum(send_sizes)
-	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for rank, iact in np.argwhere(omask)]
+	# Both sender and receiver must handle the tiles in the same order, so go by global tile index
+	iorder    = np.argsort(imap.active)
+	oorder    = np.argsort(omap.active)
+	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for rank, iact in [(r,iorder[i]) for r, i in np.argwhere(omask[:,iorder])]]
 	send_buf  = np.concatenate(send_buf, dtype=iflat.dtype) if len(send_buf) > 0 else np.zeros(0, iflat.dtype)
 	# 5. Build the alltoallv receive info
 	recv_sizes= np.sum(imask*osizes,1)
@@ -483,7 +486,7 @@ def redistribute(imap, comm, active=None, omap=None):
 	# 7. Copy and reduce into flattened output tiles
 	oflat     = np.zeros(omap.size, omap.dtype)
 	rbuf_off  = 0
-	for rank, oact in np.argwhere(imask):
+	for rank, oact in [(r,oorder[i]) for r, i in np.argwhere(imask[:,oorder])]:
 		oflat[ooffs[oact]:ooffs[oact]+osizes[oact]] += recv_buf[rbuf_off:rbuf_off+osizes[oact]]
 		rbuf_off += osizes[oact]
 	del recv_buf
-- 
2.43.0


From 65ee12eee7c9cc788b22ce3dd5d17536e1217cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 087/203] fix: multimap.full with non-scalar maps

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index b7002bb..3d94201 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -118,7 +118,7 @@ def full(geometries, val, dtype=None):
 	omaps= ndmaps(flat, geometries)
 	# Fill with target values
 	for i, map in enumerate(omaps.maps):
-		map[:] = val[...,i]
+		map[:] = val[...,i,None,None]
 	return omaps
 
 def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float64):
-- 
2.43.0


From e94822b3c63afd0c6de715cc69db4a4f450fb276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 088/203] fix: multimap pixmap, lmap, modlmap and modrmap
 forward their arguments

---
 pixell/multimap.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 3d94201..68dc718 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -37,11 +37,11 @@ class ndmaps(np.ndarray):
 	@property
 	def maps(self):
 		return _map_view(self)
-	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, corner=corner, separable=separable, dtype=dtype)
+	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, safe=safe, corner=corner, separable=separable, dtype=dtype)
 	def pixmap(self, dtype=np.float64): return pixmap(self.geometries, dtype=dtype)
 	def pixsize(self, dtype=np.float64): return pixsize(self.geometries, dtype=dtype)
 	def lmap(self, oversample=1, dtype=np.float64): return lmap(self.geometries, oversample=oversample, dtype=dtype)
-	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample)
+	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample, dtype=dtype)
 	def modrmap(self, ref="center", safe=True, corner=False, dtype=np.float64): return modrmap(self.geometries, ref=ref, safe=safe, corner=corner, dtype=dtype)
 
 class _map_view:
@@ -127,23 +127,23 @@ def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float
 
 def pixmap(geometries, dtype=np.float64):
 	"""Return a multimap containing the pixel map for the given geometries"""
-	return multimap([enmap.pixmap(*geo, dtype=dtype) for geo in geometries])
+	return multimap([enmap.pixmap(*geo).astype(dtype) for geo in geometries])
 
-def lmap(geometries, dtype=np.float64):
+def lmap(geometries, oversample=1, dtype=np.float64):
 	"""Return a mapmultimap of all the wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.lmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.lmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
-def modlmap(geometries, dtype=np.float64):
+def modlmap(geometries, oversample=1, dtype=np.float64):
 	"""Return a mapmultimap of all the abs wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.modlmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.modlmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
 def modrmap(geometries, ref="center", safe=True, corner=False, dtype=np.float64):
 	"""Return a multimap where each entry is the distance from center
 	of that entry. Results are returned in radians, and if safe is true
 	(default), then sharp coordinate edges will be avoided."""
-	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe).astype(dtype) for geo in geometries])
+	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe, corner=corner).astype(dtype) for geo in geometries])
 
 def pixsize(geometries, dtype=np.float64):
 	return np.array([enmap.pixsize(*geo).astype(dtype) for geo in geometries])
-- 
2.43.0


From c1c14fac1917b0a002f4c98cf29b5b000fa004f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 089/203] fix: multimap.dct and idct work on real maps

---
 pixell/multimap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 68dc718..5e5197a 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -202,11 +202,11 @@ def std(mmap):
 	return np.array([np.std(m,(-2,-1)) for m in mmap.maps])
 
 def fft(mmap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=False):
-	if omap is None: omap = mmap*0j
+	if omap is None: omap = mmap*(0.0 if dct else 0j)
 	return multimap([enmap.fft(im.astype(om.dtype), omap=om, nthread=nthread, normalize=normalize, adjoint_ifft=adjoint_ifft, dct=dct) for im, om in zip(mmap.maps, omap.maps)])
 
 def ifft(mmap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=False):
-	mmap = utils.ascomplex(mmap)
+	mmap = utils.ascomplex(mmap) if not dct else mmap*1.0
 	if omap is None: omap = mmap.copy()
 	return multimap([enmap.ifft(im, omap=om, nthread=nthread, normalize=normalize, adjoint_fft=adjoint_fft, dct=dct) for im, om in zip(mmap.maps, omap.maps)])
 
-- 
2.43.0


From 386e91366dfcdf2ec9ee158bc618339ea3575665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 090/203] fix: multimap.harm2map honours keep_imag

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 5e5197a..b799518 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -231,7 +231,7 @@ def map2harm(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], adjoint_har
 	return multimap([enmap.map2harm(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_harm2map=adjoint_harm2map) for m in mmap.maps])
 
 def harm2map(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False, adjoint_map2harm=False):
-	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
+	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
 
 def map2harm_adjoint(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False):
 	return harm2map(mmap, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=True)
-- 
2.43.0


From 86567f137f598a50a086c3fc047dae6e29f988f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 091/203] fix: empty multimaps can be constructed

---
 pixell/multimap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index b799518..caf2282 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -66,7 +66,7 @@ class _map_view:
 
 def multimap(maps):
 	"""Construct a multimap (ndmaps instance) from a list of enmaps. These must have compatible pre-dimensions."""
-	if len(maps) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(maps) == 0: return ndmaps(np.zeros(0), [])
 	for i, map in enumerate(maps):
 		if map.shape[:-2] != maps[0].shape[:-2]:
 			raise ValueError("Map %d in multimaps constructor has pre-shape %s, incompatible with map 0 with %s" % (i, str(map.shape[:-2]), str(maps[0].shape[:-2])))
@@ -85,14 +85,14 @@ def _geo_helper(geometries):
 
 def zeros(geometries, dtype=np.float64):
 	"""Construct a zero-initialized multimap with the given geometries and data type"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	flat = np.zeros(geometries[0].shape[:-2]+(ntot,), dtype)
 	return ndmaps(flat, geometries)
 
 def empty(geometries, dtype=np.float64):
 	"""Construct an uninitialized multimap with the given geometries and data type"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	flat = np.empty(geometries[0].shape[:-2]+(ntot,), dtype)
 	return ndmaps(flat, geometries)
@@ -103,7 +103,7 @@ def full(geometries, val, dtype=None):
 	geometries[0].shape[:-2]+(len(geometries),). This allows one to initialize each map with a
 	separate constant.
 	"""
-	if len(geometries) == 0: return ndmaps(np.zeros(0), [(0,0), enmap.zeros(0).wcs])
+	if len(geometries) == 0: return ndmaps(np.zeros(0), [])
 	geometries, ntot = _geo_helper(geometries)
 	# Broadcast val and geometries
 	pre  = geometries[0].shape[:-2]
-- 
2.43.0


From defcc49f1530851733e3ff41e4c728392cf2cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:36 +0000
Subject: [PATCH 092/203] fix: sym_compress and sym_expand work along any axes

---
 pixell/powspec.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index b9d80d9..47af1c7 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -11,21 +11,22 @@ def sym_compress(mat, which=None, n=None, scheme=None, axes=[0,1], combined=Fals
 	number of elements to keep (the default is to keep all unique
 	elements). The 'axes' argument indicates which axes to operate on."""
 	if n is None: n = mat.shape[axes[0]]*(mat.shape[axes[0]]+1)//2
-	if which==None: which = compressed_order(n, scheme)
-	m = np.rollaxis(np.rollaxis(mat, axes[1]), axes[0])
+	if which is None: which = compressed_order(n, scheme)
+	m = np.moveaxis(mat, axes, [0,1])
 	if combined:
 		res = np.array([m[w[0],w[1]]+m[w[1],w[0]]*(w[1]!=w[0]) for w in which])
 	else:
 		res = np.array([m[w[0],w[1]] for w in which])
-	return np.rollaxis(res, 0, axes[0])
+	return np.moveaxis(res, 0, min([ax % mat.ndim for ax in axes]))
 
 def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False):
 	"""The inverse of sym_compress. Expands a flat array of numbers
 	into a symmetric matrix with ncomp components using the given
 	mapping which (or construct one using the given scheme)."""
-	if which==None: which = compressed_order(mat.shape[axis], scheme=scheme)
-	if ncomp==None: ncomp = np.max(which)+1
-	m = np.rollaxis(mat, axis)
+	if which is None: which = compressed_order(mat.shape[axis], scheme=scheme)
+	if ncomp is None: ncomp = np.max(which)+1
+	axis = axis % mat.ndim
+	m = np.moveaxis(mat, axis, 0)
 	shape = [ncomp,ncomp] + list(m.shape[1:])
 	res = np.zeros(shape,dtype=mat.dtype)
 	for i, w in enumerate(which):
@@ -33,7 +34,7 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 		res[w[0],w[1]] = m[i]
 		if w[0] != w[1]:
 			res[w[1],w[0]] = m[i]
-	return np.rollaxis(np.rollaxis(res, 1, axis), 0, axis)
+	return np.moveaxis(res, [0,1], [axis,axis+1])
 
 def sym_expand_camb_full_lens(a):
 	# This complicated ordering doesn't fit into any of our expansion patterns,
-- 
2.43.0


From b49868a1f399e68a329a15d875f2c26f77078dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:36 +0000
Subject: [PATCH 093/203] fix: sym_expand(combined=True) inverts
 sym_compress(combined=True)

---
 pixell/powspec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index 47af1c7..eb303a0 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -31,9 +31,9 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 	res = np.zeros(shape,dtype=mat.dtype)
 	for i, w in enumerate(which):
 		val = m[i]/2 if combined and w[0]!=w[1] else m[i]
-		res[w[0],w[1]] = m[i]
+		res[w[0],w[1]] = val
 		if w[0] != w[1]:
-			res[w[1],w[0]] = m[i]
+			res[w[1],w[0]] = val
 	return np.moveaxis(res, [0,1], [axis,axis+1])
 
 def sym_expand_camb_full_lens(a):
-- 
2.43.0


From 6e52bab65905feb86b0ed02ad8a89e2c3d15b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:36 +0000
Subject: [PATCH 094/203] fix: read_spectrum reads single-row files

---
 pixell/powspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index eb303a0..1decca7 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -142,7 +142,7 @@ def read_spectrum(fname, inds=True, scale=True, expand="diag", ncol=None, ncomp=
 	valid expansion schemes from compressed_order, and will
 	cause the returned array to be cl[ncomp,ncomp,lmax+1]
 	instead."""
-	a = np.atleast_2d(np.loadtxt(fname).T)
+	a = np.loadtxt(fname, ndmin=2).T
 	if inds: a = expand_inds(np.array(a[0],dtype=int), a[1:])
 	if scale: a = scale_spectrum(a, 1)
 	if ncol: a = a[:ncol]
-- 
2.43.0


From bda0dc5bf3954ab4e275f3c1f5132166077123fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:36 +0000
Subject: [PATCH 095/203] fix: read_camb_scalar works with expand=False

---
 pixell/powspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index 1decca7..38b9ddf 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -159,7 +159,7 @@ def read_camb_scalar(fname, inds=True, scale=True, expand=True, ncmb=3):
 	"""Read the information in the camb scalar outputs. This contains
 	the cmb and lensing power spectra, but not their correlation. They
 	are therefore returned as two separate arrays."""
-	if expand: expand = "diag"
+	expand = "diag" if expand else None
 	ps_cmb  = read_spectrum(fname, inds=inds, scale=scale, expand=expand, ncol=ncmb, ncomp=3)
 	ps_lens = read_phi_spectrum(fname, inds=inds, scale=scale, expand=expand, coloff=ncmb)
 	return ps_cmb, ps_lens
-- 
2.43.0


From b34383686fe38980da5dbe46296212389590c12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:46 +0000
Subject: [PATCH 096/203] fix: sim_objects finds all the pixels an object
 reaches in cylindrical maps

---
 cython/srcsim_core.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 65af39b..19f42f1 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -132,6 +132,7 @@ float calc_grad(int i, int n, int s, float * v);
 
 void calc_pix_shape(int y, int x, int ny, int nx, int separable, float * pix_decs, float * pix_ras, float * ysize, float * xsize);
 void estimate_bounding_box(
+		float obj_dec,    // object declination
 		int   obj_y,      // object pixel coordinates
 		int   obj_x,      //
 		float rmax,       // max relevant radius for object
@@ -363,7 +364,7 @@ int assign_cells(
 	#pragma omp parallel for
 	for(int oi = 0; oi < nobj; oi++) {
 		int pixbox[4];
-		estimate_bounding_box(obj_ys[oi], obj_xs[oi], rmaxs[oi], ny, nx, separable, pix_decs, pix_ras, pixbox);
+		estimate_bounding_box(obj_decs[oi], obj_ys[oi], obj_xs[oi], rmaxs[oi], ny, nx, separable, pix_decs, pix_ras, pixbox);
 		// This also handles wrapping such that the start will always be
 		// positive, and the end will be at most start beyond the end.
 		// This means that the sloppy wrapping we do that doesn't know about
@@ -656,6 +657,7 @@ float calc_dist(float dec1, float ra1, float dec2, float ra2) {
 float calc_grad(int i, int n, int s, float * v) {
 	float dv, di;
 	// Handle edge cases
+	if     (n <= 1  ) return 0;
 	if     (i <= 0  ) { dv = v[s      ]-v[0      ]; di = 1; }
 	else if(i >= n-1) { dv = v[s*(n-1)]-v[s*(n-2)]; di = 1; }
 	else              { dv = v[s*(i+1)]-v[s*(i-1)]; di = 2; }
@@ -695,6 +697,7 @@ void calc_pix_shape(int y, int x, int ny, int nx, int separable, float * pix_dec
 }
 
 void estimate_bounding_box(
+		float obj_dec,    // object declination
 		int   obj_y,      // object pixel coordinates
 		int   obj_x,      //
 		float rmax,       // max relevant radius for object
@@ -704,6 +707,23 @@ void estimate_bounding_box(
 		float * pix_ras,  //
 		int * box         // {y1,y2,x1,x2} in pixels.
 	) {
+	if(separable) {
+		// The axes are independent, so there's no need to estimate. First find the
+		// rows we reach, with one row of margin
+		int y1 = obj_y < 0 ? 0 : obj_y >= ny ? ny-1 : obj_y, y2 = y1;
+		while(y1 > 0    && fabsf(pix_decs[y1-1]-obj_dec) <= rmax) y1--;
+		while(y2 < ny-1 && fabsf(pix_decs[y2+1]-obj_dec) <= rmax) y2++;
+		box[0] = y1-1;
+		box[1] = y2+2;
+		// Then the range in ra, which is everything if we reach the pole
+		float cos_dec = cos(obj_dec), width = M_PI;
+		if(fabsf(obj_dec)+rmax < M_PI/2 && sin(rmax) < cos_dec) width = asin(sin(rmax)/cos_dec);
+		int cx = obj_x < 0 ? 0 : obj_x >= nx ? nx-1 : obj_x;
+		int Dx = (int)fminf(width/fabsf(calc_grad(cx, nx, 1, pix_ras)), nx)+1;
+		box[2] = obj_x - Dx;
+		box[3] = obj_x + Dx+1;
+		return;
+	}
 	// 1. Find the height and width of the object's pixel
 	float dy0, dx0;
 	calc_pix_shape(obj_y, obj_x, ny, nx, separable, pix_decs, pix_ras, &dy0, &dx0);
@@ -814,7 +834,7 @@ void radial_sum(
 	for(int oi = 0; oi < nobj; oi++) {
 		// 3. Figure out which pixels are relevant
 		int pixbox[4];
-		estimate_bounding_box(obj_ys[oi], obj_xs[oi], rmax, ny, nx, separable, pix_decs, pix_ras, pixbox);
+		estimate_bounding_box(obj_decs[oi], obj_ys[oi], obj_xs[oi], rmax, ny, nx, separable, pix_decs, pix_ras, pixbox);
 		wrap_box(pixbox, ny, nx);
 		for(int y_ = pixbox[0]; y_ < pixbox[1]; y_++) {
 			// We only need to handle upper wrapping due to wrap_box
-- 
2.43.0


From f55b56275550dfda8637ac5e529fa82144551035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:46 +0000
Subject: [PATCH 097/203] fix: objects that wrap around the sky are not cut off
 in sim_objects

---
 cython/srcsim_core.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 19f42f1..537e7cd 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -142,7 +142,8 @@ void estimate_bounding_box(
 		float * pix_ras,  //
 		int * box         // {y1,y2,x1,x2} in pixels.
 	);
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox);
+int pix2cellend(int pix1, int pix2, int csize, int npix);
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int * cellbox);
 void wrap_box(int * box, int ny, int nx);
 
 typedef struct IntList { int n, cap; int * vals; } IntList;
@@ -365,13 +366,13 @@ int assign_cells(
 	for(int oi = 0; oi < nobj; oi++) {
 		int pixbox[4];
 		estimate_bounding_box(obj_decs[oi], obj_ys[oi], obj_xs[oi], rmaxs[oi], ny, nx, separable, pix_decs, pix_ras, pixbox);
-		// This also handles wrapping such that the start will always be
+		// This handles wrapping such that the start will always be
 		// positive, and the end will be at most start beyond the end.
 		// This means that the sloppy wrapping we do that doesn't know about
 		// the real wrapping length of the sky will not cover any tile more than
 		// once.
-		pixbox2cellbox(pixbox, csize, ncy, ncx, cellboxes+4*oi);
-		wrap_box(cellboxes+4*oi, ncy, ncx);
+		wrap_box(pixbox, ny, nx);
+		pixbox2cellbox(pixbox, csize, ny, nx, cellboxes+4*oi);
 	}
 	// 3. For each cell in each object's cell box, register the object in that cell.
 	for(int oi = 0; oi < nobj; oi++) {
@@ -428,17 +429,22 @@ int assign_cells(
 }
 
 int mod(int a, int b) { int c = a % b; return c < 0 ? c+b : c; }
-int floor_div(int a, int b) { int c = a / b; return c*b > a ? c-1 : c; }
 
-// Convert y1 y2 x1 x2 -> cy1 cy2 cx1 cx2. The ranges are
+// The end of the cell range for the half-open pixel range pix1:pix2, which can wrap
+// past npix. The last cell can be smaller than the others, so the part that wraps is
+// counted from the first cell again, without covering the first cell of the range twice.
+int pix2cellend(int pix1, int pix2, int csize, int npix) {
+	if(pix2 <= npix) return (pix2+csize-1)/csize;
+	int ncell = (npix+csize-1)/csize, cell1 = pix1/csize;
+	int nwrap = (pix2-npix+csize-1)/csize;
+	return ncell + (nwrap < cell1 ? nwrap : cell1);
+}
+
+// Convert y1 y2 x1 x2 -> cy1 cy2 cx1 cx2 for a box wrapped by wrap_box. The ranges are
 // half-open like in python
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox) {
-	// Go from raw pixel bounds to raw cell bounds
-	int cy1 = floor_div(pixbox[0], csize), cy2 = floor_div(pixbox[1]-1, csize)+1;
-	int cx1 = floor_div(pixbox[2], csize), cx2 = floor_div(pixbox[3]-1, csize)+1;
-	// Put into output
-	cellbox[0] = cy1; cellbox[1] = cy2;
-	cellbox[2] = cx1; cellbox[3] = cx2;
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int * cellbox) {
+	cellbox[0] = pixbox[0]/csize; cellbox[1] = pix2cellend(pixbox[0], pixbox[1], csize, ny);
+	cellbox[2] = pixbox[2]/csize; cellbox[3] = pix2cellend(pixbox[2], pixbox[3], csize, nx);
 }
 
 // wrap an integer box such that the start point is >= 1, and
-- 
2.43.0


From 8a49ccf307d3a9478162130bc31d7a2ff04f44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:46 +0000
Subject: [PATCH 098/203] fix: profile cutoff lookup in sim_objects

---
 cython/srcsim_core.c | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 537e7cd..e7f1c39 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -39,7 +39,7 @@
 #include <omp.h>
 #include "srcsim_core.h"
 
-// Precompute profile levels down to 1e-10 of the abspeak. Beyond that
+// Precompute profile levels down to 1e-9. Beyond that
 // the whole profile is used.
 #define prof_base   10
 #define prof_levels 11
@@ -250,29 +250,14 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 	int * prof_info = calloc(nprof*prof_levels, sizeof(int));
 	#pragma omp parallel for
 	for(int i = 0; i < nprof; i++) {
-		// First measure the maximum value and index
-		float vmax = fabsf(prof_vs[i][0]);
-		int imax = 0;
-		for(int ri = 1; ri < prof_ns[i]; ri++) {
-			float v = fabsf(prof_vs[i][ri]);
-			if(v > vmax) {
-				imax = ri;
-				vmax = v;
-			}
-		}
-		// This corresponds to cases where the cutoff is bigger than
-		// any value the beam can reach. Should really set it to 0
-		// in this case, but easier for measure_rmax if se set it to
-		// 1
-		prof_info[i*prof_levels+0] = 1;
 		// The last level just goes all the way out to the end
 		prof_info[i*prof_levels+prof_levels-1] = prof_ns[i];
 		// Populate the others by inwards from the edge
 		int ri = prof_ns[i]-1;
-		for(int li = prof_levels-2; li > 0; li--) {
-			float vlim = vmax * powf(prof_base, -li);
-			for(; ri > imax && fabsf(prof_vs[i][ri]) < vlim; ri--);
-			prof_info[i*prof_levels+li] = ri;
+		for(int li = prof_levels-2; li >= 0; li--) {
+			float vlim = powf(prof_base, -li);
+			for(; ri > 0 && fabsf(prof_vs[i][ri]) < vlim; ri--);
+			prof_info[i*prof_levels+li] = ri+1;
 		}
 	}
 	return prof_info;
@@ -280,11 +265,10 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 
 int prof_info_lookup(int * prof_info, int prof, float vrel) {
 	// Calculate what power of our base (e.g. power of ten) we are
-	// away from the profile peak
-	int ind = (int)ceilf(-logf(vrel)/logf(prof_base));
-	// Cap to [0:nlevel]
-	if(ind < 0) ind = 0;
-	else if(ind >= prof_levels) ind = prof_levels-1;
+	// away from one
+	float level = ceilf(-logf(vrel)/logf(prof_base));
+	// Cap to [0:nlevel]. Compare as floats to handle vrel = 0
+	int ind = level < 0 ? 0 : level < prof_levels-1 ? (int)level : prof_levels-1;
 	// And look up the relevant starting point in the profile
 	return prof_info[prof_levels*prof+ind];
 }
-- 
2.43.0


From ca822f6426ca8549fd5b5140413c3660e755ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:46 +0000
Subject: [PATCH 099/203] fix: radial_sum includes the last bin

---
 cython/srcsim_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index e7f1c39..066b397 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -817,7 +817,7 @@ void radial_sum(
 		double * times    // Time taken in the different steps
 	) {
 	// 1. Figure out how far away we need to consider each object
-	float rmax    = rs[nbin-1];
+	float rmax    = rs[nbin];
 	// 2. Loop over each object
 	double t1     = wall_time();
 	#pragma omp parallel for
@@ -835,7 +835,7 @@ void radial_sum(
 				if(separable) { dec = pix_decs[y];      ra = pix_ras[x];      }
 				else          { dec = pix_decs[y*nx+x]; ra = pix_ras[y*nx+x]; }
 				float r = calc_dist(dec, ra, obj_decs[oi], obj_ras[oi]);
-				int i   = equi ? equi_search(nbin, rs, r) : binary_search(nbin, rs, r);
+				int i   = equi ? equi_search(nbin+1, rs, r) : binary_search(nbin+1, rs, r);
 				if(i < 0 || i >= nbin) continue;
 				for(int ci = 0; ci < ncomp; ci++)
 					bins[oi][ci][i] += imap[ci][y*nx+x];
-- 
2.43.0


From 87c6a2fdb82c4747e54cf992f33ab00091c98ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:46 +0000
Subject: [PATCH 100/203] fix: release the transpose work arrays in sim_objects

---
 cython/srcsim_core.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 066b397..a5dd1cc 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -772,7 +772,6 @@ float *** calloc_pppf(int n1, int n2, int n3) {
 
 void free_pppf(float *** a, int n1, int n2) {
 	for(int i1 = 0; i1 < n1; i1++) {
-		a[i1] = calloc(n2, sizeof(float*));
 		for(int i2 = 0; i2 < n2; i2++)
 			free(a[i1][i2]);
 		free(a[i1]);
-- 
2.43.0


From d22eed189bac3154ed64620fc79ff96b2f2a0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:46 +0000
Subject: [PATCH 101/203] fix: sim_objects honours op

---
 pixell/pointsrcs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index c039927..e86d313 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -115,7 +115,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	assert omap_flat.dtype == dtype, "omap.dtype must be np.float32"
 	assert omap_flat.shape == (ncomp,)+shape[-2:], "omap must be [...,ny,nx], where [ny,nx] agrees with shape, and ... agrees with amps"
 	# Whew! Actually do the work
-	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, return_times=True)[1]
+	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, op=op, separable=separable, transpose=transpose, prof_equi=prof_equi, return_times=True)[1]
 	omap = omap_flat.reshape(pre+shape[-2:])
 	# NB! Since we're not padding, this fourier operation will have problems at the edges
 	if pixwin: omap = enmap.apply_window(omap, order=pixwin_order)
@@ -235,8 +235,8 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		assert smul == 1, "method 'c' does not support smul != 1. Use method='python' if you need this"
 		if vmin is None: vmin = np.exp(-0.5*nsigma**2)
 		if   op == np.add or op == np.ndarray.__iadd__ or op == "add": op_ = "add"
-		elif op == np.max or op == "max": op_ = "max"
-		elif op == np.min or op == "min": op_ = "min"
+		elif op == np.max or op == np.maximum or op == "max": op_ = "max"
+		elif op == np.min or op == np.minimum or op == "min": op_ = "min"
 		else: raise ValueError("method 'c' only supports op add, max or min. Use method='python' if you need more")
 		if return_padded: raise ValueError("method 'c' does not support return_padded. Use method=='python' if you need this")
 		ncomp = np.prod(shape[:-2], dtype=int)
@@ -247,7 +247,7 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		amps  = amps.reshape(shape[:-2]+(nobj,))
 		# Handle beam = float, in which case a gaussian beam is made
 		beam  = expand_beam(beam, nsigma, rmax)
-		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op, pixwin=pixwin, pixwin_order=0, separable=separable, cache=cache)
+		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op_, pixwin=pixwin, pixwin_order=pixwin_order, separable=separable, cache=cache)
 	elif method == "python":
 		return sim_srcs_python(shape, wcs, srcs, beam, omap=omap, dtype=dtype, nsigma=nsigma, rmax=rmax, smul=smul, return_padded=return_padded, pixwin=pixwin, pixwin_order=pixwin_order, op=op, wrap=wrap, verbose=verbose, cache=cache, separable=separable)
 
-- 
2.43.0


From 92c7ec6e36cc325b44303a096966cca65cdc783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:21 +0000
Subject: [PATCH 102/203] fix: only treat really equi-spaced profiles as
 equi-spaced

---
 pixell/pointsrcs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index e86d313..8802f5b 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -123,9 +123,8 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 
 def is_equi(r):
 	"""Estimate whether the values r[:] = arange(n)*delta, allowing for
-	fast index calculations. This is just a heuristic, but it is hopefully
-	reliable enough."""
-	return len(r) > 1 and r[0] == 0 and np.allclose(r[-1],(len(r)-1)*r[1])
+	fast index calculations."""
+	return len(r) > 1 and r[0] == 0 and np.allclose(r,np.arange(len(r))*r[1])
 
 def radial_sum(map, poss, bins, oprofs=None, separable="auto",
 		prof_equi="auto", cache=None, return_times=False):
-- 
2.43.0


From f1260dbe39869873a6cf8c642e1c6b51c2d521be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:21 +0000
Subject: [PATCH 103/203] fix: radial_sum and radial_bin accept maps of any
 real type and layout

---
 pixell/pointsrcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 8802f5b..977ea31 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -157,7 +157,7 @@ def radial_sum(map, poss, bins, oprofs=None, separable="auto",
 	nobj     = len(obj_decs)
 	# map and number of components
 	pre      = map.shape[:-2]
-	map_flat = map.preflat
+	map_flat = np.ascontiguousarray(map.preflat, dtype=dtype)
 	ncomp    = len(map_flat)
 	# bins
 	bins     = np.asarray(bins, dtype=dtype)
@@ -203,7 +203,7 @@ def radial_bin(map, poss, bins, weights=None, separable="auto",
 			cache=cache, return_times=True)
 	# Add dimensions to div if necessary to make them broadcast.
 	# For more complex broadcasting, prepare the shapes of map and weights manually
-	div = div.reshape(profs.shape[:1]+(1,)*(profs.ndim-div.ndim)+profs.shape[-1:])
+	div = div.reshape(div.shape[:1]+(1,)*(profs.ndim-div.ndim)+div.shape[1:])
 	profs /= div
 	times = np.concatenate([times1,times2])
 	return (profs, times) if return_times else profs
-- 
2.43.0


From 20bcb47812c729eed753b98b1b1d1140571117d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:21 +0000
Subject: [PATCH 104/203] fix: sim_srcs cutoff is relative to the source
 amplitudes

---
 pixell/pointsrcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 977ea31..10a0fe8 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -232,18 +232,20 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 	if method in ["c", "C"]:
 		assert dtype is None or dtype == np.float32, "method 'c' only supports float32. Use method='python' if you need others"
 		assert smul == 1, "method 'c' does not support smul != 1. Use method='python' if you need this"
-		if vmin is None: vmin = np.exp(-0.5*nsigma**2)
 		if   op == np.add or op == np.ndarray.__iadd__ or op == "add": op_ = "add"
 		elif op == np.max or op == np.maximum or op == "max": op_ = "max"
 		elif op == np.min or op == np.minimum or op == "min": op_ = "min"
 		else: raise ValueError("method 'c' only supports op add, max or min. Use method='python' if you need more")
 		if return_padded: raise ValueError("method 'c' does not support return_padded. Use method=='python' if you need this")
+		srcs  = np.asarray(srcs)
 		ncomp = np.prod(shape[:-2], dtype=int)
 		nobj  = len(srcs)
 		poss  = srcs.T[:2]
 		amps  = np.zeros((ncomp,nobj), np.float32)
 		amps[:srcs.shape[1]-2] = srcs.T[2:2+ncomp]
-		amps  = amps.reshape(shape[:-2]+(nobj,))
+		amps  = amps.reshape(tuple(shape[:-2])+(nobj,))
+		# nsigma is relative to the peak, while vmin is in map units
+		if vmin is None: vmin = np.exp(-0.5*nsigma**2)*np.min(np.abs(amps[amps!=0]), initial=np.inf)
 		# Handle beam = float, in which case a gaussian beam is made
 		beam  = expand_beam(beam, nsigma, rmax)
 		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op_, pixwin=pixwin, pixwin_order=pixwin_order, separable=separable, cache=cache)
-- 
2.43.0


From 95a8649bc1ec00682e65fdd101393e84c6e722ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:21 +0000
Subject: [PATCH 105/203] fix: sim_srcs method python works again

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 10a0fe8..c29b5a2 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -334,7 +334,7 @@ def eval_srcs_loop(posmap, poss, amps, beam, cres, nhit, cell_srcs, dtype=np.flo
 			r      = utils.angdist(pixpos[::-1,None,:,:],srcpos[::-1,:,None,None])
 			bpix   = (r - beam[0,0])/(beam[0,1]-beam[0,0])
 			# Evaluate the beam at these locations
-			bval   = utils.interpol(beam[1], bpix[None], mode="constant", order=1, mask_nan=False) # [nsrc,ry,rx]
+			bval   = utils.interpol(beam[1], bpix[None], mode="constant", order=1) # [nsrc,ry,rx]
 			cmodel = srcamp[:,:,None,None]*bval
 			cmodel = op.reduce(cmodel,-3)
 			op(model[:,y1:y2,x1:x2], cmodel, model[:,y1:y2,x1:x2])
-- 
2.43.0


From 41b644b61a272b0a29737e0dbbf8b522a35e99ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:21 +0000
Subject: [PATCH 106/203] fix: sim_srcs_dist_transform supports float beams,
 like sim_srcs

---
 pixell/pointsrcs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index c29b5a2..37b4bbb 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -359,8 +359,9 @@ def sim_srcs_dist_transform(shape, wcs, srcs, beam, omap=None, dtype=None, nsigm
 	# The beam parameters are ignored - the beam argument is used instead
 	amps = srcs[:,2:2+ncomp]
 	poss = srcs[:,:2].copy()
-	br, bv = expand_beam(beam, nsigma, rmax).copy()
-	rmax = nsigma2rmax(beam, nsigma)
+	beam   = expand_beam(beam, nsigma, rmax)
+	br, bv = beam
+	if not rmax: rmax = nsigma2rmax(beam, nsigma)
 	if ignore_outside:
 		pixs = enmap.sky2pix(shape, wcs, poss.T[:2])
 		pmax = 2*rmax/enmap.pixsize(shape, wcs)**0.5
@@ -379,7 +380,7 @@ def expand_beam(beam, nsigma=5, rmax=None, nper=400):
 		# Build gaussian beam
 		sigma = beam.reshape(-1)[0]
 		if rmax is None: rmax = sigma*nsigma
-		r = np.linspace(0,rmax,nsigma*nper)
+		r = np.linspace(0,rmax,utils.ceil(nsigma*nper))
 		return np.array([r,np.exp(-0.5*(r/sigma)**2)])
 	elif beam.ndim == 2:
 		return beam
-- 
2.43.0


From 7c7183141e4c6442b39a469c584eda5fe133b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:45 +0000
Subject: [PATCH 107/203] fix: sim_srcs method python uses a supported
 interpolation mode

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 37b4bbb..09663bf 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -334,7 +334,7 @@ def eval_srcs_loop(posmap, poss, amps, beam, cres, nhit, cell_srcs, dtype=np.flo
 			r      = utils.angdist(pixpos[::-1,None,:,:],srcpos[::-1,:,None,None])
 			bpix   = (r - beam[0,0])/(beam[0,1]-beam[0,0])
 			# Evaluate the beam at these locations
-			bval   = utils.interpol(beam[1], bpix[None], mode="constant", order=1) # [nsrc,ry,rx]
+			bval   = utils.interpol(beam[1], bpix[None], mode="lin", border="constant") # [nsrc,ry,rx]
 			cmodel = srcamp[:,:,None,None]*bval
 			cmodel = op.reduce(cmodel,-3)
 			op(model[:,y1:y2,x1:x2], cmodel, model[:,y1:y2,x1:x2])
-- 
2.43.0


From b7923bcc22a34c8cb780cfb2b3821d419ff2e34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:45 +0000
Subject: [PATCH 108/203] fix: simulate and measure empty catalogues

---
 pixell/pointsrcs.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 09663bf..95159fa 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -91,8 +91,8 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	# Object amplitudes, and number of components
 	amps     = np.asanyarray(amps, dtype=dtype, order="C")
 	pre      = amps.shape[:-1]
-	amps_flat= amps.reshape(-1, amps.shape[-1])
-	ncomp    = len(amps_flat)
+	ncomp    = np.prod(pre, dtype=int)
+	amps_flat= amps.reshape(ncomp, amps.shape[-1])
 	# Profiles. For point sources this would just be the beam, but extended objects
 	# can have differnet profiles. We will support both [{r,b}] and [[{r,b}],[{r,b}],...]
 	try: profile[0][0][0]
@@ -104,7 +104,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	if prof_equi == "auto": prof_equi = all([is_equi(prof[0]) for prof in profile])
 	# If user hasn't specified how faint things to simulate, then set the limit a bit
 	# below the peak of the faintest object
-	if vmin is None: vmin = np.min(np.abs(amps))*1e-3
+	if vmin is None: vmin = np.min(np.abs(amps), initial=np.inf)*1e-3
 	if rmax is None: rmax = 0
 	# Set up the pixel coordinates
 	if separable: posmap = utils.cache_get(cache, "posmap", lambda: enmap.posaxes(shape, wcs, dtype=dtype))
@@ -115,7 +115,8 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	assert omap_flat.dtype == dtype, "omap.dtype must be np.float32"
 	assert omap_flat.shape == (ncomp,)+shape[-2:], "omap must be [...,ny,nx], where [ny,nx] agrees with shape, and ... agrees with amps"
 	# Whew! Actually do the work
-	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, op=op, separable=separable, transpose=transpose, prof_equi=prof_equi, return_times=True)[1]
+	if nobj == 0: times = np.zeros(3)
+	else: times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, op=op, separable=separable, transpose=transpose, prof_equi=prof_equi, return_times=True)[1]
 	omap = omap_flat.reshape(pre+shape[-2:])
 	# NB! Since we're not padding, this fourier operation will have problems at the edges
 	if pixwin: omap = enmap.apply_window(omap, order=pixwin_order)
@@ -171,7 +172,8 @@ def radial_sum(map, poss, bins, oprofs=None, separable="auto",
 	oprofs_flat   = oprofs.reshape(nobj,ncomp,nbin)
 	assert oprofs_flat.dtype == dtype, "oprofs.dtype must be np.float32"
 	# Whew! Actually do the work
-	times = srcsim.radial_sum(map_flat, obj_decs, obj_ras, obj_ys, obj_xs, bins, posmap, profs=oprofs_flat, separable=separable, prof_equi=prof_equi, return_times=True)[1]
+	if nobj == 0: times = np.zeros(1)
+	else: times = srcsim.radial_sum(map_flat, obj_decs, obj_ras, obj_ys, obj_xs, bins, posmap, profs=oprofs_flat, separable=separable, prof_equi=prof_equi, return_times=True)[1]
 	return (oprofs, times) if return_times else oprofs
 
 def radial_bin(map, poss, bins, weights=None, separable="auto",
@@ -395,7 +397,7 @@ def build_src_cells(cbox, srcpos, cres, unwind=False, wrap=None):
 	cbox    = np.asarray(cbox)
 	srcpos  = np.asarray(srcpos)
 	ishape  = srcpos.shape
-	srcpos  = srcpos.reshape(ishape[0],-1,ishape[-1])
+	srcpos  = srcpos.reshape(ishape[0],np.prod(ishape[1:-1],dtype=int),ishape[-1])
 
 	cshape  = tuple(np.ceil(((cbox[1]-cbox[0])/cres)).astype(int))
 	if unwind:
-- 
2.43.0


From 3787951736f7d85dc4a6177ac154396b0fb11bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:10 +0000
Subject: [PATCH 109/203] fix: sim_srcs_dist_transform leaves pixels far from
 all sources alone

---
 pixell/pointsrcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 95159fa..2b921d2 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -370,9 +370,10 @@ def sim_srcs_dist_transform(shape, wcs, srcs, beam, omap=None, dtype=None, nsigm
 		bad  = np.any(pixs <  -pmax, 0) | np.any(pixs > np.array(shape[-2:])[:,None]+pmax, 0)
 		amps, poss = amps[~bad], poss[~bad]
 	r, domains = enmap.distance_from(shape, wcs, poss.T[:2], domains=True, rmax=rmax)
+	bval = np.where(domains >= 0, np.interp(r, br, bv, right=0), 0)
 	np.clip(domains, 0, amps.shape[0]-1, domains)
 	for i in range(ncomp):
-		op(omap[i], np.interp(r, br, bv, right=0) * amps[domains,i], omap[i])
+		op(omap[i], bval * amps[domains,i], omap[i])
 	omap = omap.reshape(ishape)
 	return omap
 
-- 
2.43.0


From 3751ce18143325d3c3a4279b68f17665e537cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:59 +0000
Subject: [PATCH 110/203] fix: sim_srcs_python reaches all pixels within rmax

---
 pixell/pointsrcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 2b921d2..f6f105c 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -288,8 +288,9 @@ def sim_srcs_python(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rma
 	# Pad our map by rmax, so we get the contribution from sources
 	# just ourside our area. We will later split our map into cells of size cres. Let's
 	# adjust the padding so we have a whole number of cells
-	minshape = np.min(omap[...,5:-5:10,5:-5:10].pixshapemap()/10,(-2,-1))
-	cres = np.maximum(1,utils.nint(rmax/minshape))
+	minshape = np.min(omap.pixshapemap(),(-2,-1))
+	minshape = np.maximum(minshape, rmax/np.max(omap.shape[-2:]))
+	cres = np.maximum(1,utils.ceil(rmax/minshape))
 	epix = cres-(omap.shape[-2:]+2*cres)%cres
 	padding = [cres,cres+epix]
 	wmap, wslice  = enmap.pad(omap, padding, return_slice=True)
-- 
2.43.0


From c7028b31dec12335d82a2057f1284711892755da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:28 +0000
Subject: [PATCH 111/203] fix: sim_srcs_python limits its cells by the size of
 the sky, not the map

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index f6f105c..a237984 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -289,7 +289,7 @@ def sim_srcs_python(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rma
 	# just ourside our area. We will later split our map into cells of size cres. Let's
 	# adjust the padding so we have a whole number of cells
 	minshape = np.min(omap.pixshapemap(),(-2,-1))
-	minshape = np.maximum(minshape, rmax/np.max(omap.shape[-2:]))
+	minshape = np.maximum(minshape, rmax/np.max(np.abs(360./wcs.wcs.cdelt)))
 	cres = np.maximum(1,utils.ceil(rmax/minshape))
 	epix = cres-(omap.shape[-2:]+2*cres)%cres
 	padding = [cres,cres+epix]
-- 
2.43.0


From ef1c17d91bb0fe7eefdbddd4ea2234d4ea03d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:36 +0000
Subject: [PATCH 112/203] fix: keep the type of mixed values in
 bunch.concatenate

---
 pixell/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/bunch.py b/pixell/bunch.py
index ef490d8..8f9331a 100644
--- a/pixell/bunch.py
+++ b/pixell/bunch.py
@@ -165,7 +165,7 @@ def concatenate(bunches):
 		if len(res[key]) > 0:
 			first = res[key][0]
 			tmp   = np.array(res[key])
-			new   = np.empty_like(first, shape=tmp.shape)
+			new   = np.empty_like(first, shape=tmp.shape, dtype=tmp.dtype)
 			new[:] = tmp
 			res[key] = new
 			del first, tmp, new
-- 
2.43.0


From 439388fbead5ea9e029b1c2b49a48c204764ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:36 +0000
Subject: [PATCH 113/203] fix: split_esc keeps escaped escape characters and a
 trailing empty token

---
 pixell/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 4b1d5dd..7f9655e 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3545,12 +3545,11 @@ def split_esc(string, delim, esc='\\'):
 	one as an iterator."""
 	if len(delim) != 1: raise ValueError("delimiter must be one character")
 	if len(esc)   != 1: raise ValueError("escape character must be one character")
-	if len(string) == 0: yield ""
 	inesc = False
 	ostr  = ""
 	for i, c in enumerate(string):
 		if inesc:
-			if c != esc: ostr += c
+			ostr += c
 			inesc = False
 		elif c == esc:
 			inesc = True
@@ -3559,8 +3558,7 @@ def split_esc(string, delim, esc='\\'):
 			ostr = ""
 		else:
 			ostr += c
-	if len(ostr) > 0:
-		yield ostr
+	yield ostr
 
 def getenv(name, default=None):
 	"""Return the value of the named environment variable, or default if it's not set"""
-- 
2.43.0


From 1faa9428123b6c2c2d503f037753bd62b2a5860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:36 +0000
Subject: [PATCH 114/203] fix: date2ctime interprets dates as UTC

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 7f9655e..5fa3fed 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1260,9 +1260,9 @@ def nodiag(A):
 	return A
 
 def date2ctime(dstr):
-	import dateutil.parser
+	import calendar, dateutil.parser
 	d = dateutil.parser.parse(dstr, ignoretz=True, tzinfos=0)
-	return time.mktime(d.timetuple())
+	return float(calendar.timegm(d.timetuple()))
 
 def bounding_box(boxes):
 	"""Compute bounding box for a set of boxes [:,2,:], or a
-- 
2.43.0


From d50f78b8e1644107b0689c55b96cf1afeb4eff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:36 +0000
Subject: [PATCH 115/203] fix: keep the sign of angles between -1 and 0 degrees
 in format_sexa and jname

---
 pixell/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 5fa3fed..37e2381 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3173,20 +3173,22 @@ def from_sexa(sign, deg, min, sec):
 	"""Reconstruct a decimal number from the sexagesimal representation."""
 	return sign*(deg+min/60+sec/3600)
 
-def format_sexa(x, fmt="%(deg)+03d:%(min)02d:%(sec)06.2f"):
+def format_sexa(x, fmt="%(sign)s%(adeg)02d:%(min)02d:%(sec)06.2f"):
 	sign, deg, min, sec = to_sexa(x)
-	return fmt % {"deg": sign*deg, "min": min, "sec": sec}
+	return fmt % {"deg": sign*deg, "sign": "-" if sign < 0 else "+", "adeg": deg,
+		"min": min, "sec": sec}
 
-def jname(ra, dec, fmt="J%(ra_H)02d%(ra_M)02d%(ra_S)02d%(dec_d)+02d%(dec_m)02d%(dec_s)02d", tag=None, sep=" "):
+def jname(ra, dec, fmt="J%(ra_H)02d%(ra_M)02d%(ra_S)02d%(dec_sign)s%(dec_ad)d%(dec_m)02d%(dec_s)02d", tag=None, sep=" "):
 	"""Build a systematic object name for the given ra/dec in degrees. The format
 	is specified using the format string fmt. The default format string is
-	'J%(ra_H)02d%(ra_M)02d%(ra_S)02d%(dec_d)+02d%(dec_m)02d%(dec_s)02d'. This is
+	'J%(ra_H)02d%(ra_M)02d%(ra_S)02d%(dec_sign)s%(dec_ad)d%(dec_m)02d%(dec_s)02d'. This is
 	not fully compliant with the IAU specification, but it's what is used in ACT.
 	Formatting uses standard python string interpolation. The available variables are
 	ra:  right ascension in decimal degrees
 	dec: declination in decimal degrees
 	ra_d,  ra_m,  ra_s:  sexagesimal degrees, arcmins and arcsecs of right ascensions
 	dec_d, dec_m, dec_s: sexagesimal degrees, arcmins and arcsecs of declination
+	dec_sign, dec_ad: The sign (+ or -) and absolute value of dec_d
 	ra_H,  ra_M,  ra_S:  hours, minutes and seconds of right ascension
 	dec_H, rec_M, dec_S: hours, minutes and seconds of declination (doesn't make much sense)
 
@@ -3203,6 +3205,7 @@ def jname(ra, dec, fmt="J%(ra_H)02d%(ra_M)02d%(ra_S)02d%(dec_d)+02d%(dec_m)02d%(
 		"ra_d" :rad[0]*rad[1], "ra_m" : rad[2], "ra_s" : rad[3],
 		"ra_H" :rah[0]*rah[1], "ra_M" : rah[2], "ra_S" : rah[3],
 		"dec_d":ded[0]*ded[1], "dec_m": ded[2], "dec_s": ded[3],
+		"dec_sign": "-" if ded[0] < 0 else "+", "dec_ad": ded[1],
 		"dec_H":deh[0]*deh[1], "dec_M": deh[2], "dec_S": deh[3]}
 
 def ang2chord(ang):
-- 
2.43.0


From 5c10ffd97e372f0f0ed8efd63a47250d330cc6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:51 +0000
Subject: [PATCH 116/203] fix: format_to_glob and format_to_regex handle
 unnamed formats and all float formats

---
 pixell/utils.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 37e2381..8b8d833 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2681,7 +2681,7 @@ def floor(a):
 	"""Return a rounded to the previous integer, as an integer."""
 	return np.floor(a).astype(int)
 
-format_regex = r"%(\([a-zA-Z]\w*\)|\(\d+)\)?([ +0#-]*)(\d*|\*)(\.\d+|\.\*)?(ll|[lhqL])?(.)"
+format_regex = r"%(\([a-zA-Z]\w*\)|\(\d+\))?([ +0#-]*)(\d*|\*)(\.\d+|\.\*)?(ll|[lhqL])?(.)"
 def format_to_glob(format):
 	"""Given a printf format, construct a glob pattern that will match
 	its outputs. However, since globs are not very powerful, the resulting
@@ -2701,10 +2701,10 @@ def format_to_regex(format):
 		pre, name, flags, width, prec, size, type, post = m.groups()
 		opre  = re.escape(pre)
 		opost = re.escape(post)
-		open  = r"(?P<"+name[1:-1]+">" if name is not None else "("
+		open  = r"(?P<"+name[1:-1]+">" if name is not None and name[1].isalpha() else "("
 		# Expand variable widths
 		iwidth = 0 if width is None or width == '*' or width == '' else int(width)
-		iprec  = 0 if prec  is None or prec  == '*' else int(prec[1:])
+		iprec  = 0 if prec  is None or prec  == '.*' else int(prec[1:])
 		if type == '%': return opre + '%' + opost
 		if type == 's':
 			if "-" in flags: return opre + open + ".*) *" + opost
@@ -2720,17 +2720,17 @@ def format_to_regex(format):
 			else:
 				prepad  = r"0*" if "0" in flags else r" *"
 				postpad = ""
-			if type in ['d','i','u'] or type in ['f','F'] and prec == '0':
+			if type in ['d','i','u'] or type in ['f','F'] and prec == '.0':
 				num = r"\d+"
 			elif type == 'o': num = r"[0-7]+"
 			elif type == 'x': num = r"[0-9a-f]+"
 			elif type == 'X': num = r"[0-9A-F]+"
-			elif type == 'f': num = r"\d+\.\d*"
-			elif type == 'e': num = r"\d+\.\d*e[+-]\d+"
-			elif type == 'E': num = r"\d+\.\d*E[+-]\d+"
-			elif type == 'g': num = r"(\d+(\.\d*)?)|(\d+\.\d*e[+-]\d+)"
-			elif type == 'G': num = r"(\d+(\.\d*)?)|(\d+\.\d*E[+-]\d+)"
-			else: return NotImplementedError("Format character '%s'" % type)
+			elif type in ['f','F']: num = r"\d+\.\d*"
+			elif type == 'e': num = r"\d+(?:\.\d*)?e[+-]\d+"
+			elif type == 'E': num = r"\d+(?:\.\d*)?E[+-]\d+"
+			elif type == 'g': num = r"\d+(?:\.\d*)?(?:e[+-]\d+)?"
+			elif type == 'G': num = r"\d+(?:\.\d*)?(?:E[+-]\d+)?"
+			else: raise NotImplementedError("Format character '%s'" % type)
 			omid = prepad + open + omid + num + r")" + postpad
 			return opre + omid + opost
 	return re.sub(ireg, subfun, format)
-- 
2.43.0


From d0dcf308ee9f4f6305b7ac49298f18d90d75aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:05 +0000
Subject: [PATCH 117/203] fix: read single-source nemo catalogues

---
 pixell/pointsrcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index a237984..46793e0 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -515,10 +515,10 @@ def read(fname, format="auto"):
 def read_nemo(fname):
 	"""Reads the nemo ascii catalog format, and returns it as a recarray."""
 	idtype = [("name","2S64"),("ra","d"),("dec","d"),("snr","d"),("npix","i"),("detfrac","d"),("template","S32"),("glat","d"),("I","d"), ("dI","d")]
-	try: icat = np.loadtxt(fname, dtype=idtype)
+	try: icat = np.loadtxt(fname, dtype=idtype, ndmin=1)
 	except (ValueError, IndexError) as e:
 		idtype = [("name","2S64"),("ra","d"),("dec","d"),("snr","d"),("npix","i"),("template","S32"),("glat","d"),("I","d"), ("dI","d")]
-		try: icat = np.loadtxt(fname, dtype=idtype)
+		try: icat = np.loadtxt(fname, dtype=idtype, ndmin=1)
 		except (ValueError, IndexError) as e:
 			raise IOError(e.args[0])
 	odtype = [("name","S64"),("ra","d"),("dec","d"),("snr","d"),("I","d"),("dI","d"),("npix","i"),("template","S32"),("glat","d")]
-- 
2.43.0


From 5f30aeab0cb6b30539fb8e787d04cee2eaf15466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:05 +0000
Subject: [PATCH 118/203] fix: automatic catalogue format detection goes on
 after a FITS file with other columns

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 46793e0..956e997 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -509,7 +509,7 @@ def read(fname, format="auto"):
 			elif f == "nemo":     return read_nemo(fname)
 			elif f == "simple":   return read_simple(fname)
 			else: raise ValueError("Unrecognized point source format '%s' for file '%s'" % (f, fname))
-		except (ValueError, IOError, OSError) as e: pass
+		except (ValueError, IOError, OSError, AttributeError, KeyError, IndexError) as e: pass
 	raise IOError("Unable to read point source file '%s' with format '%s'" % (fname, f))
 
 def read_nemo(fname):
-- 
2.43.0


From 8e2bff2dee7f206d0768527e50b9cd7caf2d6629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:05 +0000
Subject: [PATCH 119/203] fix: interpolation with zero border does not drop the
 cells after the first one outside the map

---
 fortran/interpol.F90 | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 92c2da8..daa097f 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -470,7 +470,7 @@ subroutine interpol(idata, ishape, odata, pos, type, order, border, trans)
 		! So loop through each cell of context
 		if(.not. trans) res  = 0
 		inds = 0
-		cloop: do ci = 1, ncon
+		do ci = 1, ncon
 			! Get the value of this cell of context, taking into
 			! account boundary conditions
 			dind = 0
@@ -481,10 +481,12 @@ subroutine interpol(idata, ishape, odata, pos, type, order, border, trans)
 				xi = map_border(border, ishape(i), xi)
 				! If we don't map onto a valid point (because we use null-boundaries),
 				! this cell doesn't contribute, so go to the next one
-				if(xi < 0) cycle cloop
+				if(xi < 0) exit
 				dind = dind * n + xi
 			end do
-			if(.not. trans) then
+			if(xi < 0) then
+				continue
+			elseif(.not. trans) then
 				! Standard interpolation
 				v = idata(dind+1,:)
 				! Now multiply this value by all the relevant weights, one
@@ -510,7 +512,7 @@ subroutine interpol(idata, ishape, odata, pos, type, order, border, trans)
 				if(inds(i) < nw) exit
 				inds(i) = 0
 			end do
-		end do cloop
+		end do
 		if(.not. trans) odata(si,:) = res
 	end do
 	deallocate(weights)
@@ -556,7 +558,7 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 		! So loop through each cell of context
 		if(.not. trans) res  = 0
 		inds = 0
-		cloop: do ci = 1, ncon
+		do ci = 1, ncon
 			! Get the value of this cell of context, taking into
 			! account boundary conditions
 			dind = 0
@@ -566,10 +568,12 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 				xi = map_border(border, ishape(i), xi)
 				! If we don't map onto a valid point (because we use null-boundaries),
 				! this cell doesn't contribute, so go to the next one
-				if(xi < 0) cycle cloop
+				if(xi < 0) exit
 				dind = dind * n + xi
 			end do
-			if(.not. trans) then
+			if(xi < 0) then
+				continue
+			elseif(.not. trans) then
 				! Standard interpolation
 				v = idata(dind+1,:)
 				! Now multiply this value by all the relevant weights, one
@@ -605,7 +609,7 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 				if(inds(i) < nw) exit
 				inds(i) = 0
 			end do
-		end do cloop
+		end do
 		if(.not. trans) odata(si,:,:) = res
 	end do
 	deallocate(weights, dweights)
-- 
2.43.0


From d81f36748598c3af03dede74e9f2296b6c7b2e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:05 +0000
Subject: [PATCH 120/203] fix: spline_filter1d and mirrored borders with axes
 of length one

---
 fortran/interpol.F90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index daa097f..92e1124 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -112,6 +112,8 @@ subroutine spline_filter1d(data, dims, axis, order, border, trans)
 			pole(2) = sqrt(67.5d0 + sqrt(4436.25d0)) - sqrt(26.25d0) - 6.5d0
 		case default; return
 	end select
+	! Nothing to do for axes with just one sample
+	if(n < 2) return
 	weight = product((1-pole(1:npole))*(1-1/pole(1:npole)))
 	if(.not. trans) then
 		pi1 = 1; pi2 = npole; dpi = 1
@@ -409,7 +411,7 @@ pure function map_border(border, n, i) result(v)
 			case(2) ! cyclic
 				v = modulo(i, n)
 			case(3) ! mirrored
-				v = modulo(i, 2*n-2)
+				v = modulo(i, max(2*n-2,1))
 				if(v >= n) v = 2*n-2-v
 			case default
 				v = -1
-- 
2.43.0


From 4ff4c5f39f5757f6c2fa57cabaeb636cb2c69f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:05 +0000
Subject: [PATCH 121/203] fix: derivatives of the interpolation

---
 fortran/interpol.F90 | 45 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 92e1124..1dab590 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -374,17 +374,16 @@ pure subroutine calc_weights_deriv(type, order, p, weights, off)
 							if    (x < 0.5) then; weights(j,i) = -2*x
 							elseif(x < 1.5) then; weights(j,i) = -(1.5-x); end if
 						case(3)
-							if    (x < 1.0) then; weights(j,i) = x**2 - x*2/3
+							if    (x < 1.0) then; weights(j,i) = x**2*3/2 - x*2
 							elseif(x < 2.0) then; weights(j,i) = -(2-x)**2/2; end if
 						case(4)
 							if    (x < 0.5) then; weights(j,i) = 2*x * (x**2 * 0.25-0.625d0) + x**2 * 2*x * 0.25
 							elseif(x < 1.5) then; weights(j,i) = x**2*5/2 - x**3*2/3  - 2*x*1.25 + 5d0/24
 							elseif(x < 2.5) then; weights(j,i) = (x-2.5)**3/6; end if
 						case(5)
-							! Not computed yet
-							!if    (x < 1.0) then; weights(j,i) = x**2*(x**2*(0.25d0-x/12)-0.5d0)+0.55d0
-							!elseif(x < 2.0) then; weights(j,i) = x*(x*(x*(x*(x/24-0.375d0)+1.25d0)-1.75d0)+0.625d0)+0.425d0
-							!elseif(x < 3.0) then; weights(j,i) = (3-x)**5/120d0; end if
+							if    (x < 1.0) then; weights(j,i) = x*(x**2*(1-x*5/12)-1)
+							elseif(x < 2.0) then; weights(j,i) = x*(x*(x*(x*5/24-1.5d0)+3.75d0)-3.5d0)+0.625d0
+							elseif(x < 3.0) then; weights(j,i) = -(3-x)**4/24; end if
 					end select
 				case(2) ! lanczos
 					if(order == 0) then
@@ -537,7 +536,7 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 	real(_), allocatable   :: weights(:,:), dweights(:,:)
 	real(_) :: v(size(idata,2)), res(size(idata,2),size(pos,2)) ! (npre), (npre,ndim)
 	integer :: off(size(pos,2)), inds(size(pos,2))
-	integer :: xi, si, ci, i, j, dind, ndim, nsamp, nw, npre, ncon, n
+	integer :: xi, si, ci, i, j, k, dind, ndim, nsamp, nw, npre, ncon, n
 
 	ndim  = size(pos,2)
 	nsamp = size(pos,1)
@@ -545,7 +544,7 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 	nw    = get_weight_length(type, order)
 	ncon  = nw**ndim
 	if(trans) idata = 0
-	!$omp parallel private(si,weights,dweights,off,res,inds,ci,dind,i,xi,v,j,n)
+	!$omp parallel private(si,weights,dweights,off,res,inds,ci,dind,i,xi,v,j,k,n)
 	allocate(weights(nw,ndim),dweights(nw,ndim))
 	!$omp do
 	do si = 1, nsamp
@@ -577,31 +576,25 @@ subroutine interpol_deriv(idata, ishape, odata, pos, type, order, border, trans)
 				continue
 			elseif(.not. trans) then
 				! Standard interpolation
-				v = idata(dind+1,:)
-				! Now multiply this value by all the relevant weights, one
-				! for each dimension
+				! Deriv of v1 v2 v3 ... = dv1 v2 v3 ... in the first direction,
+				! v1 dv2 v3 ... in the second, and so on
 				do i = 1, ndim
-					v = v * weights(inds(i)+1,i)
-				end do
-				! Deriv of v1 v2 v3 ... = (dv1/v1 + dv2/v2 + ...)*v1*v2*v3 ...
-				do j = 1, npre
-					if(v(j) == 0) cycle
-					do i = 1, ndim
-						res(j,i) = res(j,i) + v(j) * dweights(inds(i)+1,i)/weights(inds(i)+1,i)
+					v = idata(dind+1,:) * dweights(inds(i)+1,i)
+					do k = 1, ndim
+						if(k .ne. i) v = v * weights(inds(k)+1,k)
 					end do
+					res(:,i) = res(:,i) + v
 				end do
 			else
 				! Transposed interpolation
-				res = odata(si,:,:)
 				do i = 1, ndim
-					res(i,:) = res(i,:) * weights(inds(i)+1,i)
-				end do
-				do j = 1, npre
-					do i = 1, ndim
-						if(weights(j,i) .ne. 0) then
-							!$omp atomic
-							idata(dind+1,j) = idata(dind+1,j) + res(j,i) * dweights(inds(i)+1,i)/weights(inds(i)+1,i)
-						end if
+					v = odata(si,:,i) * dweights(inds(i)+1,i)
+					do k = 1, ndim
+						if(k .ne. i) v = v * weights(inds(k)+1,k)
+					end do
+					do j = 1, npre
+						!$omp atomic
+						idata(dind+1,j) = idata(dind+1,j) + v(j)
 					end do
 				end do
 			end if
-- 
2.43.0


From 2433708f7e21c021507e17379f1ba3209a5ca6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:48 +0000
Subject: [PATCH 122/203] fix: lens_map_curved computes the unlensed map also
 when the lensed one is not requested

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 9145a85..83817c5 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -216,15 +216,15 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		if "a" in output: grad = grad_map[...,i1:i2,:]
 		else: grad = enmap.zeros((2,)+lshape[-2:], lwcs, dtype=dtype)
 		curvedsky.alm2map(phi_alm, grad, deriv=True)
+		if "u" in output:
+			if verbose: print("Computing unlensed map")
+			curvedsky.alm2map(cmb_alm, cmb_raw[...,i1:i2,:], spin=spin)
 		if "l" not in output: continue
 		if verbose: print("Computing observed coordinates")
 		obs_pos = enmap.posmap(lshape, lwcs)
 		if verbose: print("Computing alpha map")
 		raw_pos = enmap.samewcs(offset_by_grad(obs_pos, grad, pol=shape[-3]>1, geodesic=geodesic), obs_pos)
 		del obs_pos, grad
-		if "u" in output:
-			if verbose: print("Computing unlensed map")
-			curvedsky.alm2map(cmb_alm, cmb_raw[...,i1:i2,:], spin=spin)
 		if verbose: print("Computing lensed map")
 		cmb_obs[...,i1:i2,:] = curvedsky.alm2map_pos(cmb_alm, raw_pos[:2], spin=spin)
 		if raw_pos.shape[0] > 2 and np.any(raw_pos[2]):
-- 
2.43.0


From 6913d7526548ac6d8cb054a536f61d68d8e7bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:48 +0000
Subject: [PATCH 123/203] fix: lens_map_curved with delta_theta of about a
 pixel

---
 pixell/lensing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 83817c5..dde6e8d 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -190,10 +190,10 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 	if len(oshape) == 2: shape = (1,)+tuple(shape)
 	if delta_theta is None: bsize = shape[-2]
 	else:
-		bsize = utils.nint(abs(delta_theta/utils.degree/wcs.wcs.cdelt[1]))
+		bsize = max(1,utils.nint(abs(delta_theta/utils.degree/wcs.wcs.cdelt[1])))
 		# Adjust bsize so we don't get any tiny blocks at the end
 		nblock= shape[-2]//bsize
-		bsize = int(shape[-2]/(nblock+0.5))
+		bsize = max(1,int(shape[-2]/(nblock+0.5)))
 	# Allocate output maps
 	if "p" in output: phi_map   = enmap.empty(shape[-2:], wcs, dtype=dtype)
 	if "k" in output:
-- 
2.43.0


From 208da37052befd416ee017859474d92c78f6cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:48 +0000
Subject: [PATCH 124/203] fix: lens_map_curved uses phi_ainfo for all the maps
 made from phi_alm

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index dde6e8d..0e90912 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -200,7 +200,7 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		kappa_map = enmap.empty(shape[-2:], wcs, dtype=dtype)
 		kappa_alm = phi_to_kappa(phi_alm,phi_ainfo=phi_ainfo)
 		for i1 in range(0, shape[-2], bsize):
-			curvedsky.alm2map(kappa_alm, kappa_map[...,i1:i1+bsize,:])
+			curvedsky.alm2map(kappa_alm, kappa_map[...,i1:i1+bsize,:], ainfo=phi_ainfo)
 		del kappa_alm
 	if "a" in output: grad_map  = enmap.empty((2,)+shape[-2:], wcs, dtype=dtype)
 	if "u" in output: cmb_raw   = enmap.empty(shape, wcs, dtype=dtype)
@@ -211,11 +211,11 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		lshape, lwcs = enmap.slice_geometry(shape, wcs, (slice(i1,i2),slice(None)))
 		if "p" in output:
 			if verbose: print("Computing phi map")
-			curvedsky.alm2map(phi_alm, phi_map[...,i1:i2,:])
+			curvedsky.alm2map(phi_alm, phi_map[...,i1:i2,:], ainfo=phi_ainfo)
 		if verbose: print("Computing grad map")
 		if "a" in output: grad = grad_map[...,i1:i2,:]
 		else: grad = enmap.zeros((2,)+lshape[-2:], lwcs, dtype=dtype)
-		curvedsky.alm2map(phi_alm, grad, deriv=True)
+		curvedsky.alm2map(phi_alm, grad, deriv=True, ainfo=phi_ainfo)
 		if "u" in output:
 			if verbose: print("Computing unlensed map")
 			curvedsky.alm2map(cmb_alm, cmb_raw[...,i1:i2,:], spin=spin)
-- 
2.43.0


From 7f83b85c339e669df5bda07a3c1e59515e8605f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:48 +0000
Subject: [PATCH 125/203] fix: lens_map_flat works with the current
 utils.interpol

---
 pixell/lensing.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 0e90912..fadac48 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -68,11 +68,7 @@ def displace_map(imap, pix, order=3, mode="spline", border="cyclic", trans=False
 # its gradient as an argument.
 def lens_map_flat(cmb_map, phi_map):
 	raw_pix  = cmb_map.pixmap() + enmap.grad_pix(phi_map)
-	# And extract the interpolated values. Because of a bug in map_pixels with
-	# mode="wrap", we must handle wrapping ourselves.
-	npad = int(np.ceil(max(np.max(-raw_pix),np.max(raw_pix-np.array(cmb_map.shape[-2:])[:,None,None]))))
-	pmap = enmap.pad(cmb_map, npad, wrap=True)
-	return enmap.samewcs(utils.interpol(pmap, raw_pix+npad, order=4, mode="wrap"), cmb_map)
+	return enmap.samewcs(utils.interpol(cmb_map, raw_pix, order=4, border="wrap"), cmb_map)
 
 ######## Curved sky lensing ########
 
-- 
2.43.0


From b02ee1987ccca1a99de1ace9abc4eb4665043e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:48 +0000
Subject: [PATCH 126/203] fix: lensing.rand_alm with phi_seed

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index fadac48..90c7487 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -250,13 +250,13 @@ def rand_alm(ps_lensinput, lmax=None, dtype=np.float64, seed=None, phi_seed=None
 	else:
 		# We want separate seeds for cmb and phi. This means we have to do things a bit more manually
 		wps, ainfo = curvedsky.prepare_ps(ps_lensinput, lmax=lmax)
-		alm = np.empty([1+ncomp,ainfo.nelem],ctype)
+		alm = np.empty([len(wps),ainfo.nelem],ctype)
 		curvedsky.rand_alm_white(ainfo, alm=alm[:1], seed=phi_seed)
 		curvedsky.rand_alm_white(ainfo, alm=alm[1:], seed=seed)
 		ps12 = enmap.multi_pow(wps, 0.5)
 		ainfo.lmul(alm, (ps12/2**0.5).astype(dtype), alm)
-		alm[:,:ainfo.lmax].imag  = 0
-		alm[:,:ainfo.lmax].real *= 2**0.5
+		alm[:,:ainfo.lmax+1].imag  = 0
+		alm[:,:ainfo.lmax+1].real *= 2**0.5
 		del wps, ps12
 		
 	# Return phi_alm and cmb_alm
-- 
2.43.0


From 8b29d035cee795ec550f4c7a5377366ef8f4003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:48 +0000
Subject: [PATCH 127/203] fix: offset_by_grad does not return NaN for
 displacements perpendicular to a nearby pole

---
 pixell/lensing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 90c7487..6d5915a 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -336,8 +336,9 @@ def offset_by_grad_helper(ipos, grad, pol):
 	cosd, sind = np.cos(d), np.sin(d)
 	cost, sint = np.cos(ipos[0]), np.sin(ipos[0])
 	ocost  = cosd*cost-sind*sint*grad[0]
-	osint  = (1-ocost**2)**0.5
-	ophi   = ipos[1] + np.arcsin(sind*grad[1]/osint)
+	ocost  = np.clip(ocost,-1,1)
+	osint  = np.maximum((1-ocost**2)**0.5,1e-300)
+	ophi   = ipos[1] + np.arcsin(np.clip(sind*grad[1]/osint,-1,1))
 	if not pol:
 		return np.array([np.arccos(ocost), ophi]), None
 	# Compute the induced polarization rotation.
-- 
2.43.0


From 4fb6a77e267e4edb890d63bf46b420933593d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:48 +0000
Subject: [PATCH 128/203] fix: pole_wrap of multi-dimensional positions

---
 pixell/lensing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 6d5915a..05a6212 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -356,10 +356,10 @@ def offset_by_grad_helper(ipos, grad, pol):
 def pole_wrap(pos):
 	"""Handle pole wraparound."""
 	a = np.array(pos)
-	bad = np.where(a[0] > np.pi/2)
+	bad = a[0] > np.pi/2
 	a[0,bad] = np.pi - a[0,bad]
 	a[1,bad] = a[1,bad]+np.pi
-	bad = np.where(a[0] < -np.pi/2)
+	bad = a[0] < -np.pi/2
 	a[0,bad] = -np.pi - a[0,bad]
 	a[1,bad] = a[1,bad]+np.pi
 	return a
-- 
2.43.0


From 70764c50f97176d40801eb2bf978d187378fe366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:55 +0000
Subject: [PATCH 129/203] fix: lens_map_flat is periodic with the size of the
 map

---
 pixell/lensing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 05a6212..908d838 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -68,7 +68,7 @@ def displace_map(imap, pix, order=3, mode="spline", border="cyclic", trans=False
 # its gradient as an argument.
 def lens_map_flat(cmb_map, phi_map):
 	raw_pix  = cmb_map.pixmap() + enmap.grad_pix(phi_map)
-	return enmap.samewcs(utils.interpol(cmb_map, raw_pix, order=4, border="wrap"), cmb_map)
+	return enmap.samewcs(utils.interpol(cmb_map, raw_pix, order=4, border="grid-wrap"), cmb_map)
 
 ######## Curved sky lensing ########
 
-- 
2.43.0


From ecb26162dce937e4b9afbfa218e9609ad14dc653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:55 +0000
Subject: [PATCH 130/203] fix: spline_filter accepts the reflect border of
 map_coordinates

---
 pixell/interpol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index d6aaaf9..21e11d8 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -107,7 +107,7 @@ def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
 	to turn off the internal filtering."""
 	data = np.array(data)
 	core = get_core(data.dtype)
-	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3}[border]
+	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3, "reflect":3}[border]
 	if ndim is None: ndim = data.ndim
 	for axis in range(data.ndim-ndim,data.ndim)[::-1 if trans else 1]:
 		core.spline_filter1d(data.reshape(-1), data.shape, axis, order, iborder, trans)
-- 
2.43.0


From 0f5e1e30e3853ab03364e2c63770a2be57b0737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:39 +0000
Subject: [PATCH 131/203] fix: lensing.rand_map returns maps of the requested
 shape

---
 pixell/lensing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 908d838..8c678c7 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -275,7 +275,7 @@ def rand_map(shape, wcs, ps_lensinput, lmax=None, maplmax=None, dtype=np.float64
 	# to a lower lmax for the map than for phi, to avoid aliasing. The appropriate lmax
 	# for the cmb was the one that fits the resolution. FIXME: Can't slice alm this way.
 	#if maplmax: cmb_alm = cmb_alm[:,:maplmax]
-	return lens_map_curved(shape=shape, wcs=wcs, phi_alm=phi_alm,
+	return lens_map_curved(shape=oshape, wcs=wcs, phi_alm=phi_alm,
 		cmb_alm=cmb_alm, phi_ainfo=ainfo, maplmax=maplmax,
 		dtype=dtype, spin=spin,
 		output=output, geodesic=geodesic, verbose=verbose,
-- 
2.43.0


From 67941f60eb425b490aa17196d5d24696df1d8dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:08 +0000
Subject: [PATCH 132/203] fix: mirror the map vertically at the poles in the
 full-sky boundary condition of aberration

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 771aca9..e2baec4 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -250,7 +250,7 @@ def interpol_map(imap, pixs, epsilon=None, nthread=None, ydouble=False):
 		# fullsky maps, but makes less sense for partial sky maps
 		dmap = enmap.zeros(imap.shape[:-2]+(2*ny,nx), imap.wcs, imap.dtype)
 		dmap[...,:ny,:] = imap
-		dmap[...,ny:,:] = np.roll(imap[...,::-1], nx//2, -1)
+		dmap[...,ny:,:] = np.roll(imap[...,::-1,:], nx//2, -1)
 	else:
 		dmap = imap
 	periodicity = np.array(dmap.shape[-2:])
-- 
2.43.0


From 8b82360cbbfe174a2623d002e4a86146802f0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:08 +0000
Subject: [PATCH 133/203] fix: lin2T modulation subtracts the requested
 monopole temperature

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index e2baec4..7932ac3 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -350,7 +350,7 @@ def _modulate_lin2T(map, A, T0=utils.T_cmb, freq=150e9, map_unit=1e-6, spin=0, d
 			oval  = iplanck(freq, oval)
 			# Apply modulation
 			oval *= a
-			oval -= utils.T_cmb
+			oval -= T0
 			map[y,x] = oval/map_unit
 
 @numba.njit
-- 
2.43.0


From 5b35e55f949801d02649061d3425f5186654f583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:08 +0000
Subject: [PATCH 134/203] fix: Modulator warns about mismatching dtypes instead
 of failing

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 7932ac3..3a613e6 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -1,4 +1,4 @@
-import numpy as np, numba, ducc0, time
+import numpy as np, numba, ducc0, time, warnings
 from . import coordinates, enmap, utils, curvedsky, wcsutils
 
 beta    = 0.001235
-- 
2.43.0


From 49b617a2e45b58e9c3df87211b1b5bfe17715065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:08 +0000
Subject: [PATCH 135/203] fix: Modulator leaves its argument alone

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 3a613e6..54d0747 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -191,7 +191,7 @@ class Modulator:
 		if spin is None: spin = self.spin
 		if map.dtype != self.dtype:
 			warnings.warn("Modulator dtype does not match argument dtype")
-		return apply_modulation(map, self.A, spin=spin, T0=self.T0, freq=self.freq,
+		return apply_modulation(map.copy(), self.A, spin=spin, T0=self.T0, freq=self.freq,
 			map_unit=self.map_unit, mode=self.modulation, dipole=self.dipole)
 
 def calc_boost_1d(z, beta):
-- 
2.43.0


From c145771eec30dd61d62aadaab28b3c508977550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:08 +0000
Subject: [PATCH 136/203] fix: boost_map passes coord_dtype on

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 54d0747..2b7f0ff 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -47,7 +47,7 @@ def boost_map(map, dir=dir_equ, beta=beta, modulation="T2lin", T0=utils.T_cmb, f
 	"""
 	if return_modulation: assert modulate, "Can't return modulation of modulation is disabled"
 	if aberrate:
-		map    = aberrate_map(map, dir=dir, beta=beta, spin=spin, nthread=nthread, boundary=boundary)
+		map    = aberrate_map(map, dir=dir, beta=beta, spin=spin, nthread=nthread, coord_dtype=coord_dtype, boundary=boundary)
 	if modulate:
 		map, A = modulate_map(map, dir=dir, beta=beta, spin=spin, nthread=nthread, dipole=dipole,
 			modulation=modulation, T0=T0, freq=freq, map_unit=map_unit, return_modulation=True)
-- 
2.43.0


From 90b3ac1438d43a3d2093e6e0f5bd7ee7aa661e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 137/203] fix: map2healpix with a caller-provided output and
 spline interpolation used an undefined nside

---
 pixell/reproject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 577ec0d..9c82e9e 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -202,6 +202,7 @@ def map2healpix(imap, nside=None, lmax=None, out=None, rot=None, spin=[0,2], met
 			nside = restrict_nside(((4*np.pi/ires**2)/12)**0.5, nside_mode)
 		out = np.zeros(imap.shape[:-2]+(12*nside**2,), imap.dtype)
 	npix     = out.shape[-1]
+	nside    = curvedsky.npix2nside(npix)
 	opixsize = 4*np.pi/npix
 	# Might not be safe to go all the way to the Nyquist l, but looks that way to my tests.
 	if lmax is None: lmax = lnyq
-- 
2.43.0


From 5dae8b28d9fa31455199a32dd180673f41e4422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 138/203] fix: extensive float32 maps could not be reprojected
 harmonically

---
 pixell/reproject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 9c82e9e..b6b9c39 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -207,7 +207,7 @@ def map2healpix(imap, nside=None, lmax=None, out=None, rot=None, spin=[0,2], met
 	# Might not be safe to go all the way to the Nyquist l, but looks that way to my tests.
 	if lmax is None: lmax = lnyq
 	if extensive:
-		imap = imap * (opixsize / imap.pixsizemap(broadcastable=True)) # not /= to avoid changing original imap
+		imap = imap * (opixsize / imap.pixsizemap(broadcastable=True)).astype(np.result_type(imap.dtype, np.float32)) # not /= to avoid changing original imap
 	if method in ["harm", "harmonic"]:
 		# Harmonic interpolation preserves the power spectrum, but can introduce ringing.
 		# Probably not a good choice for positive-only quantities like hitcounts.
-- 
2.43.0


From a45009ceebddf6d2fbf25614a4f3e33c6248af36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 139/203] fix: healpix2map tried to rotate spin-0 components

---
 pixell/reproject.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index b6b9c39..3b99504 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -353,7 +353,8 @@ def healpix2map(iheal, shape=None, wcs=None, lmax=None, out=None, rot=None, spin
 			if rot is not None and iheal.ndim > 1:
 				# Update the polarization to account for the new coordinate system
 				for s, c1, c2 in enmap.spin_helper(spin, iheal.shape[-2]):
-					vals = enmap.rotate_pol(vals, -pos[2], spin=s, comps=[c1,c2-1], axis=-2)
+					if s != 0:
+						vals = enmap.rotate_pol(vals, -pos[2], spin=s, comps=[c1,c2-1], axis=-2)
 			out[...,i1:i2,:] = vals.reshape(vals.shape[:-1]+(i2-i1,-1))
 	else:
 		raise ValueError("Map reprojection method '%s' not recognized" % str(method))
-- 
2.43.0


From 000683c85738165e11c4c093a18c728980c3d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 140/203] fix: distribute could make cells larger than the
 maximum

---
 pixell/reproject.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 3b99504..456b884 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -829,11 +829,8 @@ def distribute(N,nmax):
 	Distribute N things into cells as equally as possible such that 
 	no cell has more than nmax things.
 	"""
-	actual_max = int(2.*(nmax+1)/3.)
-	numcells = int(round(N*1./actual_max))
-	each_cell = [actual_max]*(numcells-1)
-	rem = N-sum(each_cell)
-	if rem>0: each_cell.append(rem)
+	numcells  = (N+nmax-1)//nmax
+	each_cell = [N*(i+1)//numcells-N*i//numcells for i in range(numcells)]
 	assert sum(each_cell)==N
 	return each_cell
 
-- 
2.43.0


From 9576e703a6e9e10f1c21f916c72522afe5679921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 141/203] fix: reproject used warnings without importing it

---
 pixell/reproject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 456b884..e414fbe 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -1,4 +1,5 @@
 from __future__ import print_function
+import warnings
 import numpy as np
 from scipy import spatial
 from . import wcsutils, utils, enmap, coordinates, fft, curvedsky
-- 
2.43.0


From 3877c4f2ae4bda39e87866a23299bf820381bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:17 +0000
Subject: [PATCH 142/203] fix: get_pixsize_rect was wrong for maps where dec
 falls with y and where the poles have no pixel coordinates

---
 pixell/reproject.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index e414fbe..6973e6f 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -810,12 +810,12 @@ def get_pixsize_rect(shape, wcs):
 	"""Return the exact pixel size in steradians for the rectangular cylindrical
 	projection given by shape, wcs. Returns area[ny], where ny = shape[-2] is the
 	number of rows in the image. All pixels on the same row have the same area."""
-	ymin = enmap.sky2pix(shape, wcs, [-np.pi / 2, 0])[0]
-	ymax = enmap.sky2pix(shape, wcs, [np.pi / 2, 0])[0]
+	ypoles = enmap.sky2pix(shape, wcs, [[-np.pi / 2, np.pi / 2], [0, 0]])[0]
+	ymin, ymax = np.min(ypoles), np.max(ypoles)
 	y = np.arange(shape[-2])
 	x = y * 0
-	dec1 = enmap.pix2sky(shape, wcs, [np.maximum(ymin, y - 0.5), x])[0]
-	dec2 = enmap.pix2sky(shape, wcs, [np.minimum(ymax, y + 0.5), x])[0]
+	dec1 = enmap.pix2sky(shape, wcs, [np.fmax(ymin, y - 0.5), x])[0]
+	dec2 = enmap.pix2sky(shape, wcs, [np.fmin(ymax, y + 0.5), x])[0]
 	area = np.abs((np.sin(dec2) - np.sin(dec1)) * wcs.wcs.cdelt[0] * np.pi / 180)
 	return area
 
-- 
2.43.0


From 27e9dac5576ac268d2484f91b2f7018df2289b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:19 +0000
Subject: [PATCH 143/203] fix: resample_fft with an output to accumulate into
 shifted what was already there

---
 pixell/enmap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index b8fa4f8..8d7c0ac 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3154,7 +3154,8 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 		# the left in the original pixelization followed by a half pixel shift to the right in the new
 		# pixelization.
 		off -= 0.5 - 0.5*np.array(oshape[-2:],float)/fimap.shape[-2:] # in output units
-	if fomap is None:
+	accum = fomap is not None
+	if not accum:
 		owcs  = wcsutils.scale(fimap.wcs, np.array(oshape[-2:],float)/fimap.shape[-2:], rowmajor=True, corner=corner)
 		if dummy: return oshape, owcs
 		fomap = zeros(oshape, owcs, fimap.dtype)
@@ -3174,6 +3175,9 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	# fourier center had been in the middle. This could be acieved using fftshift,
 	# but that would require two extra full-array shifts
 	cny, cnx = np.minimum(fimap.shape[-2:], oshape[-2:])
+	# If we're adding to an existing map, then only our contribution to it should be shifted
+	if accum and np.any(off != 0):
+		fimap = enfft.shift(fimap, off*fimap.shape[-2:]/oshape[-2:], axes=(-2,-1), nofft=True)
 	# Odd lengths have one more non-negative than negative frequency
 	hny, hnx = (cny+1)//2, (cnx+1)//2
 	iy,  ix  = fimap.shape[-2]-(cny-hny), fimap.shape[-1]-(cnx-hnx)
@@ -3186,7 +3190,7 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	transfer(fomap[...,:hny,       ox:        ],fimap[...,:hny,       ix:        ], norm, op)
 	transfer(fomap[...,oy:,        :hnx       ],fimap[...,iy:,        :hnx       ], norm, op)
 	transfer(fomap[...,oy:,        ox:        ],fimap[...,iy:,        ix:        ], norm, op)
-	if np.any(off != 0):
+	if not accum and np.any(off != 0):
 		# It's fastest to do this here when downsampling, but when upsampling
 		# it's faster to do so in the fimap. And for a mix it's bad to do it both places.
 		fomap[:] = enfft.shift(fomap, off, axes=(-2,-1), nofft=True)
-- 
2.43.0


From 04b8c288890f8f5b6d916802adec1a3373dcf896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:19 +0000
Subject: [PATCH 144/203] fix: flat wavelet filters were evaluated at
 phase-shifted multipoles

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 1c954f2..1adde28 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -385,7 +385,7 @@ class WaveletTransform:
 		"""Get the multipole indices for wavelet scale i. This will be an enmap
 		in if the uht is flat, otherwise it's a 1d array"""
 		if self.uht.mode == "flat":
-			return enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=True)
+			return enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=False)
 		else:
 			return self.uht.l
 	def get_variance_transform(self):
-- 
2.43.0


From 1bcad2ccf1b376bec8423af9d791483c0d322dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:09 +0000
Subject: [PATCH 145/203] fix: WaveletTransform.wcs returned the shape

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 1adde28..6c00ff9 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -299,7 +299,7 @@ class WaveletTransform:
 	@property
 	def shape(self): return self.uht.shape
 	@property
-	def wcs(self): return self.uht.shape
+	def wcs(self): return self.uht.wcs
 	@property
 	def geometry(self): return self.shape, self.wcs
 	@property
-- 
2.43.0


From 713be838596384fc90c5d04f22e1b036fbf5a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:09 +0000
Subject: [PATCH 146/203] fix: flat map2wave ignored fill_value

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 6c00ff9..09674d6 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -338,7 +338,7 @@ class WaveletTransform:
 					owave.maps[i] = enmap.ifft(fsmall, normalize=False).real
 				else:
 					owave.maps[i] = enmap.zeros(shape,wcs)
-					if fill_value is not None: owave.maps[i][:] = np.nan
+					if fill_value is not None: owave.maps[i][:] = fill_value
 					
 		else:
 			ainfo = curvedsky.alm_info(lmax=self.basis.lmax)
-- 
2.43.0


From 81283540fc1ccd8eb2fd5fcf9dff9746c357a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:09 +0000
Subject: [PATCH 147/203] fix: UHT.harm2map_adjoint ignored spin on the curved
 sky

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 285dcd7..72602eb 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -106,7 +106,7 @@ class UHT:
 		if self.mode == "flat":
 			return enmap.harm2map_adjoint(map, spin=spin, normalize="phys")
 		else:
-			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo)
+			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo, spin=spin)
 	def map2harm_adjoint(self, harm, spin=0):
 		if self.mode == "flat":
 			return enmap.map2harm_adjoint(harm, spin=spin, normalize="phys")
-- 
2.43.0


From 727ad72441c800c14201ba5732a061f6ea50c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:01 +0000
Subject: [PATCH 148/203] fix: alm_info.get_map was not implemented

---
 pixell/curvedsky.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index e4f3b5f..d7c1527 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -435,7 +435,11 @@ class alm_info:
 		return (self.mstart[m].astype(int, copy=False)+l*self.stride).astype(int, copy=False)
 	def get_map(self):
 		"""Return the explicit [nelem,{l,m}] mapping this alm_info represents."""
-		raise NotImplementedError
+		res = np.zeros((self.nelem,2), int)
+		for m in range(self.nm):
+			l = np.arange(m,self.nl)
+			res[self.lm2ind(l,m)] = np.stack([l,np.full(l.shape,m)],-1)
+		return res
 	def transpose_alm(self, alm, out=None):
 		"""In order to accomodate l-major ordering, which is not directly
 		supported, this function efficiently transposes Alm into
-- 
2.43.0


From 5de9be89f90e2c7452f5dedf5902108a5f199448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:01 +0000
Subject: [PATCH 149/203] fix: UHT.hrand did not work on the flat sky

---
 pixell/uharm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 72602eb..12ea946 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -166,8 +166,10 @@ class UHT:
 	def hrand(self, hprof):
 		"""Draw a random realization of the harmonic profile hprof"""
 		if self.mode == "flat":
-			noise = enmap.rand_gauss_harm(self.shape, self.wcs)
-			return enmap.map_mul(enmap.multi_pow(hprof/noise.pixsize(),0.5), noise)
+			pre   = hprof.shape[-3:-2]
+			noise = enmap.fft(enmap.rand_gauss(pre+self.shape, self.wcs))
+			root  = enmap.multi_pow(hprof, 0.5) if hprof.ndim > 3 else hprof**0.5
+			return enmap.map_mul(root, noise)
 		else:
 			return curvedsky.rand_alm(hprof, lmax=self.lmax)
 	def harm2powspec(self, harm, harm2=None, patch=False):
-- 
2.43.0


From dc92e696a2c55651f37b68283c30a585b4c31f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:01 +0000
Subject: [PATCH 150/203] fix: UHT.hprof_rpow evaluated wide profiles beyond
 180 degrees

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 12ea946..df40586 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -204,7 +204,7 @@ class UHT:
 		else:
 			# Estimate the resolution from the beam
 			sigma = 1/max(1,np.where(hprof > np.max(hprof)*np.exp(-0.5))[0][-1])
-			r     = np.arange(0, 20*sigma, sigma/10)
+			r     = np.arange(0, min(20*sigma,np.pi), sigma/10)
 			rprof = self.hprof2rprof(hprof, r)
 			return self.rprof2hprof(rprof**power, r)
 
-- 
2.43.0


From 56af4b887daa147d6570c2dc438a84a6f442b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:25 +0000
Subject: [PATCH 151/203] fix: WaveletTransform could not be built with an
 explicit resolution

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 09674d6..8610814 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -285,7 +285,7 @@ class WaveletTransform:
 			if ores is None:
 				oress = np.maximum(np.pi/self.basis.lmaxs, ires)
 			else:
-				oress = np.zeros(self.nlevel)+ores
+				oress = np.zeros(self.basis.n)+ores
 			# Build the geometries for each wavelet scale
 			if uht.mode == "flat":
 				self.geometries = [make_wavelet_geometry_flat(uht.shape, uht.wcs, ires, ores) for ores in oress[:-1]] + [(uht.shape, uht.wcs)]
-- 
2.43.0


From f99e8793574b4e1b066387274664d5581ba92c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 152/203] fix: map_coordinates lost its result or failed for
 output arrays that are not contiguous

---
 pixell/interpol.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index 21e11d8..b86cb9e 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -63,38 +63,44 @@ def map_coordinates(idata, points, odata=None, mode="spline", order=3, border="c
 			else:
 				# When using derivatives, the output will have shape [ndim,{idims},{pdims}]
 				odata = np.empty((ndim,)+dpre+points.shape[1:],dtype=idata.dtype)
+		# The fortran functions need contiguous memory to write to
+		owork = np.ascontiguousarray(odata)
 		if mode == "spline" and prefilter:
 			idata = spline_filter(idata, order=order, border=border, ndim=ndim, trans=False)
 		if not deriv:
 			core.interpol(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
-				odata.reshape(iprod(dpre),iprod(points.shape[1:])).T,
+				np.ascontiguousarray(idata).reshape(iprod(dpre),iprod(dpost)).T, dpost,
+				owork.reshape(iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim, -1).T,
 				imode, order, iborder, False)
 		else:
 			core.interpol_deriv(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
-				odata.reshape(ndim,iprod(dpre),iprod(points.shape[1:])).T,
+				np.ascontiguousarray(idata).reshape(iprod(dpre),iprod(dpost)).T, dpost,
+				owork.reshape(ndim,iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim, -1).T,
 				imode, order, iborder, False)
+		if owork is not odata: odata[...] = owork
 		return odata
 	else:
 		# We cannot infer the shape of idata from odata and points. So both
 		# idata and odata must be specified in this case.
+		iwork = np.ascontiguousarray(idata)
+		odata = np.ascontiguousarray(odata)
 		if not deriv:
 			core.interpol(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
+				iwork.reshape(iprod(dpre),iprod(dpost)).T, dpost,
 				odata.reshape(iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim,-1).T,
 				imode, order, iborder, True)
 		else:
 			core.interpol_deriv(
-				idata.reshape(iprod(dpre),iprod(dpost)).T, dpost,
+				iwork.reshape(iprod(dpre),iprod(dpost)).T, dpost,
 				odata.reshape(ndim,iprod(dpre),iprod(points.shape[1:])).T,
 				points.reshape(ndim,-1).T,
 				imode, order, iborder, True)
 		if mode == "spline" and prefilter:
-			idata[:] = spline_filter(idata, order=order, border=border, ndim=ndim, trans=True)
+			iwork = spline_filter(iwork, order=order, border=border, ndim=ndim, trans=True)
+		if iwork is not idata: idata[...] = iwork
 		return idata
 
 def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
@@ -105,7 +111,7 @@ def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
 	to be interpolated. This overhead can be avoided by manually filtering the array
 	once, and then passing in the filtered array to map_coordinates with prefilter=False
 	to turn off the internal filtering."""
-	data = np.array(data)
+	data = np.array(data, order="C")
 	core = get_core(data.dtype)
 	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3, "reflect":3}[border]
 	if ndim is None: ndim = data.ndim
-- 
2.43.0


From 029214fa170a826c8d2d6c884888f938ff019db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 153/203] fix: interpol.build only worked with 4 outputs and
 vector error limits, and mixed up its return values

---
 pixell/interpol.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index b86cb9e..a53d460 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -155,17 +155,17 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 		depth += 1
 		if maxsize and np.prod(n) > maxsize:
 			if return_status:
-				return ip if not return_obox else ip, np.array(obox), False, err
+				return (ip, np.array(obox), False, err) if return_obox else (ip, False, err)
 			raise OverflowError("Maximum refinement mesh size exceeded")
 		nok = 0
 		# Consider accuracy for each input parameter by tentatively doubling
 		# resolution for that parameter and checking how well the interpolator
 		# predicts the true values.
 		for i in range(idim):
-			if any(errs[i] > errlim):
+			if np.any(errs[i] > errlim):
 				if maxtime and time.time() - t0 > maxtime:
 					if return_status:
-						return ip if not return_obox else ip, np.array(obox), False, err
+						return (ip, np.array(obox), False, err) if return_obox else (ip, False, err)
 					raise OverflowError("Maximum refinement time exceeded")
 				# Grid may not be good enough in this direction.
 				# Try doubling resolution
@@ -178,12 +178,8 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 				if np.any(np.isnan(ytrue)):
 					raise ValueError("Function to interpolate returned invalid value")
 				err = np.max(np.abs((ytrue-yinter).reshape(ytrue.shape[0],-1)), 1)
-				# Find the worst failure:
-				ytrue_flat = ytrue.reshape(4,-1)
-				yinter_flat= yinter.reshape(4,-1)
-				badi = np.argmax(np.abs((ytrue_flat[2]-yinter_flat[2])))
 				if verbose: print(x.shape, x.size, err/errlim)
-				if any(err > errlim):
+				if np.any(err > errlim):
 					# Not good enough, so accept improvement
 					ip = interpolator(box, ytrue, *args, **kwargs)
 					n  = nnew
@@ -191,7 +187,7 @@ def build(func, interpolator, box, errlim, maxsize=None, maxtime=None, return_ob
 				errs[i] = err
 				# update output box
 				obox[0] = np.minimum(obox[0], np.min(ytrue.reshape(ytrue.shape[0],-1),1))
-				obox[1] = np.maximum(obox[0], np.max(ytrue.reshape(ytrue.shape[0],-1),1))
+				obox[1] = np.maximum(obox[1], np.max(ytrue.reshape(ytrue.shape[0],-1),1))
 			else: nok += 1
 		if nok >= idim: break
 	res = (ip,)
-- 
2.43.0


From f0957fa00d5ab13414a5aa6f69de1c15b952cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 154/203] fix: derivative of the lanczos kernel was wrong close
 to its center

---
 fortran/interpol.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/interpol.F90 b/fortran/interpol.F90
index 1dab590..da53472 100644
--- a/fortran/interpol.F90
+++ b/fortran/interpol.F90
@@ -24,7 +24,7 @@ pure function dsinc(x)
 	real(_), parameter :: cut = 1e-4, pi = 3.14159265358979323846d0
 	y = abs(pi*x)
 	if(y < cut) then
-		dsinc = -sin(y)/2
+		dsinc = -pi*y/3
 	else
 		dsinc = cos(y)/x - sin(y)/(x*y)
 	end if
-- 
2.43.0


From 1105001317740093ba3e688ee97221fa7bc87c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 155/203] fix: find_contours and roll_rows failed for arrays
 that are not C-contiguous

---
 pixell/array_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/array_ops.py b/pixell/array_ops.py
index 17f69d9..0cd529c 100644
--- a/pixell/array_ops.py
+++ b/pixell/array_ops.py
@@ -12,12 +12,12 @@ def get_core(dtype):
 def find_contours(imap, vals, omap=None):
 	core = get_core(imap.dtype)
 	if omap is None:
-		omap = imap.astype(np.int32)*0
+		omap = np.zeros_like(imap, dtype=np.int32, order="C")
 	core.find_contours(imap.T, vals, omap.T)
 	return omap
 
 def roll_rows(imap, offsets, omap=None):
-	if omap is None: omap = np.zeros_like(imap)
+	if omap is None: omap = np.zeros_like(imap, order="C")
 	# Loop over outer dimensions, since fortran implementation
 	# doesn't support those. This should be cheap
 	for I in utils.nditer(imap.shape[:-2]):
-- 
2.43.0


From 9fe7a75d59fb13d7d1dea7f268f1e8b3d987f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 156/203] fix: roll_rows wrote outside the array for offsets of
 more than one row length

---
 fortran/array_ops.F90 | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/fortran/array_ops.F90 b/fortran/array_ops.F90
index f45b528..d5bf417 100644
--- a/fortran/array_ops.F90
+++ b/fortran/array_ops.F90
@@ -119,12 +119,7 @@ subroutine roll_rows(imap, offsets, omap)
 	!$omp parallel do private(ix,ox)
 	do y = 1, ny
 		do ix = 1, nx
-			ox = ix + offsets(y)
-			if    (ox < 1 ) then
-				ox = ox + nx
-			elseif(ox > nx) then
-				ox = ox - nx
-			end if
+			ox = modulo(ix + offsets(y) - 1, nx) + 1
 			omap(ox,y) = imap(ix,y)
 		end do
 	end do
-- 
2.43.0


From 3d8cdf3b19750eac1b2e1c6b1759b7eaf0647151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 157/203] fix: direct color modes left pixels with an invalid
 green or blue visible, and the python version truncated and returned 16-bit
 values

---
 fortran/colorize.f90 | 6 ++----
 pixell/colorize.py   | 6 +++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/fortran/colorize.f90 b/fortran/colorize.f90
index 7dca1be..25bc454 100644
--- a/fortran/colorize.f90
+++ b/fortran/colorize.f90
@@ -35,12 +35,10 @@ subroutine direct(a, res)
 	implicit none
 	real(8),    intent(in)    :: a(:,:)
 	integer(2), intent(inout) :: res(:,:)
-	real(8) :: v
 	integer :: i
-	!$omp parallel do private(i,v)
+	!$omp parallel do private(i)
 	do i = 1, size(a,1)
-		v = a(i,1)
-		if(v .ne. v) then
+		if(any(a(i,:) .ne. a(i,:))) then
 			res(:,i) = 0
 		else
 			res(1:size(a,2),i)  = min(max(0,nint(a(i,:)*256)),255)
diff --git a/pixell/colorize.py b/pixell/colorize.py
index e987e59..bf86444 100644
--- a/pixell/colorize.py
+++ b/pixell/colorize.py
@@ -140,10 +140,10 @@ def colorize_scalar_python(a, desc):
 
 def colorize_direct_python(a, desc):
 	nc  = a.shape[0]
-	res = np.empty((a.shape[1],4),dtype=np.uint16)
-	good = np.isfinite(a[0])
+	res = np.empty((a.shape[1],4),dtype=np.uint8)
+	good = np.all(~np.isnan(a),0)
 	res[~good] = 0
-	res[good,:nc] = np.maximum(0,np.minimum(255,a[:nc,good]*256))
+	res[good,:nc] = np.maximum(0,np.minimum(255,np.round(a[:nc,good]*256))).T
 	res[good,nc:] = 255
 	return res
 
-- 
2.43.0


From 4669d71321f4302a780755488c6ee52fcfb56dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 158/203] fix: direct_colorcap shared its work variables
 between threads

---
 fortran/colorize.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/colorize.f90 b/fortran/colorize.f90
index 25bc454..b4e664f 100644
--- a/fortran/colorize.f90
+++ b/fortran/colorize.f90
@@ -59,7 +59,7 @@ subroutine direct_colorcap(a, res)
 	real(8) :: v, hue(3), amp, color(3)
 	integer :: i, nc
 	nc = size(a,2)
-	!$omp parallel do private(i,v)
+	!$omp parallel do private(i,v,hue,amp,color)
 	do i = 1, size(a,1)
 		v = a(i,1)+a(i,2)+a(i,3)
 		if(v .ne. v) then
-- 
2.43.0


From 8a4040aa0702fc8e10356967c451ca534d075f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 159/203] fix: find, find_any, contains and complement_inds
 failed for empty lists

---
 pixell/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 8b8d833..4ff8a69 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -106,8 +106,11 @@ def streq(x, s):
 
 def find(array, vals, default=None):
 	"""Return the indices of each value of vals in the given array."""
-	if np.asarray(vals).size == 0: return []
+	if np.asarray(vals).size == 0: return np.zeros(np.shape(vals),int)
 	array   = np.asarray(array)
+	if array.size == 0:
+		if default is None: raise ValueError("Value not found in array")
+		return np.full(np.shape(vals), default)
 	order   = np.argsort(array)
 	cands   = np.minimum(np.searchsorted(array, vals, sorter=order),len(array)-1)
 	res     = order[cands]
@@ -147,6 +150,7 @@ def contains(array, vals):
 	for any element in array that is also in vals, and False otherwise."""
 	array = np.asarray(array)
 	vals  = np.asarray(vals)
+	if vals.size == 0: return np.zeros(array.shape, bool)
 	vals  = np.sort(vals)
 	inds  = np.searchsorted(vals, array)
 	# If a value would be inserted after the end, it wasn't
@@ -204,7 +208,7 @@ def complement_inds(inds, n):
 	E.g. complement_inds([0,2,4],7) => [1,3,5,6]"""
 	if inds is None: inds = np.arange(n)
 	mask = np.ones(n, bool)
-	mask[np.array(inds)] = False
+	mask[np.array(inds,int)] = False
 	return np.where(mask)[0]
 
 def unmask(arr, mask, axis=0, fill=0):
-- 
2.43.0


From 402c9daaf7d23e87de220996cb01321b5b05cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 160/203] fix: label_multi gave the same label to different
 combinations

---
 pixell/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 4ff8a69..195f40a 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2041,12 +2041,10 @@ def label_multi(valss):
 
 	Example: label_multi([[0,0,1,1,2],["a","b","b","b","b"]]) → [0,1,2,2,3]"""
 	oinds = 0
-	nprev = 1
 	for vals in valss:
 		# remap arbitrary values in vals to integers in inds
 		uvals, inds = np.unique(vals, return_inverse=True)
-		oinds = oinds*nprev + inds
-		nprev = len(uvals)
+		oinds = oinds*len(uvals) + inds
 	# At this point oinds has unique indices, but there could be gaps.
 	# Remove those
 	oinds = np.unique(oinds, return_inverse=True)[1]
-- 
2.43.0


From 28ac828b7211cb7861419c653cece021005a5b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 161/203] fix: greedy_split failed with its default work
 function

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 195f40a..a1bebbd 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1177,7 +1177,7 @@ def fix_zero_strides(a):
 	oarr = np.lib.stride_tricks.as_strided(a, strides=ostrides)
 	return oarr
 
-def greedy_split(data, n=2, costfun=max, workfun=lambda w,x: x if w is None else x+w):
+def greedy_split(data, n=2, costfun=max, workfun=lambda w,x: 0 if x is None else x+w):
 	"""Given a list of elements data, return indices that would
 	split them it into n subsets such that cost is approximately
 	minimized. costfun specifies which cost to minimize, with
-- 
2.43.0


From 3a52d675ab160be326abb652940d942ce6ecd69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 162/203] fix: same_array compared the addresses of temporary
 objects

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a1bebbd..ca1770d 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1155,7 +1155,7 @@ def hasoff(val, off, tol=1e-6):
 
 def same_array(a, b):
 	"""Returns true if a and b are the same array"""
-	return a.shape == b.shape and a.dtype == b.dtype and repr(a.data) == repr(b.data) and a.strides == b.strides
+	return a.shape == b.shape and a.dtype == b.dtype and getaddr(a) == getaddr(b) and a.strides == b.strides
 
 def fix_zero_strides(a):
 	"""Given an array a, return the same array with any zero-stride along
-- 
2.43.0


From 2f8419b2eb9f0d344c8cef3994452aa1482e6d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 163/203] fix: addaxes and delaxes used lists as indices

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index ca1770d..6565531 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -488,7 +488,7 @@ def addaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds.insert(ax, None)
-	return a[inds]
+	return a[tuple(inds)]
 
 def delaxes(a, axes):
 	axes = np.array(axes,int)
@@ -496,7 +496,7 @@ def delaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds[ax] = 0
-	return a[inds]
+	return a[tuple(inds)]
 
 class flatview:
 	"""Produce a read/writable flattened view of the given array,
-- 
2.43.0


From 577a058dae73c9400e7f2ff0936d69e877f14c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 164/203] fix: preflat and postflat were wrong for negative n

---
 pixell/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 6565531..cb24589 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1133,14 +1133,14 @@ def preflat(a, n):
 	"""Flatten the first n dimensions of a. If n is negative,
 	flatten all but the last -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape((-1,)+a.shape[n:])
 
 def postflat(a, n):
 	"""Flatten the last n dimensions of a. If n is negative,
-	flatten all but the last -n dimensions."""
+	flatten all but the first -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape(a.shape[:a.ndim-n]+(-1,))
 
 def between_angles(a, range, period=2*np.pi):
-- 
2.43.0


From 42476b2567f2ce1c78d00a77231e232167efe887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 165/203] fix: medmean and medmean2 failed for short arrays

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index cb24589..240f558 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -353,7 +353,7 @@ def medmean(x, axis=None, frac=0.5):
 	else:            x = np.moveaxis(x, axis, -1)
 	x = np.sort(x, -1)
 	i = int(x.shape[-1]*frac)//2
-	return np.mean(x[...,i:-i],-1)
+	return np.mean(x[...,i:x.shape[-1]-i],-1)
 
 def medmean2(x, axis=None, frac=0.1, bsize=None):
 	"""This is what medmean should have bean. This should be faster and have
@@ -363,7 +363,7 @@ def medmean2(x, axis=None, frac=0.1, bsize=None):
 	if axis is None:
 		x    = x.reshape(-1)
 		axis = 0
-	if bsize is None: bsize = nint(x.shape[axis]*frac)
+	if bsize is None: bsize = max(1,nint(x.shape[axis]*frac))
 	means = block_reduce(x, bsize, axis=axis)
 	return np.median(means, axis=axis)
 
-- 
2.43.0


From 69a3464244bf9d6a641de0fa1b63c9cf17e6cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 166/203] fix: ndigit reported 2 digits for one-digit numbers

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 240f558..1b15371 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2757,7 +2757,7 @@ class Printer:
 
 def ndigit(num):
 	"""Returns the number of digits in non-negative number num"""
-	with nowarn(): return np.int32(np.floor(np.maximum(1,np.log10(num))))+1
+	with nowarn(): return np.int32(np.floor(np.maximum(0,np.log10(num))))+1
 
 def contains_any(a, bs):
 	"""Returns true if any of the strings in list bs are found
-- 
2.43.0


From c5e4b486ab980dd6c65fc4a4191bd957745d8708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 167/203] fix: count_variable_basis yielded the same list every
 time, and counted in empty bases

---
 pixell/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 1b15371..de79838 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2830,8 +2830,9 @@ def count_variable_basis(bases):
 	[1,0], [1,1], [1,2]."""
 	N = bases
 	n = len(bases)
+	if any([b <= 0 for b in bases]): return
 	I = [0 for i in range(n)]
-	yield I
+	yield list(I)
 	while True:
 		for i in range(n-1,-1,-1):
 			I[i] += 1
@@ -2839,7 +2840,7 @@ def count_variable_basis(bases):
 			else:
 				for j in range(i,n): I[j] = 0
 		else: break
-		yield I
+		yield list(I)
 
 def list_combination_iter(ilist):
 	"""Given a list of lists of values, yields every combination of
-- 
2.43.0


From 35762a4a539a2095aaec9bb70a4ce62f20a520cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 168/203] fix: nditer yielded an invalid index for empty arrays

---
 pixell/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index de79838..74cbcf1 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3451,7 +3451,9 @@ def nditer(shape, axes=None):
 	axes = tuple(range(ndim)) if axes is None else tuple(sorted([ax%ndim for ax in axes]))
 	axes = axes[::-1] # will iterate backwards below
 	I = [slice(None)]*ndim
-	for ax in axes: I[ax] = 0
+	for ax in axes:
+		if shape[ax] == 0: return
+		I[ax] = 0
 	while True:
 		yield tuple(I)
 		for ax in axes:
-- 
2.43.0


From 1e31ca5208caed2de396ef5dc559b2f713df2ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 169/203] fix: cache_get never filled an empty cache

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 74cbcf1..3b798e5 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3499,7 +3499,7 @@ def glob(desc):
 	else: return res
 
 def cache_get(cache, key, op):
-	if not cache: return op()
+	if cache is None: return op()
 	if key not in cache:
 		cache[key] = op()
 	return cache[key]
-- 
2.43.0


From a53105f556fdb4a218d6f32bc54c2520ac434e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 170/203] fix: unmask lost the dimensions after the masked one

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 3b798e5..c569fa6 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -217,7 +217,7 @@ def unmask(arr, mask, axis=0, fill=0):
 	mask. Values that were not selected by mask in the first place will be
 	filled with the fill value."""
 	axis  %= arr.ndim
-	result = np.full(arr.shape[:axis]+mask.shape, fill, arr.dtype)
+	result = np.full(arr.shape[:axis]+mask.shape+arr.shape[axis+1:], fill, arr.dtype)
 	result[(slice(None),)*axis+(mask,)] = arr
 	return result
 
-- 
2.43.0


From 65eaf67e29ae333fd1dd93449fe4b53da6473b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 171/203] fix: parse_numbers failed with its default dtype

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index c569fa6..99dcb01 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2291,7 +2291,7 @@ def parse_floats(s): return parse_numbers(s, float)
 def parse_numbers(s, dtype=None):
 	res = []
 	for word in s.split(","):
-		toks = [dtype(w) for w in word.split(":")]
+		toks = [(float if dtype is None else dtype)(w) for w in word.split(":")]
 		if ":" not in word:
 			res.append(toks[:1])
 		else:
-- 
2.43.0


From f6023d0b1fc3456576b76be43548c294df2e6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:43 +0000
Subject: [PATCH 172/203] fix: solve_mapsys: solve for vectors also with numpy
 2

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 4a0c9cf..877faf9 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -1055,7 +1055,7 @@ def solve_mapsys(kappa, rho):
 		dflux = kappa**-0.5
 	else:
 		# Check if this is slow
-		flux  = enmap.samewcs(np.linalg.solve(kappa.T, rho.T).T, rho)
+		flux  = enmap.samewcs(np.linalg.solve(kappa.T, rho.T[...,None])[...,0].T, rho)
 		dflux = enmap.samewcs(np.einsum("aayx->ayx",np.linalg.inv(kappa.T).T)**0.5, kappa)
 	return flux, dflux
 
-- 
2.43.0


From d6722b62657dd5f8069c051e9f9f93b6440ed22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:43 +0000
Subject: [PATCH 173/203] fix: analysis: import multimap, which NmatWavelet
 uses

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 877faf9..61262b5 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -114,7 +114,7 @@ print("%-15s %8.3f %8.3f %8.3f" % ("lowcorr full emp", flux, dflux, flux/dflux))
 
 import numpy as np, time
 from scipy import ndimage
-from . import enmap, utils, uharm, wavelets, bunch
+from . import enmap, utils, uharm, wavelets, multimap, bunch
 
 # TODO: Figure out the proper way to handle fourier-space
 # linear operators. Currently I have a mess of map2harm, harm2map
-- 
2.43.0


From a47117b5e3b378085d2585dfb6cb10d00509c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:43 +0000
Subject: [PATCH 174/203] fix: analysis.safe_pow: use pixell's eigpow instead
 of enlib's

---
 pixell/analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 61262b5..bfae921 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -1116,10 +1116,9 @@ def get_ref(a, tol=1e-3, default=0, n=1000):
 	return ref
 
 def safe_pow(N, pow, bad_tol=1e-3):
-	from enlib import array_ops
 	v   = np.einsum("aa...->a...", N)
 	ref = np.array([get_ref(vi) for vi in v])
-	return array_ops.eigpow(N, pow, axes=[0,1], lim0=ref*bad_tol)
+	return enmap.samewcs(utils.eigpow(N, pow, axes=[0,1], alim=np.min(ref)*bad_tol), N)
 
 def make_circle_labels(shape, wcs, pixs, inds=None, r=2*utils.arcmin):
 	if inds is None: inds = np.arange(1,len(pixs[0])+1)
-- 
2.43.0


From 6f50e4e4aef1cde8c0c262f0495614b88039565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:43 +0000
Subject: [PATCH 175/203] fix: calc_beam_area: scipy.integrate.simps is gone,
 use simpson

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 99dcb01..11a0556 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2325,7 +2325,7 @@ def calc_beam_area(beam_profile):
 	r is in radians, b should have a peak of 1.."""
 	from scipy import integrate
 	r, b = beam_profile
-	return integrate.simps(2*np.pi*r*b,r)
+	return integrate.simpson(2*np.pi*r*b,x=r)
 
 def planck(f, T=T_cmb):
 	"""Return the Planck spectrum at the frequency f and temperature T in Jy/sr"""
-- 
2.43.0


From a9d36d1c9d09ad3c7540ad40c324eb22753e20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:43 +0000
Subject: [PATCH 176/203] fix: MeasurerMulti: use the measurer of the case, not
 of its rank

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index bfae921..6119f22 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -938,7 +938,7 @@ class MeasurerMulti(Measurer):
 		for i, ca in enumerate(uvals):
 			subicat = icat[order[edges[i]:edges[i+1]]]
 			if len(subicat) == 0: continue
-			subocat = self.measurers[i](map, subicat).cat
+			subocat = self.measurers[ca](map, subicat).cat
 			cat[order[edges[i]:edges[i+1]]] = subocat
 		return bunch.Bunch(cat=cat)
 
-- 
2.43.0


From f35a63572d19e991c04af55d4946a52b2e2c96dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:37 +0000
Subject: [PATCH 177/203] fix: FinderMulti, FinderMultiSafe: default scalings
 are one per component

---
 pixell/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 6119f22..deea8fd 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -593,7 +593,7 @@ class FinderMulti(Finder):
 		self.nmat     = nmat
 		self.beams    = beams
 		if scalings is None:
-			scalings = np.ones(len(beams))
+			scalings = [np.ones(len(beam)) for beam in beams]
 		self.scalings = scalings
 		self.order    = 3
 		self.r        = 2*utils.arcmin
@@ -699,7 +699,7 @@ class FinderMultiSafe(Finder):
 		self.nmat     = nmat
 		self.beams    = beams
 		if scalings is None:
-			scalings = np.ones(len(beams))
+			scalings = [np.ones(len(beam)) for beam in beams]
 		self.scalings = scalings
 		self.order    = 3
 		self.rs       = np.array([get_central_radius(beam, lknee=2000) for beam in self.beams])
-- 
2.43.0


From 0f03781f52642874256a07fb8e7a0c686b8be563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:05 +0000
Subject: [PATCH 178/203] fix: NmatWavelet: don't shift the beam when
 resampling it

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index deea8fd..0c943c0 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -494,7 +494,7 @@ class NmatWavelet(Nmat):
 		# Then get kappa
 		fkappa = enmap.zeros(self.wiN.pre + map.shape[-2:], map.wcs, utils.complex_dtype(map.dtype))
 		for i in range(self.wt.nlevel):
-			sub_Q  = self.wt.filters[i]*enmap.resample_fft(beam, self.wt.geometries[i][0], norm=None, corner=True)
+			sub_Q  = self.wt.filters[i]*enmap.resample_fft(beam, self.wt.geometries[i][0], norm=None, corner=False)
 			# Is it right to do this component-wise?
 			sub_Q2 = rop(sub_Q, op=lambda a: a[:,None]*a[None,:])
 			fsmall = sub_Q2*enmap.fft(self.wiN.maps[i], normalize=False)/self.wiN.npixs[i]
-- 
2.43.0


From d52a2c199535d1748a8b81aff02f51e8645042ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:37 +0000
Subject: [PATCH 179/203] fix: unwrap_range: don't modify the argument

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 11a0556..a69e8ef 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1361,7 +1361,7 @@ def unwrap_range(range, nwrap=2*np.pi):
 	doesn't assume that ranges are shorter than half the
 	sky. But it still shortens ranges that are longer than
 	a whole wrapping period."""
-	range = np.asanyarray(range)
+	range = np.asanyarray(range)+0.0
 	range[1] -= np.floor((range[1]-range[0])/nwrap)*nwrap
 	range    -= np.floor(range[1,None]/nwrap)*nwrap
 	return range
-- 
2.43.0


From dc089398a7862d55e72951dfe29186df3f2792c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:37 +0000
Subject: [PATCH 180/203] fix: spec2flat_corr: don't zero non-finite values in
 the caller's spectrum

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 8d7c0ac..e48c462 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1862,7 +1862,7 @@ def spec2flat_corr(shape, wcs, cov, exp=1.0, border="constant"):
 	oshape = cov.shape[:-1] + tuple(shape)[-2:]
 	if cov.ndim == 1: cov = cov[None,None]
 	if exp != 1.0: cov = multi_pow(cov, exp)
-	cov[~np.isfinite(cov)] = 0
+	cov    = np.where(np.isfinite(cov), cov, 0)
 	# Convert power spectrum to correlation
 	ext  = extent(shape,wcs)
 	rmax = np.sum(ext**2)**0.5
-- 
2.43.0


From ba616fc94fc034766f98b25428e988347bd2bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:12 +0000
Subject: [PATCH 181/203] fix: enplot: -g in an option string toggles the grid
 again

---
 pixell/enplot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index df2d04d..781e450 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -110,6 +110,8 @@ def plot_iterator(*arglist, **kwargs):
 		if isinstance(arg, basestring):
 			parsed = parse_args(arg, noglob=noglob, nodef=True)
 			imaps += parsed.ifiles
+			# This is a toggle, so it must be applied to the current value
+			if "grid" in parsed: parsed.grid += args.grid
 			args.update(parsed)
 		else:
 			imaps.append(arg)
-- 
2.43.0


From c17f134e509c46e49cbfd5f8d280618d52770c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:12 +0000
Subject: [PATCH 182/203] fix: enplot: uniform contours with numpy 2

---
 pixell/enplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index 781e450..1f87bff 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -720,6 +720,7 @@ def calc_contours(crange, args):
 	step: number (explicit), -number (relative)
 	"""
 	if args.contours is None: return None
+	crange = np.asarray(crange).reshape(2,-1)[:,0]
 	def setup_uniform(vals):
 		if len(vals) == 1:
 			base, step = 0, vals[0]
-- 
2.43.0


From ceebf1889db5b52eefb9099f8a5f5dce65f4796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:12 +0000
Subject: [PATCH 183/203] fix: enplot: color bar of narrow maps

---
 pixell/enplot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index 1f87bff..9156df8 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -562,14 +562,15 @@ def draw_colorbar(crange, width, args):
 	# Draw the labels on the image
 	draw.text((lw-boxes[0,0], 0), labels[0], col, font=font)
 	draw.text((width-lw, 0),      labels[1], col, font=font)
-	# Draw the color bar itself
+	bounds = np.array([[0,0],[width,lh]])
+	# Draw the color bar itself, if there is any space for it
+	if width <= 2*lw: return img, bounds
 	bar_data    = np.zeros((lh,width-2*lw))
 	bar_data[:] = np.linspace(0,1,bar_data.shape[-1])
 	bar_col     = map_to_color(bar_data[None], [0,1], args)
 	bar_img     = PIL.Image.fromarray(utils.moveaxis(bar_col,0,2)).convert('RGBA')
 	# Overlay it on the output image
 	img.paste(bar_img, (lw,0))
-	bounds = np.array([[0,0],[width,lh]])
 	return img, bounds
 
 def draw_map_field_mpl(map, args, crange=None, printer=noprint):
-- 
2.43.0


From a802d56911597407372027cc78f98435c363065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:12 +0000
Subject: [PATCH 184/203] fix: enplot: color ranges of all but the first rgb
 image

---
 pixell/enplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index 9156df8..bced34f 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -189,7 +189,7 @@ def plot_iterator(*arglist, **kwargs):
 				yield bunch.Bunch(img=figure, name=oname, type="mpl", dpi=args.mpl_dpi, printer=subprint, **oinfo)
 			# Progress report
 			printer.write("\r%s %5d/%d" % (iname, i+1,ncomp), 2, exact=True, newline=False)
-			crange_ind += 1
+			crange_ind += ngroup
 		printer.write("",    2, exact=True)
 		printer.write(iname, 1, exact=True)
 
-- 
2.43.0


From 5b92b0f3e48d87e15d3b463078493adb611cdf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:12 +0000
Subject: [PATCH 185/203] fix: enplot: fix_wcs should not modify the map it
 plots

---
 pixell/enplot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index bced34f..4d79717 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -375,6 +375,8 @@ def get_map(ifile, args, return_info=False, name=None):
 		except AttributeError: m0 = enmap.enmap(m0[:], copy=False)
 		# Optionally fix the wcs to avoid crpix being too far away
 		if args.fix_wcs:
+			# Avoid modifying the caller's map
+			if not isinstance(ifile, basestring): m0 = m0[:]
 			m0.wcs = wcsutils.fix_wcs(m0.wcs)
 		# Save the original map, so we can compare its wcs later
 		m  = m0
-- 
2.43.0


From b9264d01e1741588b0409b364742cc6835544b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:12 +0000
Subject: [PATCH 186/203] fix: enplot: merge_plots should not modify its input

---
 pixell/enplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index 4d79717..26bc01a 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -872,6 +872,7 @@ def merge_images(images):
 def merge_plots(plots):
 	res = plots[0].copy()
 	imgs, bounds = standardize_images([(plot.img, plot.info.bounds) for plot in plots])
+	res.info        = res.info.copy()
 	res.img         = imgs[0]
 	res.info.bounds = bounds
 	for img in imgs[1:]:
-- 
2.43.0


From cdb7a1154ece55ad53166849d6048f837da64ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:12 +0000
Subject: [PATCH 187/203] fix: enplot: thin rectangle annotations

---
 pixell/enplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index 26bc01a..0e421f2 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -828,7 +828,7 @@ def draw_annotations(map, annots, args):
 			else:
 				if x2 < x1: x1,x2 = x2,x1
 				if y2 < y1: y1,y2 = y2,y1
-				for i in range(width):
+				for i in range(int(min(width,(x2-x1)//2+1,(y2-y1)//2+1))):
 					draw.rectangle((x1+i,y1+i,x2-i,y2-i), outline=color)
 		elif atype in ["t", "text"]:
 			x,y  = topix(annot[1:5])
-- 
2.43.0


From f2a2033dd3e3527e73b332879722bf4bba92f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:12 +0000
Subject: [PATCH 188/203] fix: enplot: independent matplotlib plots, and
 working subticks

---
 pixell/enplot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index 0e421f2..d641d06 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -593,23 +593,23 @@ def draw_map_field_mpl(map, args, crange=None, printer=noprint):
 		box  = map.box()*180/np.pi
 		pyplot.imshow(utils.moveaxis(color,0,2), extent=[box[0,1],box[1,1],box[1,0],box[0,0]])
 		# Make conformal in center of image
-		pyplot.axes().set_aspect(1/np.cos(np.mean(map.box()[:,0])))
+		pyplot.gca().set_aspect(1/np.cos(np.mean(map.box()[:,0])))
 		if args.grid % 2:
-			ax = pyplot.axes()
+			ax = pyplot.gca()
 			ticks = np.full(2,1.0)
 			ticks[:] = parse_list(args.ticks)
 			ax.xaxis.set_major_locator(ticker.MultipleLocator(ticks[1]))
 			ax.yaxis.set_major_locator(ticker.MultipleLocator(ticks[0]))
 			if args.subticks:
-				ax.xaxis.set_minor_locator(ticker.MultipleLocator(args.sub))
-				ax.yaxis.set_minor_locator(ticker.MultipleLocator(args.sub))
+				ax.xaxis.set_minor_locator(ticker.MultipleLocator(args.subticks))
+				ax.yaxis.set_minor_locator(ticker.MultipleLocator(args.subticks))
 				pyplot.minorticks_on()
 				pyplot.grid(True, which="major", linewidth=2)
 				pyplot.grid(True, which="minor", linewidth=1)
 			else:
 				pyplot.grid(True)
 		pyplot.tight_layout(pad=0.0,h_pad=0.0,w_pad=0.0)
-	return pyplot
+	return fig
 	#pyplot.savefig(oname,bbox_inches="tight",dpi=dpi)
 
 def parse_range(desc,n):
-- 
2.43.0


From f1eda6f9d908b5a36b94245879c56eb252fa7042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:12 +0000
Subject: [PATCH 189/203] fix: cgrid: no grid lines beyond 90 and 360 degrees

---
 pixell/cgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/cgrid.py b/pixell/cgrid.py
index b432a9d..98cd76d 100644
--- a/pixell/cgrid.py
+++ b/pixell/cgrid.py
@@ -86,7 +86,7 @@ def calc_gridinfo(shape, wcs, steps=[2,2], nstep=[200,200], zenith=False, unit=1
 	else:
 		box   = np.array([[-90.,0.],[90.,360.]])
 		start = np.array([-90.,0.])
-		nline = np.array([180.,360.])/steps+1
+		nline = np.floor(np.array([180.,360.])/steps+1e-6)+1
 
 	gridinfo.lon = []
 	gridinfo.lat = []
-- 
2.43.0


From e82f67a585c4c92ce26566b69db400ae937e60ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:34 +0000
Subject: [PATCH 190/203] fix: avoid integer overflow in graybody, iplanck_T
 and tsz_spectrum

---
 pixell/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a69e8ef..e3d3a75 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2336,7 +2336,7 @@ blackbody = planck
 
 def iplanck_T(f, I):
 	"""The inverse of planck with respect to temperature"""
-	return h*f/k/np.log(1+1/(I/1e26*c**2/(2*h*f**3)))
+	return h*f/k/np.log(1+1/(I/1e26*c**2/(2*h*f*f*f)))
 
 def dplanck(f, T=T_cmb):
 	"""The derivative of the planck spectrum with respect to temperature, evaluated
@@ -2355,7 +2355,7 @@ def dplanck(f, T=T_cmb):
 
 def graybody(f, T=10, beta=1):
 	"""Return a graybody spectrum at the frequency f and temperature T in Jy/sr"""
-	return  2*h*f**(3+beta)/c**2/(np.exp(h*f/(k*T))-1) * 1e26
+	return  2*h*(1.0*f)**(3+beta)/c**2/(np.exp(h*f/(k*T))-1) * 1e26
 
 def tsz_spectrum(f, T=T_cmb):
 	"""The increase in flux due to tsz in Jy/sr per unit of y. This is
@@ -2363,7 +2363,7 @@ def tsz_spectrum(f, T=T_cmb):
 	values of y, i.e. y << 1"""
 	x  = h*f/(k*T)
 	ex = np.exp(x)
-	return 2*h*f**3/c**2 * (x*ex)/(ex-1)**2 * (x*(ex+1)/(ex-1)-4) * 1e26
+	return 2*h*f*f*f/c**2 * (x*ex)/(ex-1)**2 * (x*(ex+1)/(ex-1)-4) * 1e26
 
 # Helper functions for conversion from peak amplitude in cmb maps to flux
 
-- 
2.43.0


From 3a2e80526aa9ac2a140c0a68c4d0c08573b1fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:34 +0000
Subject: [PATCH 191/203] fix: regularize_beam: don't modify the input, and
 handle lcut==nl

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e3d3a75..1954854 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1066,7 +1066,7 @@ def regularize_beam(beam, cutoff=1e-2, nl=None, normalize=False):
 	that the ratio of any pair of such regularized beams is
 	constant in the extrapolated region."""
 	beam  = np.asarray(beam)
-	if normalize: beam /= np.max(beam)
+	if normalize: beam = beam / np.max(beam)
 	# Get the length of the output beam, and the l to which both exist
 	if nl is None: nl = beam.shape[-1]
 	nl_both = min(nl, beam.shape[-1])
@@ -1077,7 +1077,7 @@ def regularize_beam(beam, cutoff=1e-2, nl=None, normalize=False):
 	above = beam > vcut
 	lcut  = np.argmin(above, -1)
 	if lcut == 0: lcut = np.array(above.shape[-1]-1)
-	if lcut > nl: return beam[:nl]
+	if lcut >= nl: return beam[:nl]
 	obeam = vcut * (l/lcut)**(2*np.log(cutoff))
 	# Get the mask for what we want to keep. This looks complicated, but that's
 	# just to support arbitrary-dimensionality (maybe that wasn't really necessary).
-- 
2.43.0


From 4d570601ba218edbe997e177b0570bfe4775c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:34 +0000
Subject: [PATCH 192/203] fix: disk_overlap_curved: keep the accurate flat
 result for small disks

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 1954854..e5ef293 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3705,7 +3705,7 @@ def disk_overlap_curved(d, R, tol_flat=1e-4, tol_tiny=1e-10):
 	d, R = np.broadcast_arrays(d, R)
 	null = (d >= 2*R)|(R==0)
 	flat = (R < tol_flat) & ~null
-	tiny = (d < tol_tiny) & ~null
+	tiny = (d < tol_tiny) & ~null & ~flat
 	main = ~flat & ~tiny & ~null
 	res  = np.zeros_like(d)
 	res[flat] = disk_overlap(d[flat],R[flat])
-- 
2.43.0


From 8ac0431fcbd5f5155069f399ff62f3d4e4667398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:34 +0000
Subject: [PATCH 193/203] fix: harm2profile_flat_2d: accept real harm, return
 the radii

---
 pixell/uharm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index df40586..1503523 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -248,13 +248,13 @@ def profile2harm_flat_2d(br, r, shape, wcs):
 def harm2profile_flat_2d(harm, r=None):
 	"""Inverse of profile2harm_flat_2d. harm should be an enmap.
 	r is [:] in radians."""
-	bmap = enmap.ifft(harm, normalize=False).real
+	bmap = enmap.ifft(harm+0j, normalize=False).real
 	bmap/= harm.pixsize() * harm.npix
 	cpix = np.array(harm.shape[-2:])//2-1
 	cpos = bmap.pix2sky(cpix)
 	bmap = enmap.shift(bmap, cpix, keepwcs=True)
 	wbr, wr = bmap.rbin(center=cpos)
-	if r is None: return wbr, r
+	if r is None: return wbr, wr
 	else:         return utils.interp(r, wr, wbr, right=0)
 
 def beam2res(br, r):
-- 
2.43.0


From f8f92951f3ae2da5a6282037571cba7e6ff1280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:50 +0000
Subject: [PATCH 194/203] fix: disk_overlap_curved: avoid catastrophic
 cancellation for nearby small disks

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e5ef293..91a4df0 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3715,7 +3715,7 @@ def disk_overlap_curved(d, R, tol_flat=1e-4, tol_tiny=1e-10):
 
 def _disk_overlap_curved_main(d, R):
 	sinR, cosR = np.sin(R), np.cos(R)
-	return 2*np.arccos((1-np.cos(d))/sinR**2-1)-4*cosR*np.arccos(cosR/sinR*np.tan(d/2))
+	return 4*np.arccos(np.sin(d/2)/sinR)-4*cosR*np.arccos(cosR/sinR*np.tan(d/2))
 
 def _disk_overlap_curved_tiny(d, R):
 	"""Curved sky disk overlap in limit of tiny separations.
-- 
2.43.0


From 27af05f7faa78dc64549032ed02a4b063d428559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:10 +0000
Subject: [PATCH 195/203] fix: enmap.to_healpix fails for maps with more than
 one component

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index e48c462..97e4647 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2578,7 +2578,7 @@ def to_healpix(imap, omap=None, nside=0, order=3, chunk=100000):
 	give higher speed."""
 	warnings.warn("enmap.to_healpix is deprecated. Reprojecting this way is error-prone due to the potential loss of information, and the (very small) loss of high-l power due to the use of spline interpolation. Use reproject.map2healpix instead. And read its docstring!")
 	import healpy
-	ip = utils.interpolator(imap, order=order)
+	ip = utils.interpolator(imap, npre=imap.ndim-2, order=order)
 	if omap is None:
 		# Generate an output map
 		if not nside:
-- 
2.43.0


From 6f06319c61037210caf3f04b26b40e7581b5ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:45 +0000
Subject: [PATCH 196/203] fix: gnomonic_pole_wcs swaps the reference pixel's
 axes

---
 pixell/reproject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 6973e6f..349643d 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -703,7 +703,7 @@ def gnomonic_pole_wcs(shape, res):
 	wcs.wcs.ctype = ['RA---TAN', 'DEC--TAN']
 	wcs.wcs.crval = [0., 0.]
 	wcs.wcs.cdelt[:] = np.rad2deg(res)
-	wcs.wcs.crpix = [Ny / 2. + 0.5, Nx / 2. + 0.5]
+	wcs.wcs.crpix = [Nx / 2. + 0.5, Ny / 2. + 0.5]
 	return wcs
 
 
-- 
2.43.0


From 3984843824b17def1e7867dd7924d0b2bc4818a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:45 +0000
Subject: [PATCH 197/203] fix: centered_map uses the number of components as a
 map dimension

---
 pixell/reproject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 349643d..2c89b6d 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -453,7 +453,7 @@ def centered_map(imap, res, box=None, pixbox=None, proj='car', rpix=None,
 		omap = imap
 	sshape, swcs = omap.shape, omap.wcs
 	# central pixel of source geometry
-	dec, ra = enmap.pix2sky(sshape, swcs, (sshape[0] / 2., sshape[1] / 2.))
+	dec, ra = enmap.pix2sky(sshape, swcs, (sshape[-2] / 2., sshape[-1] / 2.))
 	dims = enmap.extent(sshape, swcs)
 	dheight, dwidth = dims
 	if height is None:
-- 
2.43.0


From 8f63c7ea07dee841b61ba21769b99d838472fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 198/203] fix: centered_map's box gives a fractional pixel box

---
 pixell/reproject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 2c89b6d..0d37150 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -446,7 +446,7 @@ def centered_map(imap, res, box=None, pixbox=None, proj='car', rpix=None,
 	assert proj in ['car', 'cea']
 	# cut out a stamp assuming CAR ; TODO: generalize?
 	if box is not None:
-		pixbox = enmap.skybox2pixbox(imap.shape, imap.wcs, box)
+		pixbox = utils.nint(enmap.skybox2pixbox(imap.shape, imap.wcs, box, corner=True))
 	if pixbox is not None:
 		omap = enmap.extract_pixbox(imap, pixbox)
 	else:
-- 
2.43.0


From 94d9c31116c7b99cf161fdbefafb76588c304191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:12 +0000
Subject: [PATCH 199/203] fix: sim_srcs_dist_transform ignores smul

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 956e997..109045f 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -371,7 +371,7 @@ def sim_srcs_dist_transform(shape, wcs, srcs, beam, omap=None, dtype=None, nsigm
 		bad  = np.any(pixs <  -pmax, 0) | np.any(pixs > np.array(shape[-2:])[:,None]+pmax, 0)
 		amps, poss = amps[~bad], poss[~bad]
 	r, domains = enmap.distance_from(shape, wcs, poss.T[:2], domains=True, rmax=rmax)
-	bval = np.where(domains >= 0, np.interp(r, br, bv, right=0), 0)
+	bval = np.where(domains >= 0, np.interp(r, br, bv, right=0), 0)*smul
 	np.clip(domains, 0, amps.shape[0]-1, domains)
 	for i in range(ncomp):
 		op(omap[i], bval * amps[domains,i], omap[i])
-- 
2.43.0


From d40d54a3cf03873afc1998baadae904833021daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:12 +0000
Subject: [PATCH 200/203] fix: negative indices into multimap.maps

---
 pixell/multimap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index caf2282..ba737f2 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -53,12 +53,12 @@ class _map_view:
 	def __getitem__(self, sel):
 		sel1, sel2 = utils.split_slice(sel, [1,self.multimap.ndim+2-1])
 		if len(sel1) == 0: return self.multimap
-		i    = sel1[0]
+		i    = range(len(self))[sel1[0]]
 		return enmap.ndmap(self.multimap[...,self.offs[i]:self.offs[i+1]].reshape(self.multimap.pre + self.multimap.geometries[i].shape[-2:]), self.multimap.geometries[i].wcs)[sel2]
 	def __setitem__(self, sel, val):
 		sel1, sel2 = utils.split_slice(sel, [1,self.multimap.ndim+2-1])
 		if len(sel1) == 0: return self.multimap
-		i    = sel1[0]
+		i    = range(len(self))[sel1[0]]
 		# This assumes that the slicing and reshaping won't cause copies. This should be the case if
 		# self.multimap is contiguous. To be robust I should detect if a copy would be made, and fall back
 		# on something slower in that case
-- 
2.43.0


From dd8c27c57571a46dc44550fc7e472e47adda5aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:55 +0000
Subject: [PATCH 201/203] fix: lens_map_curved rotates components by their own
 spin

The rotation from the parallel transport was always applied to the last two
components with spin 2, whatever the spin argument said, so that scalars were
mixed and other spins were rotated wrongly or not at all.
---
 pixell/lensing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 8c678c7..163e7cb 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -225,7 +225,8 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 		cmb_obs[...,i1:i2,:] = curvedsky.alm2map_pos(cmb_alm, raw_pos[:2], spin=spin)
 		if raw_pos.shape[0] > 2 and np.any(raw_pos[2]):
 			if verbose: print("Rotating polarization")
-			cmb_obs[...,i1:i2,:] = enmap.rotate_pol(cmb_obs[...,i1:i2,:], raw_pos[2])
+			for s, c1, c2 in enmap.spin_helper(spin, shape[-3]):
+				if s != 0: cmb_obs[...,i1:i2,:] = enmap.rotate_pol(cmb_obs[...,i1:i2,:], raw_pos[2], spin=s, comps=[c1,c2-1])
 		del raw_pos
 
 	del cmb_alm, phi_alm
-- 
2.43.0


From aba89a9472d7c54dc72f4877b7ac575f4e9be24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:55 +0000
Subject: [PATCH 202/203] fix: CosineNeedlet: the last needlet is zero at its
 peak

This removed the power at lmax from the sum of the needlets.
---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 8610814..f6a87c8 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -147,7 +147,7 @@ class CosineNeedlet:
 		out = l*0.
 		if i>0:
 			lpeakim1 = self.lpeaks[i-1]
-			sel1 = np.logical_and(l>=lpeakim1,l<lpeaki)
+			sel1 = np.logical_and(l>=lpeakim1,l<=lpeaki)
 			out[sel1] = np.cos(np.pi*(lpeaki-l[sel1])/(lpeaki-lpeakim1)/2.)
 		if i<(self.n-1):
 			lpeakip1 = self.lpeaks[i+1]
-- 
2.43.0


From 057061d494fc501db4b0aff73c55ea9a36a3d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:27 +0000
Subject: [PATCH 203/203] fix: aberration of maps covering a part of the circle

The x coordinates were rewound by the width of the map instead of by the
circumference, which left positions a whole turn off for such maps.
---
 pixell/aberration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 2b7f0ff..d82fa78 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -132,8 +132,9 @@ class Aberrator:
 		# enmap.sky2pix, but that's slow. Much faster for our typical projections.
 		# Probably worth it to make overrides.
 		pix = sky2pix(shape, wcs, [odec, ora]).astype(coord_dtype, copy=False)
-		# Make the x pixel 0:nphi, assuming it's at most one period away
-		fast_rewind(pix[1].reshape(-1), rinfo.nphi[0])
+		# Make the x pixel at most half a turn away from the middle of the map. The map
+		# may cover only part of the circle, so this isn't the same as the period of the map
+		pix[1] = utils.rewind(pix[1], (shape[-1]-1)/2, abs(360/wcs.wcs.cdelt[0]))
 		del odec, ora
 		# 5. Evaluate the map at these locations using nufft
 		# Boundary condition
-- 
2.43.0

