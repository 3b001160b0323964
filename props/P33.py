import numpy as np, copy, io, contextlib, os
from harness.core import Prop, rng
from harness import geo
from pixell import enmap, utils, curvedsky, reproject, lensing, aberration, pointsrcs, coordinates, powspec, uharm, fft, wcsutils, wavelets, multimap, tilemap, interpol, array_ops, colorize, analysis, resample
prop = Prop("P33", assumptions=["functions with documented in-place or output arguments are called without them","each operation gets valid input for its documented use"])

# ---- Snapshots of everything an operation could touch ----
def wkey(w): q = w.wcs; return (tuple(q.ctype),tuple(q.crval),tuple(q.cdelt),tuple(q.crpix),tuple(q.get_pv()),w.naxis)
def snap(x):
	if isinstance(x,np.ndarray): return ("arr",type(x).__name__,x.dtype.str,x.shape,np.ascontiguousarray(x).tobytes(),wkey(x.wcs) if isinstance(x,enmap.ndmap) else None)
	if isinstance(x,(list,tuple)): return (type(x).__name__,)+tuple(snap(y) for y in x)
	if isinstance(x,dict): return ("dict",)+tuple((k,snap(x[k])) for k in sorted(x))
	if hasattr(x,"wcs") and hasattr(x,"wcs_pix2world"): return ("wcs",)+wkey(x)
	if isinstance(x,curvedsky.alm_info): return ("ainfo",x.lmax,x.mmax,x.stride,x.nelem,snap(x.mstart))
	return ("val",repr(x))
def same(a, b):
	if isinstance(a,np.ndarray) or np.isscalar(a):
		a, b = np.asarray(a), np.asarray(b)
		if a.shape != b.shape or a.dtype != b.dtype: return False
		if a.tobytes() == b.tobytes(): return True
		if a.dtype.kind not in "fc" or a.size == 0: return False
		single = np.zeros(1,a.dtype).real.dtype.itemsize<8; scale = np.max(np.abs(a[np.isfinite(a)]),initial=0); return np.allclose(a,b,rtol=1e-4 if single else 1e-9,atol=(1e-5 if single else 1e-10)*scale,equal_nan=True)
	if isinstance(a,(list,tuple)): return len(a)==len(b) and all(same(x,y) for x,y in zip(a,b))
	if isinstance(a,dict): return sorted(a)==sorted(b) and all(same(a[k],b[k]) for k in a)
	return snap(a)==snap(b)
def lay(a, kind):
	if kind == "f": return np.asfortranarray(a)
	if kind == "sub":
		b = np.zeros(tuple(2*n for n in a.shape),a.dtype); v = b[tuple(slice(None,None,2) for _ in a.shape)]; v[...] = a; return v
	if kind == "rev": return np.ascontiguousarray(a[...,::-1])[...,::-1]
	return np.ascontiguousarray(a)
def deep(E):
	return {k:cp(v) for k,v in E.items()}
def cp(v):
	if isinstance(v,enmap.ndmap): return enmap.ndmap(np.array(v),v.wcs.deepcopy())
	if isinstance(v,np.ndarray): return v.copy()
	if isinstance(v,list): return [cp(x) for x in v]
	if isinstance(v,tuple): return tuple(cp(x) for x in v)
	if isinstance(v,dict): return {k:cp(x) for k,x in v.items()}
	return copy.deepcopy(v)

# ---- Environments: a set of consistent inputs ----
def env_flat(c, r):
	ny, nx = c["n"]; w = geo.make_wcs("CAR",[0 if c["k"]%2 else 30.,0],[-.5,.5],[(nx+1)/2,(ny+1)/2-c["dec"]/.5]) if c["proj"]=="car" else geo.make_wcs("TAN",[30,c["dec"]],[-.5,.5],[(nx+1)/2,(ny+1)/2]); dt = c["dtype"]; mk = lambda *p: enmap.ndmap(lay(r.standard_normal(p+(ny,nx)).astype(dt),c["lay"]),w)
	E = {"m":mk(),"m2":mk(2),"m3":mk(3),"ang":mk()*.1,"wcs":w,"mask":enmap.ndmap(lay(r.uniform(size=(ny,nx))<.7,c["lay"]),w),"shape":(ny,nx)}
	E["nan"] = E["m"].copy(); E["nan"][0,0] = np.nan; E["nan"][-1,1] = np.inf; E["mask"][0,0] = True; E["mask"][1,1] = False
	E["harm"] = enmap.ndmap(lay((r.standard_normal((3,ny,nx))+1j*r.standard_normal((3,ny,nx))).astype(np.result_type(dt,0j)),c["lay"]),w); E["lab"] = enmap.ndmap(lay((r.uniform(size=(ny,nx))<.2).astype(np.int32)*r.integers(1,4,(ny,nx)).astype(np.int32),c["lay"]),w); E["lab"][1,1] = 1
	E["pos"] = np.array(geo.ref_pix2sky(w,r.uniform(1,ny-2,5),r.uniform(1,nx-2,5))); E["pix"] = np.array([r.uniform(0,ny-1,5),r.uniform(0,nx-1,5)]); lo = geo.ref_pix2sky(w,1,1); hi = geo.ref_pix2sky(w,ny-3,nx-3); E["box"] = np.array([[lo[0],lo[1]],[hi[0],hi[1]]]); E["pixbox"] = np.array([[1,1],[ny-2,nx-2]]); E["owcs"] = geo.make_wcs("CAR",[30 if c["proj"]!="car" or c["k"]%2==0 else 0,0],[-.6,.6],[(nx+1)/2,(ny+1)/2-c["dec"]/.6]); E["ps"] = np.abs(r.standard_normal(3000))+.1; E["cov"] = np.array([np.diag([1,.5,.2]) for _ in range(3000)]).T.copy()*E["ps"]; E["off"] = np.array([1.5,-.5]); E["psn"] = E["ps"].copy(); E["psn"][0] = np.nan; E["spin"] = [0,2]; E["tot"] = np.array([3,4]); E["small"] = enmap.ndmap(r.standard_normal((3,4)).astype(dt),wcsutils_slice(w,2,3)); E["fac"] = np.array([2,2]); E["cmat"] = enmap.ndmap(lay(np.einsum("abyx,cbyx->acyx",*[r.standard_normal((2,2,ny,nx))]*2)+2*np.eye(2)[:,:,None,None],c["lay"]),w)
	return E
def wcsutils_slice(w, y, x): w = w.deepcopy(); w.wcs.crpix = [w.wcs.crpix[0]-x,w.wcs.crpix[1]-y]; return w
def gp(E, lo=-.01, hi=.01): return enmap.ndmap(np.array([E["ang"]*.02,E["ang"][::-1]*.02]),E["wcs"])
G = lambda E: (E["shape"],E["wcs"])
FLAT = {
 "copy":lambda E: E["m3"].copy(),"enmap":lambda E: enmap.enmap(E["m3"]),"submap":lambda E: E["m3"].submap(E["box"]),"submap_inc":lambda E: enmap.submap(E["m"],E["box"],mode="inclusive"),"subinds":lambda E: enmap.subinds(*G(E),E["box"]),"subgeo":lambda E: enmap.subgeo(*G(E),E["box"]),"slice_geometry":lambda E: enmap.slice_geometry(*G(E),(slice(1,None,2),slice(None,None,-1))),"getitem":lambda E: np.array(E["m3"][1:,::2,::-1]),"scale_geometry":lambda E: enmap.scale_geometry(*G(E),E["fac"]),
 "geometry":lambda E: enmap.geometry(E["box"],res=.01),"geometry2":lambda E: enmap.geometry2(E["pos"][:,0],res=np.pi/180,shape=(5,6)),"corners":lambda E: enmap.corners(*G(E)),"box":lambda E: enmap.box(*G(E)),"posmap":lambda E: E["m"].posmap(),"pixmap":lambda E: E["m"].pixmap(),"posaxes":lambda E: enmap.posaxes(*G(E)) if wcsutils.is_separable(E["wcs"]) else 0,"pix2sky":lambda E: E["m"].pix2sky(E["pix"]),"pix2sky_u":lambda E: E["m"].pix2sky(E["pix"],safe=False),"sky2pix":lambda E: E["m"].sky2pix(E["pos"]),"sky2pix_u":lambda E: E["m"].sky2pix(E["pos"],safe=False,corner=True),"l2pix":lambda E: E["m"].l2pix(E["pix"]*100),"pix2l":lambda E: E["m"].pix2l(E["pix"]),"skybox2pixbox":lambda E: enmap.skybox2pixbox(*G(E),E["box"]),"skybox2pixbox_d":lambda E: enmap.skybox2pixbox(*G(E),E["box"],include_direction=True,corner=True),"pixbox2skybox":lambda E: enmap.pixbox2skybox(*G(E),E["pixbox"]),"contains":lambda E: E["m"].contains(E["pos"]),"contains_pix":lambda E: E["m"].contains(E["pix"],unit="pix"),
 "project":lambda E: E["m3"].project(E["shape"],E["owcs"]),"project1":lambda E: enmap.project(E["m"],E["shape"],E["owcs"],order=1,border="nearest"),"pixbox_of":lambda E: E["m"].pixbox_of(E["shape"],E["wcs"]),"extract":lambda E: E["m3"].extract(*E["small"].geometry),"extract_pixbox":lambda E: E["m"].extract_pixbox(E["pixbox"]),"map_union":lambda E: enmap.map_union(E["m"],E["small"]),"overlap":lambda E: enmap.overlap(*G(E),*E["small"].geometry),"neighborhood_pixboxes":lambda E: enmap.neighborhood_pixboxes(*G(E),E["pos"].T,.01),"at":lambda E: E["m3"].at(E["pos"]),"at1":lambda E: E["m"].at(E["pos"],order=1),"at0":lambda E: E["m"].at(E["pix"],order=0,unit="pix"),"at_f":lambda E: E["m"].at(E["pos"],mode="fourier"),"argmax":lambda E: E["m"].argmax(),"argmin":lambda E: enmap.argmin(E["m"]),"insert":lambda E: E["m"].copy().insert(E["small"]),
 "rand_map":lambda E: enmap.rand_map((3,)+E["shape"],E["wcs"],E["cov"],seed=1),"rand_map_1":lambda E: enmap.rand_map(E["shape"],E["wcs"],E["ps"],seed=1),"massage":lambda E: enmap.massage_spectrum(E["ps"],E["shape"]),"extent":lambda E: E["m"].extent(),"area":lambda E: E["m"].area(),"pixsizemap":lambda E: E["m"].pixsizemap(),"pixshapemap":lambda E: E["m"].pixshapemap(),"lmap":lambda E: E["m"].lmap(),"modlmap":lambda E: E["m"].modlmap(),"modrmap":lambda E: E["m"].modrmap(),"modrmap_ref":lambda E: E["m"].modrmap(E["pos"][:,0]),"laxes":lambda E: E["m"].laxes(),"lrmap":lambda E: enmap.lrmap(*G(E)),
 "fft":lambda E: enmap.fft(E["m3"]),"fft_p":lambda E: enmap.fft(E["m3"],normalize="phys"),"ifft":lambda E: enmap.ifft(E["harm"]),"dct":lambda E: enmap.dct(E["m"]),"idct":lambda E: enmap.idct(E["m"]),"fft_adjoint":lambda E: enmap.fft_adjoint(E["harm"]),"ifft_adjoint":lambda E: enmap.ifft_adjoint(E["harm"]),"idct_adjoint":lambda E: enmap.idct_adjoint(E["m"]),"dct_adjoint":lambda E: enmap.dct_adjoint(E["m"]),"map2harm":lambda E: enmap.map2harm(E["m3"],spin=E["spin"]),"map2harm_2":lambda E: enmap.map2harm(E["m2"],spin=2,iau=True,normalize="phys"),"harm2map":lambda E: enmap.harm2map(E["harm"],spin=E["spin"]),"harm2map_i":lambda E: enmap.harm2map(E["harm"],keep_imag=True),"map2harm_adjoint":lambda E: enmap.map2harm_adjoint(E["harm"]),"harm2map_adjoint":lambda E: enmap.harm2map_adjoint(E["m3"]),"queb_rotmat":lambda E: enmap.queb_rotmat(E["m"].lmap()),"rotate_pol":lambda E: enmap.rotate_pol(E["m3"],E["ang"]),"rotate_pol0":lambda E: enmap.rotate_pol(E["m2"],.3),"map_mul":lambda E: enmap.map_mul(E["cmat"],E["m2"]),"smooth_gauss":lambda E: enmap.smooth_gauss(E["m3"],.01),"inpaint":lambda E: enmap.inpaint(E["m"],E["mask"]),"apply_window":lambda E: enmap.apply_window(E["m3"]),"unapply_window":lambda E: enmap.unapply_window(E["m"],order=1),"apply_window_nofft":lambda E: enmap.apply_window(E["harm"],nofft=True),"calc_window":lambda E: enmap.calc_window(E["shape"]),
 "spec2flat":lambda E: enmap.spec2flat(*G(E),E["cov"]),"spec2flat_e":lambda E: enmap.spec2flat(*G(E),E["ps"],exp=.5),"spec2flat_corr":lambda E: enmap.spec2flat_corr(*G(E),E["ps"]),"spec2flat_corr_nan":lambda E: enmap.spec2flat_corr(*G(E),E["psn"]),"spec2flat_nan":lambda E: enmap.spec2flat(*G(E),E["psn"]),"smooth_spectrum":lambda E: enmap.smooth_spectrum(E["ps"][:200]),"calc_ps2d":lambda E: enmap.calc_ps2d(E["harm"]),"calc_ps2d_2":lambda E: enmap.calc_ps2d(E["harm"],E["harm"]*2),"multi_pow":lambda E: enmap.multi_pow(E["cmat"],.5),"downgrade":lambda E: E["m3"].downgrade(2),"downgrade_op":lambda E: enmap.downgrade(E["m"],E["fac"],op=np.sum,inclusive=True),"downgrade_fft":lambda E: enmap.downgrade_fft(E["m"],2),"upgrade_fft":lambda E: enmap.upgrade_fft(E["m"],2),"upgrade":lambda E: E["m3"].upgrade(2),"downgrade_geometry":lambda E: enmap.downgrade_geometry(*G(E),2),"upgrade_geometry":lambda E: enmap.upgrade_geometry(*G(E),2),"crop_geometry":lambda E: enmap.crop_geometry(*G(E),pixbox=E["pixbox"]),"crop_geometry_b":lambda E: enmap.crop_geometry(*G(E),box=E["box"]),
 "distance_transform":lambda E: E["mask"].distance_transform(),"distance_transform_r":lambda E: enmap.distance_transform(E["mask"],rmax=.02),"ldt":lambda E: E["lab"].labeled_distance_transform(),"ldt_r":lambda E: enmap.labeled_distance_transform(E["lab"],rmax=.02),"distance_from":lambda E: E["m"].distance_from(E["pos"],domains=True),"distance_from_s":lambda E: E["m"].distance_from(E["pos"],method="simple"),"grow_mask":lambda E: enmap.grow_mask(E["mask"],.01),"shrink_mask":lambda E: enmap.shrink_mask(E["mask"],.01),"pad":lambda E: enmap.pad(E["m3"],2),"pad_w":lambda E: enmap.pad(E["m"],E["fac"],wrap=True),"pad_s":lambda E: enmap.pad(E["m"],[[1,2],[0,3]],return_slice=True)[0],"autocrop":lambda E: enmap.autocrop(E["m"],value=0),"padcrop":lambda E: enmap.padcrop(*enmap.autocrop(E["m3"],method="fft",return_info=True)),"find_blank_edges":lambda E: enmap.find_blank_edges(E["m"],value=0),"grad":lambda E: enmap.grad(E["m"]),"grad_pix":lambda E: enmap.grad_pix(E["m"]),"div":lambda E: enmap.div(E["m2"]),"laplace":lambda E: enmap.laplace(E["m"]),"apod":lambda E: E["m3"].apod(2),"apod_fill":lambda E: enmap.apod(E["m"],E["fac"],fill="mean"),"apod_mask":lambda E: enmap.apod_mask(E["mask"],.03),"lform":lambda E: E["m"].lform(),"lwcs":lambda E: enmap.lwcs(*G(E)),"rbin":lambda E: E["m3"].rbin(E["pos"][:,0]),"lbin":lambda E: E["m"].lbin(),"radial_average":lambda E: enmap.radial_average(E["m"],E["pos"][:,0]),"padslice":lambda E: E["m"].padslice([[-1,-2],[3,4]]),"tile_maps":lambda E: enmap.tile_maps([[E["m"],E["m"]],[E["m"],E["m"]]]),"stamps":lambda E: E["m3"].stamps(E["pixbox"],E["tot"]),"shift":lambda E: enmap.shift(E["m3"],[1,-2]),"shift_k":lambda E: enmap.shift(E["m"],[1,2],keepwcs=True),"fractional_shift":lambda E: enmap.fractional_shift(E["m"],E["off"]),"fftshift":lambda E: enmap.fftshift(E["m3"]),"ifftshift":lambda E: enmap.ifftshift(E["m"]),"fillbad":lambda E: E["nan"].fillbad(),"fillbad_v":lambda E: enmap.fillbad(E["nan"],3.),"resample":lambda E: E["m"].resample((9,8)),"resample_s":lambda E: E["m3"].resample((9,8),method="spline"),"resample_fft":lambda E: enmap.resample_fft(E["harm"],(9,8)),"padtiles":lambda E: [np.array(t) for (t,) in enmap.padtiles(E["m"],tshape=4,pad=1,margin=1)],"union_geometry":lambda E: enmap.union_geometry([G(E),E["small"].geometry]),"recenter_geo":lambda E: enmap.recenter_geo(*G(E)),"spin_helper":lambda E: list(enmap.spin_helper(E["spin"],3)),"center":lambda E: E["m"].center(),"thumbnail_geometry":lambda E: enmap.thumbnail_geometry(r=.02,res=.005),"fix_endian":lambda E: enmap.fix_endian(E["m3"]),"samewcs":lambda E: enmap.samewcs(np.zeros(3),E["m"]),
 "arith":lambda E: (E["m3"]*E["m"]+1)/2-E["m3"]**2,"mean":lambda E: np.mean(E["m3"],0),"write":None,
 "lens_map":lambda E: lensing.lens_map(E["m3"],gp(E)),"delens_map":lambda E: lensing.delens_map(E["m"],gp(E)),"delens_grad":lambda E: lensing.delens_grad(gp(E)),"displace_map":lambda E: lensing.displace_map(E["m3"],E["m"].pixmap()+.1),"lens_map_flat":lambda E: lensing.lens_map_flat(E["m3"],E["m"]*1e-4),
 "utils_interpol":lambda E: utils.interpol(E["m3"],E["pix"]),"utils_ip_pre":lambda E: utils.interpol(E["m"],E["pix"],order=3,mode="spline",border="nearest"),"moveaxis":lambda E: utils.moveaxis(E["m3"],0,2),"uht":lambda E: uharm.UHT(*G(E),mode="flat").harm2map(uharm.UHT(*G(E),mode="flat").map2harm(E["m"])),"uht_hmul":lambda E: uharm.UHT(*G(E),mode="flat").hmul(np.ones(E["shape"])*2,E["harm"]),"uht_rpow":lambda E: uharm.UHT(*G(E),mode="flat").hprof_rpow(np.exp(-enmap.modlmap(*G(E))*1e-3),2),"wavelet":lambda E: np.array(wavelets.WaveletTransform(uharm.UHT(*G(E),mode="flat")).map2wave(E["m"])),"haar":lambda E: [np.array(x) for x in wavelets.HaarTransform(1).map2wave(E["m"]).maps],"multimap":lambda E: np.array(multimap.multimap([E["m"],E["small"]])),"multimap_fft":lambda E: np.array(multimap.fft(multimap.multimap([E["m"],E["small"]]))),"find_contours":lambda E: array_ops.find_contours(E["m"].astype(np.float64),np.array([-.5,.5])),"colorize":lambda E: colorize.colorize(E["m"]),"matched":lambda E: analysis.matched_filter_constcov(E["m"],np.exp(-enmap.modlmap(*G(E))*1e-3),enmap.modlmap(*G(E))*0+2.,uharm.UHT(*G(E),mode="flat")),"thumbs":lambda E: reproject.thumbnails(E["m"],E["pos"][:,:2].T,r=.03,res=.01,apod=.01),"radial_bin":lambda E: pointsrcs.radial_bin(E["m"].astype(np.float32),E["pos"][:,:2],np.linspace(0,.02,3)),"sim_objects":lambda E: pointsrcs.sim_objects(*G(E),E["pos"],np.ones(5),[np.linspace(0,.05,20),np.linspace(1,0,20)]),"sim_srcs":lambda E: pointsrcs.sim_srcs(*G(E),np.array([E["pos"][0],E["pos"][1],np.ones(5)]).T,.01),"write_map":None,"gal":lambda E: enmap.rotate_pol(E["m3"],E["ang"].astype(np.float64)),
}
FLAT = {k:v for k,v in FLAT.items() if v is not None}

def env_sph(c, r):
	N = 2*int(r.integers(4,7)); dt = c["dtype"]; w = geo.make_wcs("CAR",[0,0],[-180/N,180/N],[N+.5,(N+1)/2]); sh = (N,2*N); lmax = N//2+1; ai = curvedsky.alm_info(lmax=lmax); cdt = np.result_type(dt,0j); mk = lambda *p: enmap.ndmap(lay(r.standard_normal(p+sh).astype(dt),c["lay"]),w); ma = lambda *p: lay(ralm(r,lmax,p).astype(cdt),c["lay"])
	E = {"m":mk(),"m3":mk(3),"m2":mk(2),"alm":ma(),"alm3":ma(3),"wcs":w,"shape":sh,"ai":ai,"lf":np.abs(r.standard_normal(lmax+1))+.5,"pos":np.array([r.uniform(-1.4,1.4,6),r.uniform(-3,3,6)]),"spin":[0,2],"heal":lay(r.standard_normal((3,12*4*4)).astype(dt),c["lay"] if c["lay"]!="rev" else "c"),"hmask":np.ascontiguousarray(r.uniform(size=12*64)<.8),"ps":np.array([np.eye(3)*(l+1.)**-2 for l in range(lmax+1)]).T.copy(),"ps1":np.abs(r.standard_normal(lmax+1)),"br":np.exp(-np.linspace(0,3,40)**2),"r":np.linspace(0,3,40)*np.pi/3,"eul":[.3,.4,.5],"pw":geo.make_wcs("CAR",[10,0],[-5,5],[5.5,4.5]),"psh":(8,10),"dir":[.3,.4]}
	E["hlab"] = r.integers(0,3,12*64).astype(np.int32)*(r.uniform(size=12*64)<.3); E["hlab"][0] = 1; E["hlab"][1] = 2; E["hmask"][0] = True; E["phi"] = ma()*1e-3; E["pm"] = enmap.ndmap(lay(r.standard_normal((3,8,10)).astype(dt),c["lay"]),E["pw"])
	E["psl"] = np.array([np.eye(4)*(l+1.)**-2*1e-3 for l in range(lmax+1)]).T.copy()
	return E
def ralm(r, lmax, p):
	n = (lmax+1)*(lmax+2)//2; a = r.standard_normal(p+(n,))+1j*r.standard_normal(p+(n,)); a[...,:lmax+1] = a[...,:lmax+1].real; return a
Z = lambda E, *p: enmap.zeros(p+E["shape"],E["wcs"],E["m"].dtype)
CS = curvedsky
SPH = {
 "map2alm":lambda E: CS.map2alm(E["m3"],ainfo=E["ai"],spin=E["spin"]),"map2alm_n":lambda E: CS.map2alm(E["m"],ainfo=E["ai"],niter=2),"map2alm_cyl":lambda E: CS.map2alm(E["m3"],lmax=4,method="cyl"),"map2alm_general":lambda E: CS.map2alm(E["m"],lmax=4,method="general"),"alm2map":lambda E: CS.alm2map(E["alm3"],Z(E,3),ainfo=E["ai"],spin=E["spin"]),"alm2map_cyl":lambda E: CS.alm2map(E["alm"],Z(E),method="cyl"),"alm2map_gen":lambda E: CS.alm2map(E["alm"],Z(E),method="general"),"alm2map_deriv":lambda E: CS.alm2map(E["alm"],Z(E,2),deriv=True),"alm2map_copy":lambda E: CS.alm2map(E["alm3"],E["m3"],copy=True),"map2alm_copy":lambda E: CS.map2alm(E["m3"],alm=E["alm3"],copy=True),"alm2map_adjoint":lambda E: CS.alm2map_adjoint(E["m3"],ainfo=E["ai"]),"map2alm_adjoint":lambda E: CS.map2alm_adjoint(E["alm3"],Z(E,3)),"alm2map_pos":lambda E: CS.alm2map_pos(E["alm3"],E["pos"]),"alm2map_part":lambda E: CS.alm2map(E["alm"],enmap.zeros(E["psh"],E["pw"],E["m"].dtype)),"map2alm_part":lambda E: CS.map2alm(E["pm"],lmax=4),"alm2map_healpix":lambda E: CS.alm2map_healpix(E["alm3"],nside=4),"map2alm_healpix":lambda E: CS.map2alm_healpix(E["heal"],lmax=5,niter=1),"quad_weights":lambda E: CS.quad_weights(*G(E)),"profile2harm":lambda E: CS.profile2harm(E["br"],E["r"],lmax=8),"harm2profile":lambda E: CS.harm2profile(E["lf"],E["r"]),"prof2alm":lambda E: CS.prof2alm(E["br"]),"almxfl":lambda E: CS.almxfl(E["alm3"],E["lf"]),"almxfl_ai":lambda E: CS.almxfl(E["alm"],E["lf"],ainfo=E["ai"]),"filter":lambda E: CS.filter(E["m"],E["lf"],lmax=len(E["lf"])-1),"alm2cl":lambda E: CS.alm2cl(E["alm3"]),"alm2cl2":lambda E: CS.alm2cl(E["alm3"][:,None],E["alm3"][None]),"rotate_alm":lambda E: CS.rotate_alm(E["alm"],.1,.2,.3),"transfer_alm":lambda E: CS.transfer_alm(E["ai"],E["alm3"],CS.alm_info(lmax=3)),"lmul":lambda E: E["ai"].lmul(E["alm3"],E["lf"]),"rand_alm":lambda E: CS.rand_alm(E["ps"],seed=1),"rand_map":lambda E: CS.rand_map((3,)+E["shape"],E["wcs"],E["ps"],seed=2),"rand_alm_hp":lambda E: CS.rand_alm_healpy(E["ps"],seed=1),"prepare_ps":lambda E: CS.prepare_ps(E["ps"])[0],"pad_spectrum":lambda E: CS.pad_spectrum(E["ps"],len(E["ps1"])+3),"lm2ind":lambda E: E["ai"].lm2ind(np.array([1,2]),np.array([0,1])),
 "rotate_map":lambda E: reproject.map2healpix(E["m3"],nside=4,lmax=5,rot="gal,equ",spin=E["spin"]),"map2healpix_sp":lambda E: reproject.map2healpix(E["m3"],nside=4,method="spline",order=1),"map2healpix_x":lambda E: reproject.map2healpix(E["m"],nside=4,method="spline",extensive=True,rot=E["eul"]),"healpix2map":lambda E: reproject.healpix2map(E["heal"],*G(E),lmax=5,rot="gal,equ"),"healpix2map_sp":lambda E: reproject.healpix2map(E["heal"],*G(E),method="spline"),"inv_euler":lambda E: reproject.inv_euler(E["eul"]),"boost":lambda E: aberration.boost_map(E["m3"],dir=E["dir"],beta=.01,spin=E["spin"]),"deboost":lambda E: aberration.deboost_map(E["m"],dir=E["dir"],beta=.01),"aberrate":lambda E: aberration.aberrate_map(E["m3"],dir=E["dir"],beta=.01),"modulate":lambda E: aberration.modulate_map(E["m3"],dir=E["dir"],beta=.01),"modulate_plain":lambda E: aberration.modulate_map(E["m"],dir=E["dir"],beta=.01,modulation="plain"),"phi_to_kappa":lambda E: lensing.phi_to_kappa(E["phi"]),"kappa_to_phi":lambda E: lensing.kappa_to_phi(E["phi"]),"lens_map_curved":lambda E: lensing.lens_map_curved((3,)+E["shape"],E["wcs"],E["phi"].astype(np.complex128),E["alm3"].astype(np.complex128)),"lens_rand_alm":lambda E: lensing.rand_alm(E["psl"],seed=1)[:2],"lens_rand_map":lambda E: lensing.rand_map((3,)+E["shape"],E["wcs"],E["psl"],seed=1),"offset_by_grad":lambda E: lensing.offset_by_grad(E["pos"],E["pos"]*1e-3),"pole_wrap":lambda E: lensing.pole_wrap(E["pos"]*2),"dt_healpix":lambda E: enmap.distance_transform_healpix(E["hmask"]),"ldt_healpix":lambda E: enmap.labeled_distance_transform_healpix(E["hlab"]),"dfrom_healpix":lambda E: enmap.distance_from_healpix(4,E["pos"]),"to_healpix":lambda E: enmap.to_healpix(E["m"],nside=4),"wave_curved":lambda E: np.array(wavelets.WaveletTransform(uharm.UHT(*G(E),mode="curved"),basis=wavelets.ButterTrim(lmin=2,lmax=6)).map2wave(E["m"])),"uht_curved":lambda E: uharm.UHT(*G(E),mode="curved",lmax=5).map2harm(E["m3"]),"uht_hmul":lambda E: uharm.UHT(*G(E),mode="curved",lmax=len(E["lf"])-1).hmul(E["lf"],E["alm3"]),"spec2corr":lambda E: powspec.spec2corr(E["ps"],E["r"]),"flip":lambda E: CS.flip_array(E["m"],[True,False]),"filter3":lambda E: CS.filter(E["m3"],E["lf"],lmax=len(E["lf"])-1),
}
def env_arr(c, r):
	n = int(r.integers(6,14)); L = lambda a: lay(a,c["lay"]); dt = c["dtype"]; A = r.standard_normal((n,4,4)); E = {"a":L(r.standard_normal(n).astype(dt)),"b":L(r.standard_normal((3,n)).astype(dt)),"s":np.sort(r.standard_normal(n)),"ang":L(r.uniform(-9,9,n)),"ang2":L(np.array([r.uniform(-1.4,1.4,n),r.uniform(-9,9,n)])),"i":r.integers(0,5,n),"mat":L(A@np.swapaxes(A,1,2)+np.eye(4)),"box":np.array([[-.2,3.],[.3,-2.9]]),"boxes":np.array([[[-.2,3.],[.3,2.5]],[[0.,1.],[.2,1.4]]]),"rng1":np.array([[0,3],[5,9],[8,12]]),"rng2":np.array([[2,6],[11,13]]),"rad":L(np.array([r.uniform(-3,3,n),r.uniform(-1.4,1.4,n)])),"mask":r.uniform(size=n)<.5,"w":r.uniform(.1,2,n),"guess":L(r.standard_normal(n).astype(dt)),"c":L((r.standard_normal(n)+1j*r.standard_normal(n))),"wr":np.array([[350.,20.,-30.],[10.,380.,400.]]),"eul":np.array([.1,.2,.3]),"t":np.array([55000.,55001.5]),"beam":np.array([np.linspace(0,.02,50),np.exp(-.5*(np.linspace(0,.02,50)/.005)**2)]),"strs":["ab","cde"],"ps":np.array([np.eye(3)*(l+1.)**-2 for l in range(12)]).T.copy(),"srcs":np.array([r.uniform(-.1,.1,8),r.uniform(-.1,.1,8),np.ones(8)]).T,"nan":np.where(r.uniform(size=n)<.3,np.nan,r.standard_normal(n)),"f":np.array([30e9,150e9,280e9]),"vec":L(r.standard_normal((3,n)))}
	return E
U = utils; C = coordinates
ARR = {
 "unwind":lambda E: U.unwind(E["ang"]),"unwind_r":lambda E: U.unwind(E["ang"],ref=1,refmode="middle"),"rewind":lambda E: U.rewind(E["ang"]),"rewind_a":lambda E: U.rewind(E["ang"],ref="auto"),"unwrap_range":lambda E: U.unwrap_range(E["wr"],360),"sum_wrap":lambda E: U.ang2rect(E["ang2"]),"rect2ang":lambda E: U.rect2ang(E["vec"]),"angdist":lambda E: U.angdist(E["ang2"],E["ang2"][:,:1]),"vec_angdist":lambda E: U.vec_angdist(E["vec"],E["vec"][:,:1]),"rotmatrix":lambda E: U.rotmatrix(E["ang"],"z"),"label_unique":lambda E: U.label_unique(E["i"]),"find":lambda E: U.find(E["i"],E["i"][:3]),"contains":lambda E: U.contains(E["i"],E["i"][:2]),"cumsum":lambda E: U.cumsum(E["a"]),"mask2range":lambda E: U.mask2range(E["mask"]),"range_union":lambda E: U.range_union(E["rng1"]),"range_sub":lambda E: U.range_sub(E["rng1"],E["rng2"]),"range_normalize":lambda E: U.range_normalize(E["rng1"]),"range_cut":lambda E: U.range_cut(E["rng1"],E["rng2"]),"eigpow":lambda E: U.eigpow(E["mat"],-.5),"ata_solve":lambda E: np.linalg.inv(E["mat"]),"bin_multi":lambda E: U.bin_multi([E["i"]],[5],E["w"]),"interp":lambda E: U.interp(E["s"],E["s"],E["a"].astype(float)),"interpol":lambda E: U.interpol(E["b"],E["w"][None]),"medmean":lambda E: U.medmean(E["b"],axis=-1),"weighted_median":lambda E: U.weighted_median(E["a"],E["w"]),"weighted_quantile":lambda E: U.weighted_quantile(E["a"],E["w"],.3),"deslope":lambda E: U.deslope(E["b"]),"without_nan":lambda E: U.without_nan(E["nan"]),"widen_box":lambda E: U.widen_box(E["box"],.1),"pad_box":lambda E: U.pad_box(E["box"],.1),"bounding_box":lambda E: U.bounding_box(E["boxes"]),"box_slice":lambda E: U.box_overlap(E["boxes"][0],E["boxes"][1]),"box_area":lambda E: U.box_area(E["box"]),"unwrap_box":lambda E: U.box2corners(E["box"]),"rescale":lambda E: U.rescale(E["a"]),"allreduce":lambda E: U.vec2tuple if False else 0,"pixwin":lambda E: U.pixwin_1d(E["w"]),"airy":lambda E: U.airy(E["w"]),"planck":lambda E: U.planck(E["f"]),"dplanck":lambda E: U.dplanck(E["f"]),"graybody":lambda E: U.graybody(E["f"]),"tsz":lambda E: U.tsz_spectrum(E["f"]),"rotate_euler":lambda E: C.transform_euler(E["eul"],E["rad"]),"cel2gal":lambda E: C.transform("cel","gal",E["rad"]),"cel2gal_pol":lambda E: C.transform("equ","gal",E["rad"],pol=True),"cel2ecl":lambda E: C.transform("equ","ecl",E["rad"],pol=True,mag=True),"recenter":lambda E: C.recenter(E["rad"],[.1,.2]),"decenter":lambda E: C.decenter(E["rad"],[.1,.2]),"recenter4":lambda E: C.recenter(E["rad"],[.1,.2,.3,.4]),"tele2bore":lambda E: C.tele2bore(E["rad"],[.1,.2]),"bore2tele":lambda E: C.bore2tele(E["rad"],[.1,.2]),"euler_mat":lambda E: C.euler_mat(E["eul"]),"euler_rot":lambda E: C.euler_rot(E["eul"],E["rad"]),"fft":lambda E: fft.fft(E["b"]),"rfft":lambda E: fft.rfft(E["b"]),"ifft":lambda E: fft.ifft(E["c"],normalize=True),"irfft":lambda E: fft.irfft(E["c"]),"dct":lambda E: fft.dct(E["b"]),"idct":lambda E: fft.idct(E["b"]),"chebt":lambda E: fft.chebt(E["a"]),"ichebt":lambda E: fft.ichebt(E["a"]),"fshift":lambda E: fft.shift(E["b"],1.5),"fresample":lambda E: fft.resample(E["b"],7),"interpol_nufft":lambda E: fft.interpol_nufft(E["b"].astype(float),E["w"][None]),"u2nu":lambda E: fft.u2nu(E["c"],E["w"][None]),"sym_compress":lambda E: powspec.sym_compress(E["ps"]),"sym_expand":lambda E: powspec.sym_expand(powspec.sym_compress(E["ps"])),"scale_spectrum":lambda E: powspec.scale_spectrum(E["ps"],1),"expand_beam":lambda E: pointsrcs.expand_beam(E["beam"]),"crossmatch":lambda E: pointsrcs.crossmatch(E["srcs"],E["srcs"]+1e-5,tol=.01),"U_crossmatch":lambda E: U.crossmatch(E["srcs"][:,:2],E["srcs"][:,:2]+1e-5,.001),"resample":lambda E: resample.resample(E["b"],[.5]),"resample_bin":lambda E: resample.resample(E["b"],[2],method="bin"),"down_bin":lambda E: resample.downsample_bin(E["b"],[2]),"compress_beam":lambda E: U.compress_beam([.01,.02],.3),"beam_area":lambda E: U.calc_beam_area(E["beam"]),"cov2corr":lambda E: U.cov2corr(E["mat"][0]),"solve":lambda E: U.solve(E["mat"],E["mat"][:,:,0]),"moveaxes":lambda E: U.moveaxes(E["mat"],(0,),(2,)),"partial_flatten":lambda E: U.partial_flatten(E["mat"],[-1],0),"block_reduce":lambda E: U.block_reduce(E["b"],2),"block_expand":lambda E: U.block_expand(U.block_reduce(E["b"],2,inclusive=True),2,E["b"].shape[-1],inclusive=True),"gaps":lambda E: U.ctime2mjd(E["t"]),"mjd2ctime":lambda E: U.mjd2ctime(E["t"]),"mjd2djd":lambda E: U.mjd2djd(E["t"]),"parse":lambda E: U.common_vals([E["i"],E["i"][::2]]),"common_inds":lambda E: U.common_inds([E["i"],E["i"][::2]]),"find_equal_groups":lambda E: U.find_equal_groups(E["i"]),"argmax":lambda E: U.argmax(E["b"]),"minmax":lambda E: U.minmax(E["b"]),"point_in_polygon":lambda E: U.point_in_polygon(np.array(E["a"]),np.array([[0,0],[0,1],[1,1.]])) if False else 0,"cart2pol":lambda E: U.pol2cart(E["ang"]) if False else 0,"ubash":lambda E: U.uniq if False else 0,"hist":lambda E: U.bincount(E["i"],E["w"]) if hasattr(U,"bincount") else 0,"transpose_inds":lambda E: U.transpose_inds(E["i"],2,3),"cluster":lambda E: U.equal_split(E["w"],3),"greedy":lambda E: U.greedy_split(list(E["w"]),3),"triangle":lambda E: U.triangle_wave(E["a"]),"legendre":lambda E: U.build_legendre(E["w"],3),"cossin":lambda E: U.build_cossin(E["w"],3),"primes":lambda E: U.primes(30),"map_tighten":lambda E: U.flatview(E["b"].copy()).__enter__(),"addaxes":lambda E: U.addaxes(E["b"],[0]),"tofinite":lambda E: U.tofinite(E["nan"]),"floor":lambda E: U.floor(E["a"]*3),"nint":lambda E: U.nint(E["a"]*3),"merge_close":lambda E: U.dedup(E["i"]),"rmask":lambda E: U.unmask(E["a"][E["mask"]],E["mask"]) if hasattr(U,"unmask") else 0,"regularize_beam":lambda E: U.regularize_beam(np.exp(-np.arange(200)/20.)),"outer_stack":lambda E: U.outer_stack([E["a"],E["w"]]),"polevl":lambda E: np.polyval(E["a"],E["w"]),"fit":lambda E: U.interpol(E["c"],E["w"][None],order=1),"ip":lambda E: interpol.build(lambda x: np.sin(x),interpol.ip_linear,[[0.],[1.]],1e-2)(E["w"][None]*.4),"matmul":lambda E: array_ops.matmul(E["mat"].astype(np.float64),E["mat"][:,:,0].astype(np.float64)),"roll_rows":lambda E: array_ops.roll_rows(E["b"].astype(np.float64),np.array([1,2,3])),"a2r":lambda E: array_ops.ang2rect(np.ascontiguousarray(E["ang2"].T)),
}
def solve(cls, E, n, **kw):
	D = np.asarray(E["w"]).astype(np.asarray(E["a"]).dtype)
	S = cls(lambda x: D*x,E["a"],**kw)
	for i in range(n): S.step()
	return S.x.copy()
ARR.update({
 "cg":lambda E: solve(U.CG,E,2),"cg_x0":lambda E: solve(U.CG,E,2,x0=E["guess"]),"cg_pre":lambda E: solve(U.CG,E,2,x0=E["guess"],M=lambda x: x*2),"minres":lambda E: solve(U.Minres,E,2),"minres_x0":lambda E: solve(U.Minres,E,2,x0=E["guess"]),
})
DROP = ("sum_wrap_","allreduce","point_in_polygon","cart2pol","ubash")
ARR = {k:v for k,v in ARR.items() if k not in DROP}
def quiet(f, *a):
	with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"): return f(*a)
def run(c, t, env, ops):
	"""A history of operations on the same inputs: after each one the inputs must be untouched, and each result must equal that on fresh inputs"""
	r = rng(c); E = env(c,r); ref = snap(E); t.mark_trivial(len(c["ops"])<2); results = []
	for name in c["ops"]:
		res = quiet(ops[name],E); now = snap(E)
		if now != ref: bad = [k for k in E if snap(E[k])!=snap_of(ref,k)]; t.fail("%s modified its input %s" % (name,",".join(bad)))
		if name not in VIEWS: t.true(not any(a.size and b.size and np.may_share_memory(a,b) for a in arrays_in(res) for v in E.values() for b in arrays_in(v)),name+" returned a view of its input instead of a new array")
		results.append(cp(res) if not hasattr(res,"__next__") else None); t.label(name)
	# Same calls again, on the inputs already used and on pristine copies in reverse order
	F = deep(E)
	for name, old in list(zip(c["ops"],results))[::-1]:
		t.true(same(cp(quiet(ops[name],E)),old),name+": second call on the same input gives another result"); t.true(same(cp(quiet(ops[name],F)),old),name+": result depends on earlier calls or the memory layout of the input")
VIEWS = {"addaxes","autocrop","expand_beam","fix_endian","flip","massage","moveaxes","moveaxis","partial_flatten","prepare_ps","submap","submap_inc","getitem","extract","extract_pixbox","samewcs","padcrop","padslice","map_tighten","mean","prepare_ps","transfer_alm","pad_spectrum"}
def arrays_in(x):
	if isinstance(x,np.ndarray): yield x
	elif isinstance(x,(list,tuple)):
		for y in x: yield from arrays_in(y)
	elif isinstance(x,dict):
		for y in x.values(): yield from arrays_in(y)
def snap_of(ref, k):
	for q in ref[1:]:
		if q[0] == k: return q[1]

def gen_common(d, ops, nmax): return {"ops":d.list(lambda: d.choice(sorted(ops)),1,nmax),"lay":d.choice(["c","c","f","sub","rev"]),"dtype":d.choice(["f8","f8","f4"]),"seed":d.seed()}
def gen_flat(d): return dict(gen_common(d,FLAT,6),n=[d.int(7,12),d.int(7,12)],dec=d.choice([0.,5.,-20.]),k=d.int(0,1),proj=d.choice(["car","car","tan"]))
def gen_sph(d): return gen_common(d,SPH,5)
def gen_arr(d): return gen_common(d,ARR,8)
@prop.law(gen_flat, quick=160, rule="several operations")
def flat(c, t):
	"""Operations on maps of a patch of sky"""
	run(c,t,env_flat,FLAT)
@prop.law(gen_sph, quick=80, rule="several operations")
def sphere(c, t):
	"""Operations on full-sky maps, spherical harmonics and healpix maps"""
	run(c,t,env_sph,SPH)
@prop.law(gen_arr, quick=120, rule="several operations")
def arrays(c, t):
	"""Array, coordinate, Fourier and spectrum helpers"""
	run(c,t,env_arr,ARR)

ALL = {"flat":(env_flat,FLAT),"sphere":(env_sph,SPH),"arrays":(env_arr,ARR)}
def gen_sweep(d):
	which = d.choice(["flat","sphere","arrays"]); return {"which":which,"block":d.int(0,7),"lay":d.choice(["c","f","sub","rev"]),"dtype":d.choice(["f8","f4"]),"n":[d.int(7,12),d.int(7,12)],"dec":d.choice([0.,5.,-20.]),"k":d.int(0,1),"proj":d.choice(["car","car","tan"]),"seed":d.seed()}
@prop.law(gen_sweep, quick=100, rule="always")
def sweep(c, t):
	"""Sweeps over all operations, an eighth of them at a time in random order, on the same inputs"""
	env, ops = ALL[c["which"]]; names = sorted(ops)[c["block"]::8]; o = rng(c,1).permutation(len(names)); run(dict(c,ops=[names[i] for i in o]),t,env,ops)
