"""The methods of maps and geometries are the functions of the same names: calling a method with some options
equals calling the function with the same options. Each property has the methods of its own functions."""
import numpy as np, inspect
from harness.core import rng
from harness import geo
from pixell import enmap
def positions(m, r, n=(5,)):
	pix = r.uniform(-.4,.9,(2,)+n)*np.array(m.shape[-2:]).reshape((2,)+(1,)*len(n)); return np.array(enmap.pix2sky(m.shape,m.wcs,pix))
def pixels(m, r): return r.uniform(-3,12,(2,4))
def subbox(m, r):
	ny, nx = m.shape[-2:]; y1, x1 = r.integers(0,ny-1), r.integers(0,nx-1); y2, x2 = r.integers(y1+1,ny+1), r.integers(x1+1,nx+1); return np.array([[y1,x1],[y2,x2]])
def skybox(m, r): return np.asarray(enmap.pixbox2skybox(m.shape,m.wcs,subbox(m,r)-.5+r.uniform(-.3,.3,(2,2))))
def other(m, r): b = subbox(m,r)+r.integers(-2,3); return np.sort(b,0)
def patch(m, r, full=False): b = subbox(m,r); return enmap.ndmap(np.round(r.normal(size=(m.shape[:-2])+tuple(b[1]-b[0])),2),enmap.slice_geometry(m.shape[-2:],m.wcs,(slice(b[0,0],b[1,0]),slice(b[0,1],b[1,1])))[1])
add = lambda a, b: a+b
B = [True,False]
def geoof(k): return lambda m, r: {"shape":k.shape,"wcs":k.wcs}
def pair(m, r): p = patch(m,r); return (p.shape,p.wcs)
# name -> (what the function wants, required arguments in order, options)
TABLE = {
 "P02":{"sky2pix":("g",[positions],{"safe":B,"corner":B}),"pix2sky":("g",[pixels],{"safe":B,"corner":B}),"contains":("g",[positions],{}),"corners":("g",[],{"npoint":[2,5,10],"corner":B}),"box":("g",[],{"npoint":[2,5,10],"corner":B}),
	"posmap":("g",[],{"safe":B,"corner":B,"separable":["auto",False],"dtype":[np.float64,np.float32]}),"posaxes":("g",[],{"safe":B,"corner":B,"dtype":[np.float64,np.float32]}),"pixmap":("g",[],{}),"center":("g",[],{}),"modrmap":("g",[],{"ref":["center",(.3,.2)],"safe":B,"corner":B})},
 "P04":{"area":("g",[],{}),"pixsize":("g",[],{}),"pixshape":("g",[],{"signed":B}),"pixsizemap":("g",[],{"separable":["auto",False],"broadcastable":B}),"pixshapemap":("g",[],{"separable":["auto",False],"signed":B}),"extent":("g",[],{"method":["auto","intermediate","subgrid"],"signed":B})},
 "P05":{"extract":("m",[pair],{"wrap":["auto",[0,0],[7,9]],"op":[add,np.maximum],"cval":[0,2.5]}),"extract_pixbox":("m",[other],{"wrap":["auto",[0,0]],"op":[add,np.maximum],"cval":[0,2.5]}),"insert":("i",[patch],{"wrap":["auto",[0,0]],"op":[add,np.maximum],"cval":[0,2.5]}),"insert_at":("i",[other,None],{"wrap":["auto",[0,0]],"op":[add,np.maximum],"cval":[0,2.5]}),"autocrop":("m",[],{"method":["plain","fft"],"value":["auto","none",0],"margin":[0,1,3],"factors":[[2],[2,3]]}),"stamps":("m",[lambda m,r: positions(m,r,(3,)).T,lambda m, r: (3,4)],{"aslist":[False]}),"padslice":("m",[other],{"default":[0,2.5]}),"submap":("m",[skybox],{"mode":["round","floor","ceil","inclusive","exclusive",None],"wrap":["auto",[0,0]],"recenter":B}),"subinds":("g",[skybox],{"mode":["round","floor","ceil","inclusive","exclusive",None],"cap":B})},
 "P06":{"write":("w",[],{"fmt":["fits","hdf"]})},
 "P07":{"l2pix":("g",[pixels],{}),"pix2l":("g",[pixels],{}),"laxes":("g",[],{"oversample":[1,2],"method":["auto","intermediate"],"broadcastable":B}),"lmap":("g",[],{"oversample":[1,2]}),"modlmap":("g",[],{"oversample":[1,2],"min":[0,50]}),"lform":("m",[],{"method":["auto","intermediate"]}),"lpixsize":("g",[],{"signed":B,"method":["auto","intermediate"]}),"lpixshape":("g",[],{"signed":B,"method":["auto","intermediate"]})},
 "P08":{"resample":("m",[lambda m,r: tuple(int(x) for x in r.integers(4,16,2))],{"off":[(0,0),(.3,-.7)],"method":["fft","spline"],"border":["wrap","constant"],"corner":B,"order":[1,3]})},
 "P10":{"downgrade":("m",[lambda m, r: tuple(int(x) for x in r.integers(1,4,2))],{"op":[np.sum,np.max],"off":[(0,1)],"ref":[(.1,.2)]}),"upgrade":("m",[lambda m, r: tuple(int(x) for x in r.integers(1,4,2))],{})},
 "P11":{"project":("m",[pair],{"mode":["spline"],"order":[0,1,3],"border":["constant","nearest"],"cval":[0,2.5],"safe":B}),"at":("m",[positions],{"mode":["spline","fourier"],"order":[0,1,3],"border":["constant","nearest"],"cval":[0.,2.5],"unit":["coord","pix"],"safe":B}),"argmax":("m",[],{"unit":["coord","pix"]}),"fillbad":("m",[],{"val":[0,-1.5]})},
 "P12":{"lbin":("m",[],{"brel":[1.,1.7],"return_nhit":B,"return_bins":B,"lop":[np.abs]}),"rbin":("m",[],{"center":[[0,0],[.2,.3]],"brel":[1.,1.7],"return_nhit":B,"return_bins":B,"rop":[np.sqrt]})},
 "P13":{"apod":("m",[lambda m, r: [int(x) for x in r.integers(0,3,2)]],{"profile":["cos","lin"],"fill":["zero","mean","median","crossfade"]}),"distance_from":("g",[lambda m, r: positions(m,r,(3,))],{"domains":B,"method":["cellgrid","simple","bubble"],"rmax":[None,.01],"step":[2,1024]}),"distance_transform":("k",[],{"rmax":[None,.01],"method":["cellgrid","simple","bubble"]}),"labeled_distance_transform":("l",[],{"rmax":[None,.01],"method":["cellgrid","simple","bubble"]})},
 "P28":{"to_healpix":("m",[],{"!nside":[1,2,4],"order":[0,1],"chunk":[5,1000]})},
}
def gen(d):
	g = d.choice([geo.gen_cyl(d,6,12,projs=("car","cea"),maxdec=70,res=(.1,2)),geo.gen_zen(d,6,12,projs=("tan","zea"),maxrad=12)]); g["crval"][1] = 0.0 if g["kind"]=="cyl" else d.float(-50,50,2)
	return {"geo":g,"pre":geo.gen_pre(d,1,3),"opt":d.choice([0.3,.6,1]),"seed":d.seed()}
def flat(x):
	"""Everything in a result, in order"""
	if isinstance(x,(tuple,list)): return sum([flat(y) for y in x],[])
	if isinstance(x,enmap.ndmap): return [np.asarray(x),x.wcs.to_header_string(relax=True),np.array(x.wcs.wcs.crpix)]
	if isinstance(x,slice): return [str(x)]
	if hasattr(x,"to_header_string"): return [x.to_header_string(relax=True)]
	return [np.asarray(x)]
def same(a, b):
	a, b = flat(a), flat(b)
	return len(a)==len(b) and all((x==y) if isinstance(x,str) or isinstance(y,str) else x.shape==y.shape and x.dtype==y.dtype and np.array_equal(x,y,equal_nan=x.dtype.kind in "fc") for x, y in zip(a,b))
def run(f):
	"""The result, or what kind of error there was"""
	try: return f(), None
	except Exception as e: return None, type(e).__name__+": "+str(e)
def add_law(prop, quick=60):
	table = TABLE[prop.id]
	@prop.law(gen, quick=quick, rule="every generated case")
	def methods(c, t):
		"""Methods of maps equal the functions of the same name, for any options, and so do those of Geometry"""
		r = rng(c); shape, wcs = geo.build(c["geo"]); full = tuple(c["pre"])+shape; v = np.round(r.normal(size=full),3)
		for name, (kind, req, opts) in sorted(table.items()):
			m = enmap.ndmap(v.copy(),wcs); u = np.asarray(m)
			if name == "autocrop": u[...,:r.integers(0,3),:] = 0; u[...,:,:r.integers(0,3)] = 0
			elif name == "fillbad": u[...,r.uniform(size=shape)<.3] = [np.nan,np.inf,-np.inf][r.integers(3)]
			elif kind == "k": m = enmap.ndmap(r.uniform(size=shape)<.7,wcs); u = np.asarray(m); u[1,2] = False
			elif kind == "l": m = enmap.ndmap(np.maximum(r.integers(-9,4,shape),0),wcs); u = np.asarray(m); u[1,2] = 1; u[3,1] = 2
			args = [f(m,r) if f else patch(m,r) for f in req]; kw = {k.strip("!"):o[r.integers(len(o))] for k, o in opts.items() if r.uniform()<c["opt"] or k[0]=="!"}
			if name == "insert_at": args[0] = args[0][0]
			if name == "downgrade" and "off" in kw: kw.pop("ref",None)
			if args and isinstance(args[0],tuple) and len(args[0])==2 and hasattr(args[0][1],"wcs"): args = list(args[0])+args[1:]
			fun = getattr(enmap,{"write":"write_map"}.get(name,name)); m1, m2 = m.copy(), m.copy()
			if kind == "w":
				ext = kw.get("fmt","fits"); a, b = t.tmpdir+"/a."+ext, t.tmpdir+"/b."+ext; m1.write(a,**kw); fun(b,m2,**kw); t.true(same(enmap.read_map(a),enmap.read_map(b)) and np.array_equal(enmap.read_map(a),m),"ndmap.write(%s)" % kw); continue
			A = run(lambda: getattr(m1,name)(*args,**kw)); B_ = run(lambda: fun(m2.shape,m2.wcs,*args,**kw) if kind=="g" else fun(m2,*args,**kw))
			t.true(A[1]==B_[1] and same(A[0],B_[0]) and same(m1,m2),"map method %s(%s) gives %s, the function %s" % (name,kw,A[1] or "something else",B_[1] or "a result"))
			if kind == "g" and hasattr(enmap.Geometry,name): t.true(same(getattr(enmap.Geometry(full,wcs),name)(*args,**kw),B_[0]),"method %s(%s) of a Geometry" % (name,kw))
	return methods
