"""Writes /verif/properties.jsonl. Keeping the list as python makes it easy to edit."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe_at=None):
	assert len(title) <= 80, (id, len(title))
	a = {"files":files, "mechanism":[{"name":mechanism, "where":", ".join(files)}]}
	if observe_at: a["observe_at"] = observe_at
	P.append({"id":id, "title":title, "statement":statement, "quantifier":{"over":[over] if isinstance(over,str) else over,"text":text}, "why_tests_cant":why, "anchors":a})

p("P01", "Slicing or copying a map keeps data and sky coordinates in step",
 "Indexing a map (any slices with any start, stop and step sign, integers and ellipses, also in the leading axes), and slicing its geometry, select exactly the elements numpy would, and the result's wcs gives pixel k of a slice with step s the sky position of input pixel coordinate start+k*s+(s-sign(s))/2 (for unit steps: exactly the position that pixel had before). Slicing twice equals slicing once with the composed selection. Arithmetic, ufuncs, reductions over leading axes, copies, pickling and the map constructors keep the data and the wcs.",
 "inputs", "all geometries (projections, signs of cdelt, offsets), map shapes and index expressions", "the tests look at a few fixed slices of one map; the rules for negative steps, out-of-range bounds and sub-sampling must hold for every selection",
 ["pixell/enmap.py"], "ndmap.__getitem__, slice_geometry, Geometry.__getitem__, __array_wrap__, __reduce__/__setstate__, enmap.enmap, samewcs")
p("P02", "Pixel and sky coordinates are inverse, consistent maps of each other",
 "pix2sky gives the dec,ra the wcs standard assigns to a pixel (in radians, modulo 2pi), sky2pix is its inverse, and posmap, posaxes, pixmap, pixbox2skybox, skybox2pixbox, corners, box, center and contains agree with them, for both the pixel-centre and the corner convention. With safe=True the returned ra is continuous over the map and sky2pix returns the pixel copy closest to the map, so shifting the input by whole turns changes nothing.",
 "inputs", "all geometries, positions (also far outside the map and several turns away) and dtypes", "wrapping bugs only show up for particular combinations of crval, crpix, sign and position",
 ["pixell/enmap.py","pixell/wcsutils.py"], "pix2sky, sky2pix, posmap, posaxes, pixmap, skybox2pixbox, pixbox2skybox, corners, box, center, contains, wcsutils.nobcheck/is_separable/is_cyl")
p("P03", "Constructed geometries cover what was asked for at the asked resolution",
 "geometry, fullsky_geometry, band_geometry, thumbnail_geometry and geometry2 return a pixelization with the requested shape or resolution whose pixels cover the requested box, declination band or radius in the requested orientation; the full sky is covered exactly once and the cc and fejer1 variants place their rows (poles) as quadrature requires. union_geometry, recenter_geo, crop_geometry, subgeo, scale_geometry and pixel-compatible geometries built with a common ref share one pixel grid.",
 "inputs", "all boxes, resolutions, shapes, projections and variants", "off-by-half-pixel and rounding errors depend on the ratio of box and resolution",
 ["pixell/enmap.py","pixell/wcsutils.py"], "geometry, geometry2, fullsky_geometry, band_geometry, thumbnail_geometry, union_geometry, crop_geometry, recenter_geo, scale_geometry, subgeo")
p("P04", "Pixel areas and shapes are exact and add up to the area of the map",
 "Pixel-size maps give every pixel its solid angle and pixel-shape maps its physical height and width; on cylindrical geometries they agree with each other, sum to the area of the map (4 pi for the full sky), and do not depend on the separability, broadcasting or block-size options. Average pixel size, pixel shape, extent and area are consistent with them and with the great-circle geometry.",
 "inputs", "all geometries and option combinations", "areas at the poles and in non-separable projections are only right if every row is",
 ["pixell/enmap.py"], "area*, extent*, pixsizemap, pixshapemap, pixshapes_cyl, pixsize, pixshape, pixshapebounds")
p("P05", "Cutting out and inserting patches moves pixels to where they are on the sky",
 "Extracting, sub-mapping, inserting (also with a combining operator), padding, stamping, shifting, tiling with padding and stacking of patches place every input pixel at the output pixel with the same sky position and fill the rest with the fill value, and on geometries that go around the sky they wrap correctly for any offset. Reverse extraction is the exact transpose of extraction. Cropping blank edges removes exactly the blank rows and columns, and neighbourhood boxes contain exactly the pixels within the given distance.",
 "inputs", "all pairs of pixel-compatible geometries and pixel boxes, inside, outside, overlapping or several turns away", "only special alignments of patch and wrapping edge reach the second copy of a wrapped patch",
 ["pixell/enmap.py","pixell/utils.py"], "extract, extract_pixbox, insert, insert_at, submap, subinds, overlap, pad, padslice, stamps, map_union, utils.sbox_wrap/sbox_intersect")
p("P06", "Maps survive a round trip through FITS and HDF files, also when read partly",
 "write_map followed by read_map returns the same values, dtype, shape and sky positions, for FITS and HDF, and read_map_geometry and read_map_dtype report the same without reading the data. Reading with sel, box, pixbox or geometry, or through a delayed proxy, equals reading everything and applying the same operation in memory, including the IAU/COSMO polarization sign flip.",
 "histories", "all maps, geometries, dtypes, file formats and sub-selections written and then read", "a handful of written files cannot settle what every dtype, geometry and selection gives",
 ["pixell/enmap.py"], "write_map, read_map, read_map_geometry, read_map_dtype, write/read_fits, write/read_hdf, ndmap_proxy_*, read_helper, get_stokes_flips")
p("P07", "Flat-sky Fourier transforms are exact inverses, unitary and adjoint pairs",
 "Forward followed by backward Fourier, cosine and E/B harmonic transforms of maps returns the map for every shape, dtype, normalization and spin; the Fourier transform equals the discrete Fourier sum and its E/B rotation, scaled as the normalization options document, and the adjoint functions are the adjoints (for cosine transforms with respect to the end-weighted inner product). The multipole functions (l maps and axes, pixel to l and back) give the multipole vector of each Fourier pixel.",
 "inputs", "all map shapes (odd, even, 1), dtypes, geometries, component and spin combinations", "parity and normalization errors appear only for some shapes and component layouts",
 ["pixell/enmap.py","pixell/fft.py"], "fft, ifft, dct, idct, map2harm, harm2map and adjoints, queb_rotmat, rotate_pol, lmap, laxes, modlmap, pix2l, l2pix")
p("P08", "Fourier-space operators act on plane waves as their transfer function says",
 "Gradient, divergence, laplacian, Gaussian smoothing, pixel-window application and removal, shifts (integer and fractional) and Fourier resampling are linear and multiply each plane wave by the analytic factor while preserving its sky position. Fourier resampling to more pixels and back, for content below the Nyquist frequency of both grids, returns the map, with the geometry and the values scaled consistently.",
 "inputs", "all plane waves, random maps, shapes and offsets", "each operator must be right for every mode, including sign conventions and the Nyquist modes of even shapes",
 ["pixell/enmap.py","pixell/resample.py"], "grad, grad_pix, div, laplace, smooth_gauss, calc_window, apply_window, shift, fractional_shift, resample, resample_fft")
p("P09", "The fft module computes the transforms it names with every engine",
 "fft, ifft, rfft, irfft, dct, idct, dst, idst, redft00 and chebt/ichebt equal their defining sums over any axes for every engine and thread count, with the documented normalization and input preserved; shift, resample_fft and fft_len do what they document. The non-uniform transforms nufft/u2nu/nu2u/iu2nu/inu2u and their plans equal direct summation and are adjoint or inverse pairs.",
 "inputs", "all shapes, axes, dtypes, engines, types and non-uniform points", "the engines use different code paths and layouts that agree only if all handle every axis combination",
 ["pixell/fft.py"], "fft, ifft, rfft, irfft, dct, idct, dst, idst, redft00, chebt, shift, resample_fft, fft_len, nufft, u2nu, nu2u, iu2nu, inu2u, interpol_nufft")
p("P10", "Downgrading and upgrading aggregate the right pixels at the right place",
 "Downgrading replaces each block of pixels by the operator of that block and gives the result the geometry of the blocks, upgrading is its right inverse, and offset, reference geometry and inclusive options shift the blocks consistently between map, geometry and inverse. The array versions (block reduction, expansion and mean filtering, binned down- and up-sampling) equal the naive block loop.",
 "inputs", "all shapes, factors, offsets, ops and dtypes, including blocks that do not divide the map", "partial blocks and offsets have many cases",
 ["pixell/enmap.py","pixell/utils.py","pixell/resample.py"], "downgrade, upgrade, get_downgrade_offset, downgrade_geometry, upgrade_geometry, utils.block_reduce/block_expand/block_mean_filter, resample.*_bin")
p("P11", "Interpolating a map reproduces it at pixel centres and respects its borders",
 "Interpolating a map at sky or pixel positions, projecting it onto another geometry, and the underlying array interpolation (spline orders 0 to 5, Fourier, and one-dimensional) return the map's own values at pixel centres, reproduce polynomials up to the order's degree away from borders, follow the border rule outside, treat components independently, and are linear in the map. Order 0 picks the closest pixel, and projecting onto a slice of the same geometry returns that slice. Maximum and minimum locations point at the extreme pixel.",
 "inputs", "all maps, positions, modes, orders, borders and component shapes", "border handling is decided by positions within a fraction of a pixel from the edges",
 ["pixell/enmap.py","pixell/utils.py","pixell/fft.py"], "at, project, utils.interpol, utils.interpolator, SplineInterpolator, FourierInterpolator")
p("P12", "Binned spectra and profiles conserve counts and average the right pixels",
 "Radial and multipole binning of maps and of spectra (including weighted, multi-component, logarithmic and user-given bins) average exactly the pixels whose r or l falls in each bin and count every pixel in range exactly once; two-dimensional cross-spectra are the products of the Fourier coefficients. Spectrum smoothing and evaluation of a spectrum on a flat map, with and without the patch correction, reproduce their definitions.",
 "inputs", "all maps, bin sizes and operator choices", "bin-edge membership must be right for every pixel",
 ["pixell/enmap.py","pixell/utils.py"], "lbin, rbin, _bin_helper, calc_ps2d, spec2flat, massage_spectrum, multi_pow, utils.bin_data/linbin/expbin")
p("P13", "Distance transforms give true great-circle distances and nearest-point domains",
 "Distances from points, mask distance transforms and labelled distance transforms (maps and healpix, any metric step and method) return for every pixel the great-circle distance to the point or mask pixel they report as the closest, which is the true closest exactly for the exhaustive method and to about a pixel for the propagating methods, with rmax only capping the result. Growing, shrinking and apodizing a mask, map-edge apodization and inpainting follow from those distances.",
 "inputs", "all geometries including full-sky wrapping and poles, point sets, masks and methods", "the fast algorithms propagate along paths that fail only for particular point configurations",
 ["pixell/enmap.py","cython/distances.pyx","cython/distances_core.c"], "distance_from*, distance_transform*, labeled_distance_transform*, grow_mask, shrink_mask, apod_mask; distances_core.c")
p("P14", "Spherical harmonic synthesis evaluates the spherical harmonic sum on every map",
 "Spherical harmonic synthesis evaluates the sum of a_lm times the spin spherical harmonics at the sky position of each pixel for every supported geometry, spin, healpix map and list of positions, whichever method is used, so flips and shifts of the geometry just move the pixels, and its derivative option gives the gradient. The result is linear in the coefficients and independent of thread count, dtype precision, coefficient layout and lmax padding (lmax at least the spin).",
 "inputs", "all alms, lmax, mmax, spins, component layouts, geometries and methods", "correctness at every ring, flip, offset and spin is far beyond a few reference maps",
 ["pixell/curvedsky.py"], "alm2map, alm2map_2d, alm2map_cyl, alm2map_general, alm2map_pos, alm2map_healpix, analyse_geometry, minfo helpers")
p("P15", "Harmonic analysis inverts synthesis and the adjoints are true adjoints",
 "Harmonic analysis of the synthesis of a band-limited signal returns its coefficients on every full-sky geometry that resolves them, quadrature weights integrate band-limited functions exactly, and iterations improve the result where they are not exact. The adjoint of synthesis and the adjoint of analysis satisfy the inner-product identity for every geometry, spin and method, healpix included. Analysis of a cut-out equals analysis of the zero-padded full sky.",
 "inputs", "all geometries, spins, lmax and methods", "the inner-product identity must hold for all pairs",
 ["pixell/curvedsky.py"], "map2alm, map2alm_*, alm2map_adjoint, map2alm_adjoint, quad_weights, map2alm_raw_*, jacobi iterations")
p("P16", "Operations on alms act on every (l,m) coefficient exactly once",
 "The coefficient index arithmetic, multiplication of coefficients by spectra and by matrices, cross spectra, transposition between l-major and m-major order, transfer between layouts (with a combining operator), rotation, and isotropic filtering of maps equal the plain loop over l and m for every lmax and mmax. The cross spectrum is the average of a1*conj(a2) over m, rotation preserves power and moves positions by the rotation, and profile to harmonic and back are inverse transforms up to discretization. In-place and out-of-place variants agree.",
 "inputs", "all lmax, mmax, layouts, dtypes and component shapes", "index arithmetic has corner cases at l=0, m=mmax and lmax mismatch",
 ["pixell/curvedsky.py","cython/cmisc.pyx","cython/cmisc_core.c"], "alm_info.*, alm2cl, almxfl, filter, transfer_alm, transpose_alm, rotate_alm, profile2harm, harm2profile")
p("P17", "Random fields are reproducible and have the requested covariance",
 "Random fields (spherical coefficients, curved and flat maps, white noise) are a deterministic function of seed and arguments, independent of call history, and their coefficients are real where they must be and Gaussian with the requested cross-component covariance. For scalar spectra, draws with a larger lmax extend those with a smaller one.",
 "histories", "all spectra, component counts, lmax, seeds and call sequences", "covariance and seed handling need many draws and call orders",
 ["pixell/curvedsky.py","pixell/enmap.py"], "rand_alm, rand_alm_white, rand_alm_healpy, rand_map, enmap.rand_map, rand_gauss_harm, rand_gauss_iso_harm")
p("P18", "Slice, box and range algebra agrees with element-by-element evaluation",
 "The slice-box functions (intersection, division, multiplication, flipping, wrapping, size), range functions (from masks, union, subtraction, cutting, normalization), slice helpers and box functions (overlap, widening, padding, bounding, area) give what plain indexing of the same elements gives. Redistributing arrays by slice boxes and the gather, reduce and send helpers give every rank of any communicator exactly the elements it asked for.",
 "inputs", "all integer boxes, strides (of both signs), ranges, masks and slices", "sign and step combinations multiply",
 ["pixell/utils.py"], "sbox_*, *range*, expand_slice, split_slice, slice_downgrade, parse_slice, box_*, bounding_box")
p("P19", "Angle and sphere helpers respect the geometry of the sphere",
 "Conversions between angles and vectors, rotation matrices, Euler rotations, angular distances, and recentring are inverse and distance-preserving; rewinding, unwinding and pole wrapping change angles only by their documented equivalences; conversions between coordinate systems round-trip and agree with astropy, including polarization rotation angles. Cross-matching finds exactly the pairs closer than the radius, and point-in-polygon tests and polygon distances agree with the geometry. Telescope and boresight coordinate conversions are inverse rotations.",
 "inputs", "all directions including poles and the antipode, angles many turns away, and coordinate systems", "poles and branch cuts are measure-zero special cases",
 ["pixell/utils.py","pixell/coordinates.py"], "ang2rect, rect2ang, angdist, vec_angdist, rotmatrix, rewind, unwind, pole_wrap, crossmatch, coordinates.transform/recenter/decenter/euler_rot/transform_euler")
p("P20", "Matrix powers, solvers and conditional distributions satisfy their equations",
 "Matrix powers over any axes, solving of stacked systems, conditional distributions, correlation normalization, per-component powers and beam compression satisfy their defining matrix identities for every axis position and component count, singular matrices included. The conjugate gradient and minres solvers converge to the solution of the system with a decreasing error, and can be saved and resumed at any step without changing the result.",
 "histories", "all matrices (including singular ones where allowed), axes, and solver step/save/load histories", "linear-algebra identities must hold for all inputs and resume points",
 ["pixell/utils.py"], "eigpow, solve, build_conditional, CG, Minres, rotate helpers, ubash, partial_flatten")
p("P21", "Tiled maps behave as the dense map made of their active tiles",
 "Building a tile map from a map and back returns the map; arithmetic, ufuncs, insertion, change of active tiles, copies and matrix products on tile maps equal the same operation on the dense map with missing tiles counted as zero, whatever tiles are active. Writing gives a file that reads as the dense map, and reduction and redistribution over any number of ranks give every rank the sum of, or its share of, the tiles.",
 "histories", "all tilings, active-tile subsets, dtypes, operators and rank layouts", "tiles at the edge, empty tiles and mismatched active sets are combinatorial",
 ["pixell/tilemap.py"], "TileMap, geometry, TileGeometry, insert, map_mul, reduce, redistribute, write_map, read_map, make_binop")
p("P22", "A multimap behaves as the list of its maps",
 "Every multimap operation (construction, arithmetic, indexing of leading axes, reductions, coordinates, harmonic transforms, files) equals applying the operation to each member map separately. The flat storage and the member views always show the same data.",
 "histories", "all lists of geometries, leading dimensions, dtypes and operation sequences", "offset arithmetic must be right for every list of shapes",
 ["pixell/multimap.py"], "ndmaps, multimap, samegeos, zeros/full/rand, read_map, write_map, map2harm, sum/mean/var")
p("P23", "Power-spectrum containers convert without losing or moving entries",
 "Compression and expansion of symmetric spectra, writing and reading of spectra (and CAMB formats), and scaling by l(l+1)/2pi are inverse to each other for every number of components and ordering scheme, with every entry at its place and l-factors applied exactly once. Conversion of spectra to correlation functions is the Legendre sum.",
 "histories", "all component counts, schemes, expand modes and l ranges", "ordering schemes must be right for every ncomp",
 ["pixell/powspec.py"], "sym_compress, sym_expand, sym_expand_camb_full_lens, read_spectrum, write_spectrum, read_tensor, spec2corr, scale_spectrum, expand_inds")
p("P24", "Simulated objects add exactly their profiles and nothing else",
 "Simulating objects on a map equals the sum (or the chosen operator) over objects of amplitude times profile at the great-circle distance, out to at least the requested radius or minimum value, for every geometry including wrapping and poles; it is linear in the amplitudes for sums, independent of cell size and order of objects, and honours a given output map. Radial sums and bins around positions are its adjoint and the average, and source-catalogue simulation, cross-matching and cell helpers agree with direct evaluation.",
 "inputs", "all geometries, object positions (outside, on poles, across the wrap), amplitudes, profiles and options", "the cell/branch logic is position dependent",
 ["pixell/pointsrcs.py","cython/srcsim.pyx","cython/srcsim_core.c"], "sim_objects, radial_sum, radial_bin, sim_srcs, eval_srcs_loop, nsigma2rmax; srcsim_core.c")
p("P25", "Catalogue, Bunch and text formats read back what was written",
 "Attribute dictionaries survive attribute/item operations, concatenation and a round trip through HDF (also nested paths), and source catalogues read back what was written for every value their format can hold. Sexagesimal, time, number and range parsing and formatting are inverse, and the text-splitting helpers respect quotes and escapes.",
 "histories", "all tables, dictionaries, numbers and strings in range", "formats must hold for every value",
 ["pixell/pointsrcs.py","pixell/bunch.py","pixell/utils.py"], "read_sauron_*, write_sauron_*, read_dory_*, bunch.read/write, utils.parse_numbers, dec2sexa, split_esc")
p("P26", "Lensing displaces by the gradient along great circles and can be undone",
 "Displacing positions by a gradient moves each by the gradient's length in its direction along a great circle, also over the poles, and rotates polarization by parallel transport. Lensing a map evaluates the unlensed field at the displaced positions, is the identity for zero potential, does not depend on banding, outputs requested or precision, and delensing inverts it; displacement's transpose option is its adjoint. Converting between potential and convergence multiplies by l(l+1)/2 and back.",
 "inputs", "all positions including near the poles, gradients, geometries and potentials", "spherical geometry near the poles and band edges",
 ["pixell/lensing.py"], "offset_by_grad, offset_by_grad_helper, lens_map, delens_map, displace_map, lens_map_curved, phi_to_kappa, pole_wrap")
p("P27", "Aberration and modulation are exact, invertible relativistic transforms",
 "Aberration moves positions along the boost direction by the relativistic formula, boosting by the opposite velocity undoes it for positions, polarization angle and modulation, and modulation multiplies by the Doppler factor appropriate for each unit and dipole option. The functional and the class interface agree, and results do not depend on boundary, batching or component grouping.",
 "inputs", "all boost directions and speeds, positions, geometries and map values", "the formula must hold for every direction",
 ["pixell/aberration.py"], "boost_map, boost_1d, calc_boost, calc_boost_1d, Aberrator, Modulator, apply_aberration, apply_modulation")
p("P28", "Reprojection evaluates the same sky in the new pixelization",
 "Reprojection between healpix and rectangular pixels and onto thumbnails gives the value of the same sky field, with correctly rotated polarization and coordinate system, at each output pixel for harmonic and spline methods, and extensive quantities conserve their density. The result does not depend on batch sizes, component grouping or a caller-given output, and the older entry points and tile population agree.",
 "inputs", "all band-limited skies, geometries, nside, rotations, methods and batch sizes", "values must be right at every output pixel",
 ["pixell/reproject.py"], "map2healpix, healpix2map, thumbnails, thumbnails_ivar, rot2euler, inv_euler, distribute, restrict_nside")
p("P29", "Wavelet and unified harmonic transforms reconstruct the map they analyse",
 "Wavelet synthesis of the wavelet coefficients of a (band-limited) map returns the map, in flat and curved mode, for every basis and map shape, the bases are a partition of unity in l, and coefficient variances are as documented; Haar and radial Fourier transforms are likewise invertible. Unified harmonic transforms are inverse and adjoint pairs that agree with the flat and curved transforms they unify, and their profile and filter helpers follow their definitions.",
 "inputs", "all map shapes, bases, level counts, profiles and modes", "reconstruction must be exact for each shape",
 ["pixell/wavelets.py","pixell/uharm.py"], "WaveletTransform, HaarTransform, Butterworth/ButterTrim/CosineNeedlet, UHT")
p("P30", "Native interpolation and array kernels equal their mathematical definition",
 "Compiled interpolation reproduces values at nodes and polynomials for every order, mode and border, its transpose form is the exact adjoint and its derivative form the derivative, in single and double precision, and interpolators built from a function have the requested accuracy. Array kernels (matrix products, row rolling, contour finding, vector conversion) and colour mapping equal their plain definitions.",
 "inputs", "all arrays, positions, orders, modes, borders and matrix shapes", "compiled kernels have no bounds checks and few tests",
 ["pixell/interpol.py","pixell/array_ops.py","fortran/interpol.F90","fortran/array_ops.F90","pixell/colorize.py"], "map_coordinates, spline_filter, build/ip_*, array_ops.*, colorize")
p("P31", "Searching, grouping and indexing helpers match brute force",
 "Search and set helpers (find, contains, common and unique values, inverse orderings, nearest index, grouping, labelling), splitting and reshaping helpers (equal and greedy splits, flattening, axis moves, broadcasting, resizing), and statistics helpers (weighted quantiles, robust means, cumulative sums, detrending) return what the direct definition gives for every array, including duplicates, missing values and empty inputs. Number helpers (primes, gcd, nearest products, digits, bit unpacking), Legendre and cos/sin series, sweep and period finding likewise.",
 "inputs", "all arrays, orders, duplicates and shapes", "duplicates, missing values and order sensitivity",
 ["pixell/utils.py"], "find*, common_*, nearest_*, *_groups, partial_*, greedy_split*, weighted_quantile, planck/dplanck etc")
p("P32", "Matched filters recover point-source amplitudes with the right weights",
 "Matched filters return rho and kappa such that rho/kappa is the unbiased maximum-likelihood amplitude of a beam-shaped source at each pixel and kappa its inverse variance, for white, stationary, constant-correlation and wavelet noise models and any number of maps, linear in the map. Simulations have the model's covariance, and finders, measurers and modellers recover well-separated sources' positions and fluxes and model them as the beam times amplitude.",
 "inputs", "all geometries, beams, noise spectra, source positions and amplitudes", "the estimator must be unbiased for each position",
 ["pixell/analysis.py"], "matched_filter_*, NmatConstcov, NmatConstcorr, solve_mapsys, sanitize_kappa, FinderSimple, merge_arrays")
p("P33", "Operations never modify their input maps",
 "Every public map and array operation that is not documented as in-place or as returning a view leaves the data, wcs and boxes passed to it unchanged and returns arrays that do not alias them. Calling it again, on another memory layout of the same values, or after other operations gives the same result.",
 "histories", "all operations of the map API applied twice in sequence on generated inputs", "aliasing needs a second look at the input after the call",
 ["pixell/enmap.py","pixell/curvedsky.py","pixell/reproject.py","pixell/lensing.py","pixell/aberration.py","pixell/utils.py"], "all functions taking maps, boxes or wcs")
p("P34", "Plots show the map's values at the right place in the right colour",
 "Plotting a map gives one image per component (or per group of three, or one tiled image), in which each pixel has the colour of its value's place in the colour range given or derived from quantiles, dec increases upwards and ra to the left whatever the map's own orientation, and masked or missing values are transparent. Downgrading, upgrading, slicing, cropping, sub-maps, stamps and operations apply before drawing; grid lines, labels, contours, annotations and the colour bar are where those coordinates and values are; layers and merged plots stack up without changing their inputs; the option-string, keyword and file interfaces agree, and images are written under the documented names.",
 "inputs", "all maps, geometries, orientations, ranges, colour schemes and option combinations", "options interact and image tests are usually done by eye",
 ["pixell/enplot.py","pixell/cgrid.py","pixell/colorize.py"], "plot, get_map, get_color_range, draw_map_field, merge_plots, calc_contours, hwexpand/hwstack, calc_gridinfo, calc_label_pos")
p("P35", "Spectra, beams and profiles follow their formulas and invert each other",
 "The Planck, graybody, Rayleigh-Jeans and tSZ spectra and unit conversion factors equal their formulas and derivatives for every frequency type, and inverse functions undo them. Airy beams and disk overlaps are the transforms and areas they claim, radial profiles and harmonic beams transform into each other (curved, flat, Hankel and FFTLog), tSZ profiles are the line-of-sight integral of the generalised NFW profile, and regularised beams equal the beam up to the first multipole where it falls below the cutoff, follow a power law from there and never modify their input.",
 "inputs", "all frequencies, temperatures, beam shapes, cutoffs and radii", "formulas must hold over many orders of magnitude, where cancellation and overflow hide",
 ["pixell/utils.py","pixell/uharm.py"], "planck, dplanck, graybody, tsz_spectrum, airy, disk_overlap*, RadialFourierTransform, FFTLog, tsz_*, regularize_beam, profile2harm_flat*")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here+"/properties.jsonl","w") as f:
	for x in P: f.write(json.dumps(x)+"\n")
