NOTES = {}
NOTES["P01"] = """Oracle: numpy indexing of the plain array for the data; the position formula of the statement, evaluated with the *original* geometry's astropy wcs, for the
coordinates. Slices with |step|>1 keep the leading edge of each block of pixels (that is pixell's definition). Reach: every sign/offset/step combination, not a few fixed slices."""
NOTES["P02"] = """Oracle: astropy's own wcs transform (called directly) for positions, plus inverse and shift-by-whole-turns relations. Known finding: for the Mercator projection the
wrapping is wrong in one place (see Findings)."""
NOTES["P03"] = """Oracle: the request itself (shape, resolution, box edges, pole rows) evaluated with astropy. geometry2 is only asked for resolutions that divide 360 degrees."""
NOTES["P04"] = """Oracle: closed-form spherical areas of rows for cylindrical projections, finely subdivided spherical polygons for zenithal ones."""
NOTES["P05"] = """Oracle: a dictionary from sky pixel (row, column modulo circumference) to value; brute force over pixels. Covers extract/extract_pixbox/submap/insert/insert_at/pad/padslice/
stamps/shift/padtiles/tile_maps/map_union/autocrop/find_blank_edges/neighborhood_pixboxes. Not covered: blank-edge search on an all-blank map."""
NOTES["P06"] = """Oracle: the in-memory map, and in-memory selection for partial reads. Files go to a scratch directory. FITS (all BITPIX), HDF with addresses, proxies, IAU/COSMO flips."""
NOTES["P07"] = """Oracle: explicit DFT matrices, random inner products for adjoints, analytic rotation for E/B. Size-0 maps and laxes with oversampling of axes shorter than 3 are excluded."""
NOTES["P08"] = """Oracle: plane waves with analytic response, both for modes strictly below Nyquist and, where the definition is unambiguous, at Nyquist; linearity on random maps."""
NOTES["P09"] = """Oracle: defining sums in numpy longdouble/complex, every available engine (numpy, scipy, ducc0), and direct non-uniform sums."""
NOTES["P10"] = """Oracle: a plain loop over blocks. Offsets below the factor; separable operators; factors larger than the map without inclusive are excluded (raise)."""
NOTES["P11"] = """Oracle: node values, polynomial reproduction, brute-force nearest pixel, explicit border rules (constant, nearest, wrap, cyclic). Integer arrays with order above 0 truncate and are excluded; NaN positions are excluded."""
NOTES["P12"] = """Oracle: plain loops over pixels and bins. Bins without pixels are excluded."""
NOTES["P13"] = """Oracle: brute-force minimum over all points/pixels by dot products. `simple` must be exact; `cellgrid`, `heap` and `bubble` must report exactly the distance to
the domain they report, never less than the true distance, and be within about a pixel."""
NOTES["P14"] = """Oracle: direct summation of spin-weighted harmonics from Wigner d-functions (harness/sht.py), at positions from the geometry numbers. lmax at least the spin."""
NOTES["P15"] = """Oracle: inverse relation on geometries that resolve the band limit, inner-product identities with random vectors, analytic integrals for quadrature. MW grids have no quadrature weights;
analysis with deriv is broken upstream and not covered."""
NOTES["P16"] = """Oracle: dictionary (l,m) -> value and plain loops; rotation checked against synthesis at rotated positions."""
NOTES["P17"] = """Oracle: equality for determinism and nesting; chi-square style tests of many draws with thresholds around 6 sigma, under fixed seeds. Nesting for multi-component spectra is a known finding."""
NOTES["P18"] = """Oracle: sets of integers; simulated MPI ranks (threads with queues) for redistribution and gathers."""
NOTES["P19"] = """Oracle: vector algebra in double precision, astropy coordinates, brute-force pair distances, winding numbers."""
NOTES["P20"] = """Oracle: eigen-decompositions and residuals with numpy; step-by-step solver histories with save/load at random steps (bit-identical continuation)."""
NOTES["P21"] = """Oracle: the dense map, operated on with numpy; random programs of operations (model-based histories); simulated ranks."""
NOTES["P22"] = """Oracle: the list of member maps, operated on one by one."""
NOTES["P23"] = """Oracle: explicit index tables and loops; Gauss-Legendre inversion of the correlation function. Text files keep 8 digits."""
NOTES["P24"] = """Oracle: brute-force evaluation at all pixels with great-circle distances. Values below vmin or beyond rmax may be present or absent; single precision output."""
NOTES["P25"] = """Oracle: the written values, a dictionary model for operation histories on Bunch, exact fractions for sexagesimal text."""
NOTES["P26"] = """Oracle: great-circle vector algebra and parallel transport; exact synthesis at displaced positions. Two known findings are pinned by the repository's own tests."""
NOTES["P27"] = """Oracle: relativistic vector formula, exact synthesis at aberrated positions on Fejer1 grids with an even number of columns."""
NOTES["P28"] = """Oracle: direct harmonic synthesis at rotated output positions with rotated polarization; weights and totals for extensive maps. Mercator output and thumbnails smaller than two input pixels are excluded."""
NOTES["P29"] = """Oracle: reconstruction, partition of unity, inner products, analytic variance; enmap/curvedsky for what UHT unifies."""
NOTES["P30"] = """Oracle: node values, polynomials, inner products, finite differences, numpy linear algebra, explicit colour interpolation."""
NOTES["P31"] = """Oracle: brute force in plain Python."""
NOTES["P32"] = """Oracle: explicit small covariance matrices (white, stationary), generalised least squares, sample covariance, injected sources. Patches where flat-sky error is below 0.5 %."""
NOTES["P33"] = """Oracle: bitwise snapshots of all arguments before and after; results with other memory layouts (Fortran order, strided, byte-swapped where supported) and after other calls."""
NOTES["P34"] = """Oracle: explicit colour interpolation of the expected value array, and astropy coordinates of the pixels for grid, labels and annotations. Text is only checked for position. `--sub` is tested with the box in the map's own axis order (the other order asks for a mirrored image); stamps of odd size are only checked for size, because half-pixel rounding is unspecified."""
NOTES["P35"] = """Oracle: closed forms (Gaussians, exponentials), numerical quadrature and finite differences. Log-spaced transforms are compared in the middle of their range, with a looser bound when little padding is requested, because wrap-around there is inherent to the method."""
FINDINGS = """## Findings

`known_findings.txt` lists every defect found in pixell. Those marked `fixed:` were repaired in /repo with one `fix:` commit each. Not repaired, and printed as
KNOWN-FINDING: Mercator wrapping in sky2pix (P02), multi-component nesting of rand_alm (P17), and two conventions of offset_by_grad that the repository's own tests pin (P26).
"""
