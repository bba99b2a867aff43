import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
I=["inputs"];IC=["inputs","configurations"];IH=["inputs","histories"]
p("C01","One standard order for two-point data",
 "For every number of fields n, all routines that index two-point data agree on one bijection: position i(i+1)/2+(i-j) holds the pair (i,j) with i>=j, enumerating entries and the table of indices list the pairs in exactly that order, and asking for (i,j) or (j,i) returns that entry, cut or zero-padded to exactly lmax+1 values when lmax is given. The number of fields is reported as n exactly when there are n(n+1)/2 spectra, and every other count is rejected with ValueError.",
 I,"every n, every position k, every pair (i,j), every lmax and spectrum length",
 "tests list the order for n<=3 and a few lengths; the index arithmetic uses floating square roots and must hold for every k and n",
 ["glass/fields.py"],[("getcl","glass/fields.py:getcl"),("enumerate_spectra","glass/fields.py:enumerate_spectra"),("spectra_indices","glass/fields.py:spectra_indices"),("nfields_from_nspectra","glass/fields.py:nfields_from_nspectra")],
 observe=["glass.getcl","glass.enumerate_spectra","glass.spectra_indices","glass.nfields_from_nspectra"])
p("C02","HEALPix reordering is an exact permutation",
 "For every number of fields, converting spectra from GLASS order to HEALPix order lists the pairs diagonal by diagonal, and converting back (in either direction) returns the identical sequence; a count that is not triangular is rejected. For every lmax, reordering harmonic coefficients moves the (l,m) coefficient from GLASS position l(l+1)/2+m to its HEALPix (m-major) position and loses none, and scaling coefficients by a function of l multiplies each (l,m) coefficient by the value at its own l.",
 I,"every number of fields, every lmax, every coefficient",
 "tests check one or two small sizes by example; a wrong stride or off-by-one can coincide on small sizes and the claim is about all (l,m)",
 ["glass/fields.py","glass/harmonics.py"],[("glass_to_healpix_spectra","glass/fields.py"),("healpix_to_glass_spectra","glass/fields.py"),("_glass_to_healpix_alm","glass/fields.py"),("multalm","glass/harmonics.py")],
 observe=["glass.glass_to_healpix_spectra","glass.healpix_to_glass_spectra","glass.harmonics.multalm"])
p("C03","Spectra covariance and regularisation keep structure",
 "The covariance matrix built from spectra holds, at every mode l, the spectrum of (i,j) in both entries (i,j) and (j,i) and zero beyond a spectrum's length, with lmax+1 modes (or the longest input). The nearest-correlation regularisation returns matrices with the input's diagonal (auto-spectra) unchanged and rejects negative diagonals, for stacks of any leading shape; eigenvalue clipping returns V max(w, rtol*max w) V^T for the eigendecomposition (w, V) of the input; regularised spectra are read back in standard order from the regularised matrix.",
 I,"every number of fields, ragged lengths, lmax, mode number, stack shape",
 "tests compare shapes and a handful of matrices; ragged lengths, stacks with several axes and all (i,j,l) are not covered",
 ["glass/fields.py","glass/algorithm.py"],[("cov_from_spectra","glass/fields.py"),("regularized_spectra","glass/fields.py"),("cov_clip","glass/algorithm.py"),("nearcorr","glass/algorithm.py"),("cov_nearest","glass/algorithm.py")],
 observe=["glass.cov_from_spectra","glass.regularized_spectra","glass.algorithm.cov_nearest","glass.algorithm.cov_clip","glass.algorithm.nearcorr"])
p("C04","Iterative normal sampling reproduces the covariance",
 "For every sequence of covariance rows with positive conditional variances, the scaling vectors yielded by the iterative sampler define variates whose variance and whose correlations with each of the previous k variates equal the requested entries, for every k and any stack of modes, also when k is smaller than the number of fields. A row that is not positive semi-definite, empty, or of inconsistent shape raises ValueError instead of yielding. The rows derived from spectra hold half of the spectrum of (j, j-d) in column d, zero-padded to the number of modes, and negative auto-spectra are rejected.",
 IH,"every number of rows, every row length, every mode, every covariance value",
 "tests run 2-4 fields; the claim is an induction over all previous fields, with a sliding window that only exists for longer histories",
 ["glass/fields.py"],[("iternorm","glass/fields.py"),("cls2cov","glass/fields.py")],
 state=[("m,a,s","inverse Cholesky factor of the window, last row and last conditional deviation","glass/fields.py:iternorm")],
 observe=["glass.iternorm","glass.cls2cov"])
p("C05","Field generation assembles the right ingredients",
 "For every list of fields and matching spectra, sampling yields exactly one map per field, in order; map i is transformation i applied to Gaussian map i with the variance of auto-spectrum (i,i), and the coefficients of Gaussian map i are the sum of its own and at most ncorr immediately preceding standard-normal draws, each scaled per l by its own scaling weight, with the m=0 coefficients real. A mismatch between fields and spectra, or spectra that are all empty, raises ValueError.",
 ["inputs","configurations","histories"],"every number of fields, every ncorr, every position in the sequence",
 "tests sample two or three fields with one seed and look at shapes; the window of kept draws and its alignment with the weights only matters for longer sequences",
 ["glass/fields.py"],[("generate","glass/fields.py"),("_generate_grf","glass/fields.py")],
 state=[("y","kept standard normal draws","glass/fields.py:_generate_grf")],observe=["glass.generate"])
p("C06","Field transformations are consistent with each other",
 "For every pair of transformations that is supported, given in either order, the inverse correlation transform undoes the forward transform and the derivative transform is its exact derivative; an unsupported pair raises NotImplementedError. Lognormal and squared-normal fields with positive scale never fall below minus their scale parameter, a lognormal field is increasing in the Gaussian input, and a normal field is returned unchanged.",
 I,"all parameter values, all correlation values in the domain, all pairs and argument orders",
 "tests evaluate a few numbers per class; mixed pairs, argument order and non-unit scales must agree for all reals",
 ["glass/grf/_core.py","glass/grf/_transformations.py"],[("corr/icorr/dcorr dispatch","glass/grf/_core.py"),("Normal, Lognormal, SquaredNormal","glass/grf/_transformations.py")],
 observe=["glass.grf.corr","glass.grf.icorr","glass.grf.dcorr","calling a transformation"])
p("C07","Gaussian spectrum solver returns honest results",
 "Whatever the target spectrum, transformations and options, the solver's returned spectrum has the length of the target, the returned realised spectrum is exactly the forward transform of the returned solution, and its relative error never exceeds that of the starting point. The convergence flag for the realised spectrum is only set if the error is within cltol, the flag for the solution only if the last accepted step was within gltol, a given monopole is kept exactly, and a negative padding is rejected.",
 ["inputs","configurations","histories"],"every target, transformation pair, padding, tolerance, iteration count and monopole choice",
 "tests check three spectra that converge; the guarantees are loop invariants over an unbounded backtracking search and cover every way of leaving it",
 ["glass/grf/_solver.py","glass/grf/_core.py","glass/fields.py"],[("solve","glass/grf/_solver.py"),("compute","glass/grf/_core.py"),("solve_gaussian_spectra","glass/fields.py")],
 state=[("gl,gt,rl,fl,clerr","current iterate and its realised spectrum, residual and error","glass/grf/_solver.py:solve")],
 observe=["glass.grf.solve","glass.solve_gaussian_spectra"])
p("C08","Effective spectra are the exact bilinear combination",
 "The effective spectrum for weights v and w is sum over all ordered pairs (i,j) of v_i w_j C_ij(l) for l=0..lmax, with spectra cut or zero-padded to lmax, for every combination of the extra axes of v and w; leaving out the second set is the same as passing the first one twice. Weights whose first axis is not the number of fields, and spectra counts that are not triangular, raise ValueError.",
 I,"every number of fields, weights, extra axes, lmax and ragged lengths",
 "tests use uniform weights and check shapes; each term's index pair and both halves of the symmetric sum matter for all weights",
 ["glass/fields.py"],[("effective_cls","glass/fields.py"),("getcl","glass/fields.py")],observe=["glass.effective_cls"])
p("C09","Discretised spectra are cut, windowed and pruned exactly",
 "Discretising a set of spectra keeps its standard order and count; with lmax every spectrum is its first lmax+1 values, with nside it is multiplied by the squared pixel window at the same l, and with ncorr exactly the spectra of pairs more than ncorr apart become empty while all others are kept. Without options nothing changes, empty spectra stay empty, and with ncorr a count that is not triangular is rejected.",
 IC,"every number of fields, lengths, lmax, nside, ncorr and combination of options",
 "the tests of this function cannot run offline at all (pixel windows are downloaded) and cover one option combination each",
 ["glass/fields.py"],[("discretized_cls","glass/fields.py")],observe=["glass.discretized_cls"])
p("C10","Shell window functions tile the light cone",
 "From N+1 (or N+2) increasing nodes exactly N top-hat (or linear, cubic) windows are made, in order: each is defined on an increasing grid that starts and ends exactly at its own outer nodes; top-hat windows equal the weight function and have their weighted mean redshift inside the bin; linear and cubic windows lie in [0,1], vanish at the outer nodes, are one at their middle node, which is their effective redshift, and adjacent ones share grid points and add up to one in between. A given weight function multiplies the window; too few nodes or non-1D nodes raise ValueError.",
 I,"all node sequences, spacings dz, weight functions, windows and grid points",
 "tests use one or two grids; that adjacent grids coincide depends on rounding of each interval by dz",
 ["glass/shells.py"],[("tophat_windows","glass/shells.py"),("linear_windows","glass/shells.py"),("cubic_windows","glass/shells.py"),("RadialWindow","glass/shells.py")],
 observe=["glass.tophat_windows","glass.linear_windows","glass.cubic_windows","glass.RadialWindow"])
p("C11","Redshifts are distributed only to shells that contain them",
 "Every redshift, at any position of an array of any size, gets an index in its own place: -1 exactly when the total weight of all shells at that redshift is zero, and otherwise a shell whose window is non-zero there, drawn with probability proportional to that shell's window value. The result has the shape of the input, including when it is empty.",
 I,"every array size (batch boundaries included), every set of shells, every draw of the generator",
 "tests use a few hundred redshifts or check frequencies; batches start at 1000 and boundary or alignment errors appear only there",
 ["glass/shells.py"],[("distribute","glass/shells.py")],observe=["glass.distribute"])
p("C12","Restriction, combination and partition follow their formulas",
 "Restricting a function to a window gives f(z)w(z) on the union of the window's grid and the function's points strictly inside it, with zero outside the function's range; combining shells gives sum of x_i w_i(z)/integral(w_i), zero outside a window; the restrict partition is the integral of each restriction. The least-squares and non-negative partitions solve the documented system (normalised windows times grid spacing, plus the weighted integral constraint) for every leading axis, the leading result axis is the shells, and an unknown method raises ValueError.",
 I,"all functions, windows, grids, leading axes and weights",
 "tests check shapes, signs and sums with tolerances of percent for one setup",
 ["glass/shells.py","glass/arraytools.py"],[("restrict","glass/shells.py"),("combine","glass/shells.py"),("partition_*","glass/shells.py")],
 observe=["glass.restrict","glass.combine","glass.partition"])
p("C13","Non-negative least squares returns an optimal solution",
 "For every matrix with independent columns and every vector, the non-negative least-squares routine returns a vector with no negative entry, and unless it used up its iterations the vector is optimal: no zero entry has a gradient component above the tolerance and all non-zero entries have zero gradient. Inputs that are not a matrix and a vector of matching size raise ValueError.",
 I,"every matrix and vector, tolerance and iteration limit",
 "the one example in the tests never enters the step that moves back to the feasible region, where the active set shrinks",
 ["glass/algorithm.py"],[("nnls","glass/algorithm.py")],state=[("x,q","current solution and passive set","glass/algorithm.py:nnls")],observe=["glass.algorithm.nnls","glass.partition(method='nnls')"])
p("C14","Sampled positions account for every drawn galaxy",
 "For every map of galaxy numbers and every batch size, the batches yielded for a population list exactly n positions in each pixel that was assigned n galaxies: nothing lost, repeated or moved across batch and map ends, populations in order, and the reported counts add up to the positions yielded and are attributed to their own population. A batch exceeds the batch size only if it consists of a single pixel. Uniform positions are yielded once per population with exactly the drawn count, longitudes in [-180,180] and latitudes in [-90,90].",
 IC,"every count map, every batch size, every number of populations",
 "tests use small maps and default batches; the batching loop has several exits whose bookkeeping only matters on rare count patterns",
 ["glass/points.py"],[("_sample_galaxies_per_pixel","glass/points.py"),("positions_from_delta","glass/points.py"),("uniform_positions","glass/points.py")],
 state=[("start,stop,size,count","batch cursor, galaxies gathered, galaxies left","glass/points.py:_sample_galaxies_per_pixel")],
 observe=["glass.positions_from_delta","glass.uniform_positions"])
p("C15","Expected galaxy numbers follow density, bias and visibility",
 "For every population, the expected number in a pixel is ngal times the pixel's share of the full sky in square arcminutes times (1 + biased density contrast) times the visibility, never below zero when drawn; with monopole removal the mean of the biased contrast is subtracted first, so that without visibility the expected total is exactly ngal times the sky area. Linear bias is b*delta, log-linear bias satisfies 1+delta_g=(1+delta)^b, and extra axes of all inputs are broadcast to one population shape.",
 I,"all maps, biases, densities, visibilities, extra axes and options",
 "tests compare total counts statistically for constant inputs",
 ["glass/points.py","glass/arraytools.py"],[("positions_from_delta","glass/points.py"),("_compute_expected_count","glass/points.py"),("_apply_visibility","glass/points.py"),("_compute_density_contrast","glass/points.py"),("linear_bias, loglinear_bias","glass/points.py"),("broadcast_leading_axes","glass/arraytools.py")],
 observe=["glass.positions_from_delta","glass.linear_bias","glass.loglinear_bias"])
p("C16","Displacement moves along the great circle and inverts",
 "Displacing a point by a complex displacement moves it by exactly its modulus along the great circle that leaves at its argument (north 0, east 90 degrees), for every point and displacement given as complex or as two components. The displacement between two points, applied to the first, gives the second, and the older deflection gives the same latitude and the mirrored longitude change.",
 I,"all positions and displacements",
 "tests try cardinal directions and random points with a tolerance; identities must hold for all angles and signs",
 ["glass/points.py","glass/lensing.py"],[("displace","glass/points.py"),("displacement","glass/points.py"),("deflect","glass/lensing.py")],
 observe=["glass.displace","glass.displacement","glass.deflect"])
p("C17","Sampled redshifts come from their own distribution",
 "Every redshift sampled from a distribution is its inverse cumulative distribution at a uniform draw, so it lies within the grid; for several populations the result lists each population's requested number in order, each sampled from its own grid and distribution. When sampling by bin label, the redshift at each position of a label array of any shape is drawn from the distribution of the label at that same position.",
 I,"all label arrays and shapes, all distributions, counts and draws",
 "tests use distinct labels in a 1-D array; repeated labels, more axes and the inversion of the sort are not covered",
 ["glass/galaxies.py","glass/arraytools.py"],[("redshifts_from_nz","glass/galaxies.py"),("redshifts_from_bins","glass/galaxies.py"),("_draw_nz","glass/galaxies.py"),("redshifts","glass/galaxies.py")],
 observe=["glass.redshifts_from_nz","glass.redshifts_from_bins","glass.redshifts"])
p("C18","Galaxy shear composes ellipticity and lensing exactly",
 "For every catalogue size, each galaxy's observed shear is (e+g)/(1+conj(g) e) with g=(gamma1+i gamma2)/(1-kappa) taken from the map pixel that contains that galaxy, or the plain sum of ellipticity and shear if reduced shear is switched off. In the weak regime (|g|<1) an intrinsic ellipticity inside the unit disk stays inside it.",
 IC,"every catalogue size (batch boundaries included), positions, ellipticities and maps",
 "tests use a handful of galaxies; look-ups are done in batches of ten thousand that no test reaches",
 ["glass/galaxies.py"],[("galaxy_shear","glass/galaxies.py")],observe=["glass.galaxy_shear"])
p("C19","Photometric redshifts respect bounds and error model",
 "Every photometric redshift returned lies within the given bounds (default zero and infinity), is a draw from the normal distribution with mean z and standard deviation (1+z)*sigma_0 of its own galaxy, has the shape of the broadcast inputs, and entries already within bounds are not redrawn. Bounds that are not ordered, or arrays of a wrong shape, raise ValueError.",
 IC,"all inputs, bounds and draw sequences (any number of rejections)",
 "tests draw a few samples; the rejection loop must establish the bound for every sequence of draws",
 ["glass/galaxies.py"],[("gaussian_phz","glass/galaxies.py")],observe=["glass.gaussian_phz"])
p("C20","Sampled shapes are valid ellipticities in the right number",
 "Every sampled ellipticity has modulus at most one (strictly below one for the intrinsic-normal model), populations appear in order with exactly the requested counts and each uses its own parameters, for every sequence of random draws including rejected ones. Projected axis ratios lie in [0,1]; resampled shapes keep each modulus up to one common factor, which is sqrt(1-vargamma/mean|e|^2) when the shear variance is given, and inadmissible sigma or variances raise ValueError.",
 I,"all counts, parameters and draw sequences (any number of rejections)",
 "tests sample thousands of values of one population and check moments; per-population bookkeeping and all rejection paths are not covered",
 ["glass/shapes.py"],[("ellipticity_gaussian","glass/shapes.py"),("ellipticity_intnorm","glass/shapes.py"),("ellipticity_ryden04","glass/shapes.py"),("triaxial_axis_ratio","glass/shapes.py"),("resample_shapes","glass/shapes.py")],
 observe=["glass.ellipticity_gaussian","glass.ellipticity_intnorm","glass.ellipticity_ryden04","glass.triaxial_axis_ratio","glass.resample_shapes"])
p("C21","Lensing maps are the documented multiples of convergence",
 "For every l, the potential, deflection and shear coefficients are the convergence coefficient times -2/(l(l+1)), -2/sqrt(l(l+1)) and -sqrt((l-1)(l+2)/(l(l+1))) (zero at l=0), times the ratio of spin-2 to spin-0 pixel windows for the shear when discretised. The requested maps are returned in the order potential, deflection, shear, each unaffected by which others are requested, none if none is requested; the older shear function uses the same factors.",
 IC,"every l, lmax, nside and all combinations of requested outputs",
 "the existing test cannot run offline; factors must be right for every l and every combination of outputs, including l=0 and l=1",
 ["glass/lensing.py"],[("from_convergence","glass/lensing.py"),("shear_from_convergence","glass/lensing.py")],observe=["glass.from_convergence","glass.shear_from_convergence"])
p("C22","Multi-plane convergence equals the line-of-sight sum",
 "After any sequence of mass planes with increasing source redshifts in a flat universe, the convergence equals 3 Omega_m/2 times the sum over earlier planes j of x_j (x-x_j)/x (1+z_j)/E(z_j) w_j delta_j, with x the distance in Hubble units; curvature is respected through the pairwise distances. A plane whose redshift does not increase is rejected with ValueError and leaves later results unaffected; the lensing matrix and weights are the same recursion applied to unit planes and normalised weights.",
 IH,"every sequence of planes of any length, every flat cosmology, every map",
 "tests compare against the same recursion for a few planes; the closed form over all histories is an induction",
 ["glass/lensing.py"],[("MultiPlaneConvergence.add_plane","glass/lensing.py"),("add_window","glass/lensing.py"),("multi_plane_matrix","glass/lensing.py"),("multi_plane_weights","glass/lensing.py")],
 state=[("z2,z3,x3,w3,r23,delta3,kappa2,kappa3","last two planes and convergence fields","glass/lensing.py:MultiPlaneConvergence")],
 observe=["MultiPlaneConvergence.kappa","glass.multi_plane_matrix","glass.multi_plane_weights"])
p("C23","Redshift distributions are normalised and bins tile",
 "Gaussian and Smail distributions are non-negative and integrate (trapezoidal rule on the given grid) to one, or to the given norm, for every set of parameters. Fixed-size bins are contiguous, start at zmin, have equal width and reach zmax; equal-density bins are contiguous from the first to the last grid redshift and their edges have cumulative fraction i/n; tomographic distributions are n(z) times the probability that the Gaussian error puts z in the bin given that it is positive, so contiguous bins add up telescopically. Giving both or neither of bin number and size raises ValueError.",
 I,"all grids, parameters, numbers and sizes of bins",
 "tests check single parameter sets; normalisation and tiling are identities over all inputs",
 ["glass/observations.py","glass/arraytools.py"],[("gaussian_nz","glass/observations.py"),("smail_nz","glass/observations.py"),("fixed_zbins","glass/observations.py"),("equal_dens_zbins","glass/observations.py"),("tomo_nz_gausserr","glass/observations.py")],
 observe=["glass.gaussian_nz","glass.smail_nz","glass.fixed_zbins","glass.equal_dens_zbins","glass.tomo_nz_gausserr"])
p("C24","Saved spectra and catalogues read back complete",
 "Loading saved spectra returns the same number of arrays with the same lengths and values, for any list of one or more spectra, empty ones included. In a catalogue file, every write appends its rows after those already written to the same table, so that after any sequence of writes the table holds all rows of all columns in write order.",
 IH,"every list of spectra, every sequence of writes and extension name choice",
 "tests store one or two arrays and append twice; raggedness, empties and longer histories are not covered",
 ["glass/user.py"],[("save_cls","glass/user.py"),("load_cls","glass/user.py"),("_FitsWriter","glass/user.py"),("write_catalog","glass/user.py")],
 state=[("ext","table the writer appends to","glass/user.py:_FitsWriter")],observe=["glass.save_cls","glass.load_cls","glass.write_catalog"])
p("C25","Public functions never modify the caller's arrays",
 "No public numerical function changes the contents of an array passed to it (maps, spectra, weights, positions, redshifts, window arrays), whatever the values, options and array backend, nor of an array held in the objects passed to it. What a caller hands over is read only.",
 IC,"all inputs, options, and every mutable backend",
 "tests hardly ever look at inputs after the call; in-place operators are used throughout and are safe only if each target is a fresh buffer",
 ["glass/fields.py","glass/shells.py","glass/points.py","glass/galaxies.py","glass/shapes.py","glass/lensing.py","glass/observations.py","glass/algorithm.py","glass/arraytools.py","glass/harmonics.py","glass/grf/_solver.py"],
 [("fresh copies before in-place operators","throughout glass/")],observe=["argument arrays after the call"])
p("C26","The JAX generator never reuses a random key",
 "In every history of draws, splits and spawned children, each draw consumes a key that no other draw, child or later state shares, and that is derived from the current state by splitting; arguments are passed through so that a draw has exactly the requested or broadcast shape, distribution parameters and type. An explicit shape that contradicts the broadcast shape of the parameters raises ValueError.",
 ["histories","inputs"],"every sequence of operations on a generator and its descendants",
 "tests check shapes and a few draws; key reuse is a property of histories and looks random to any test",
 ["glass/jax.py"],[("Generator","glass/jax.py"),("_shape","glass/jax.py")],state=[("key","current key","glass/jax.py:Generator")],observe=["glass.jax.Generator"])
p("C27","Array backends are interchangeable",
 "For every supported helper, array backend and argument, the helper computes the same mathematical function as with NumPy (trapezoidal rule, interpolation, gradient, least squares, sums of products, mapping along an axis, degrees and radians, index enumeration), hands every option on, and returns an array of the caller's backend. Functions that fall back to NumPy convert every array in nested arguments, and convert every array of the result back to the caller's backend; random numbers are drawn from the given generator, or a fixed-seed one, and returned in the caller's backend.",
 IC,"every helper, backend, option and nesting of arguments and results",
 "tests call each helper once or twice per backend with default options",
 ["glass/_array_api_utils.py","glass/rng.py","glass/healpix.py"],[("xp_additions","glass/_array_api_utils.py"),("numpy_fallback","glass/_array_api_utils.py"),("Generator","glass/rng.py"),("default_rng","glass/rng.py")],
 observe=["glass._array_api_utils.xp_additions","glass.rng.Generator","glass.healpix"])
p("C28","Integration, averaging and broadcasting helpers are exact",
 "Cumulative integration starts at zero and each step adds the trapezoid of that step; the integral of a product of functions is the trapezoidal rule on the union of all grid points within the common range of all functions, with each function linearly interpolated; broadcasting leading axes keeps exactly the requested trailing axes and the values of every array. The effective bias is the window-weighted mean of the bias, and clustering weights are densities divided by their sum over shells, times the bias.",
 I,"all functions, grids, axes and numbers of factors",
 "tests integrate one or two polynomials; grid union, partial overlap and axis handling are sampled only",
 ["glass/arraytools.py","glass/points.py"],[("cumulative_trapezoid","glass/arraytools.py"),("trapezoid_product","glass/arraytools.py"),("broadcast_leading_axes","glass/arraytools.py"),("broadcast_first","glass/arraytools.py"),("effective_bias","glass/points.py"),("position_weights","glass/points.py")],
 observe=["glass.arraytools","glass.effective_bias","glass.position_weights"])
p("C29","Redshift and distance grids are uniform and cover the range",
 "Redshift grids start at zmin, are uniformly spaced by the given step (or (zmax-zmin)/num) and reach zmax: exactly with a number of steps, and within less than one step beyond it with a step size; distance grids are the same in comoving distance, mapped back to redshift. Giving both or neither of step and number raises ValueError; the weight functions of shells are 1/E, (d_M/d_H)^2/E and rho_crit*Omega_m*(d_M/d_H)^2/E.",
 I,"all ranges, steps, numbers and cosmologies",
 "tests use one range and step",
 ["glass/shells.py"],[("redshift_grid","glass/shells.py"),("distance_grid","glass/shells.py"),("_uniform_grid","glass/shells.py"),("DistanceWeight, VolumeWeight, DensityWeight","glass/shells.py")],
 observe=["glass.redshift_grid","glass.distance_grid","glass.DistanceWeight","glass.VolumeWeight","glass.DensityWeight"])
p("C30","Simulated maps have the target two-point statistics",
 "Averaged over random seeds, the angular power spectra of the generated maps equal the target spectra, for every choice of fields and spectra.",
 ["inputs"],"all spectra, transformations and the whole ensemble of random draws",
 "an ensemble average over spherical-harmonic transforms; a test sees one noisy realisation",
 ["glass/fields.py","glass/grf/_core.py"],[("generate, compute_gaussian_spectra, solve_gaussian_spectra","glass/fields.py")],observe=["glass.generate"])
p("C31","The visibility map masks exactly the two sky stripes",
 "The galactic-ecliptic visibility map is zero exactly in the given galactic and ecliptic stripes and one elsewhere, up to the interpolation at pixel level, for every resolution.",
 IC,"every resolution and pair of stripes",
 "tests check a few map sums at one resolution",
 ["glass/observations.py"],[("vmap_galactic_ecliptic","glass/observations.py")],observe=["glass.vmap_galactic_ecliptic"])
p("C32","Results are accurate to floating-point rounding",
 "All computed quantities differ from the exact real-number result only by rounding error of the floating-point type.",
 ["inputs"],"all inputs, including extreme magnitudes",
 "a bound over all floating-point inputs",
 ["glass"],[("floating-point arithmetic","throughout glass/")],observe=["all results"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x['title']) for x in P))
