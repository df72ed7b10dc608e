import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","A PSF model's arrays always match its current parameters",
"After any sequence of parameter assignments (wl, na, ni, res, size, zres, zsize, vec_corr, condition, zrange, dual), pupil applications and array reads on a HanserPSF or SheppardPSF, every array read (PSFa, OTFa, PSFi, OTFi) equals what a freshly constructed model with the same current parameters returns, and a pupil applied with apply_pupil stays in force exactly until the next parameter change. On a HanserPSF, assigning zsize or zres puts the z planes back on the default uniform grid of zsize planes spaced by zres with z=0 at index zsize//2; assigning zrange replaces them.",
["histories","inputs"],"every interleaving of reads and assignments, and every assigned value",
"test_size performs one fixed sequence of two assignments on one model and looks at the shape only; staleness needs a particular read-before-write order per array and per parameter.",
["pyotf/otf.py","pyotf/utils.py"],[("cache invalidation","BasePSF._attribute_changed"),("lazy arrays","BasePSF/HanserPSF/SheppardPSF cached_property arrays"),("change-detecting numeric attributes","utils.NumericProperty"),("z grid regeneration","HanserPSF.zsize/zres setters, _gen_zrange")],
["PSFa","OTFa","PSFi","OTFi","zrange"],[("cached arrays","lazily computed results kept until a parameter changes","instance __dict__ entries PSFa/OTFa/PSFi/OTFi")])

p("C02","Unphysical parameters are rejected and leave the model as it was",
"Constructing a model, or assigning to one, with a lateral pixel size at or above the Abbe limit wl/(2*na), a zres that is not positive, a SheppardPSF zres at or above wl/(2*ni), a negative wl, na, ni, size or zsize, an unknown vec_corr or condition, or a non-boolean dual raises ValueError (TypeError for a value of the wrong type), while every value inside those limits is accepted and read back unchanged. A rejected assignment leaves every parameter and every array of the model as they were.",
["inputs","histories"],"all real parameter values, all model states",
"test_diffraction_limit tries one pixel size far outside the limit; the boundary itself, the other parameters, and the state after a rejection are never examined.",
["pyotf/otf.py","pyotf/utils.py"],[("Abbe limit","BasePSF.res setter"),("axial limits","BasePSF.zres, SheppardPSF.zres setters"),("typed non-negative attributes","utils.NumericProperty"),("keyword validation","vec_corr, condition, dual setters")],
["exception raised","parameter values after the attempt"])

p("C03","HanserPSF amplitude is the defocused Fourier transform of the pupil",
"For every valid parameter set, every z plane and every pupil given in unshifted FFT order (the default being 1 where the lateral spatial frequency is below na/wl and 0 elsewhere), PSFa is the inverse 2D DFT, with the origin moved to pixel size//2, of the pupil times the defocus phase exp(2*pi*i*kz*z), with kz=sqrt((ni/wl)**2-kr**2), times the aplanatic factor (1 for 'none', cos(theta)**-1/2 for 'sine', 1/cos(theta) for 'herschel', sin(theta)=kr*wl/ni). With vec_corr 'z', 'y', 'x' or 'total' it has one component per polarisation term of the rotated field (2, 2, 2 and 6 of them, in the order zx, zy, yx, yy, xx, xy), and one component otherwise.",
["inputs","configurations"],"all wl, na, ni, res, z values and pupils; every vec_corr and condition; both size parities",
"The tests only check dtype, positivity and shape of one model, and never vec_corr other than 'none'; a wrong sign, boundary or polarisation term passes them.",
["pyotf/otf.py","pyotf/utils.py"],[("frequency grid","HanserPSF._gen_kr"),("ideal pupil","HanserPSF._gen_pupil"),("defocus","HanserPSF._calc_defocus"),("apodisation, polarisation and transform","HanserPSF._gen_psf")],["PSFa","apply_pupil"])

p("C04","SheppardPSF amplitude OTF is the NA-limited spherical cap, and finite",
"For every valid parameter set, the centred OTFa of a SheppardPSF is nonzero exactly at the frequency voxels whose |k| is closer than d to ni/wl and whose kz (|kz| when dual is true) exceeds sqrt((ni/wl)**2-(na/wl)**2) by more than d, d being the voxel size measured along k, sqrt(sum((k_i*dk_i)**2))/|k|. There it equals the imaging-condition factor (1, |s|**-1/2 or 1/|s| for none, sine, herschel, s being the axial direction cosine) times the polarisation terms of vec_corr (two for x, y and z, six for total); all its values are finite, whatever vec_corr, condition and dual are.",
["inputs","configurations"],"all optical parameters and voxel sizes, every vec_corr, condition and dual",
"The tests build one scalar Sheppard model and look at dtype and sign of the intensity only.",
["pyotf/otf.py"],[("shell selection","SheppardPSF._gen_kr"),("weights","SheppardPSF._gen_otf")],["OTFa"])

p("C05","PSFi, OTFi, PSFa and OTFa of a model agree with each other",
"For both models, every size parity and every parameter set: PSFi is real and is the sum over components of |PSFa|**2, OTFi is the centred 3D DFT of PSFi (zero position and zero frequency both at index n//2 of each axis), and OTFa and PSFa are a centred 3D DFT pair per component. Hence the central OTFi value is the total intensity and OTFi is Hermitian about it.",
["inputs","configurations"],"all field values, every shape and parity, both models, all array reading orders",
"Only even cubic grids are built in the tests, and no test compares two of the arrays.",
["pyotf/otf.py","pyotf/utils.py"],[("intensity","BasePSF.PSFi"),("intensity OTF","BasePSF.OTFi"),("amplitude pair","HanserPSF.OTFa, SheppardPSF.PSFa"),("centred transforms","utils.easy_fft/easy_ifft")],["PSFa","OTFa","PSFi","OTFi"])

p("C06","Light energy is conserved through focus and across polarisation",
"For a HanserPSF with any pupil, the intensity summed over x and y is the same in every z plane. With condition 'none' it equals the mean of |pupil|**2 over the frequency grid for the scalar model and exactly twice that for vec_corr 'total'; and the 'total' intensity is pixel by pixel the sum of the 'x', 'y' and 'z' intensities.",
["inputs","configurations"],"all pupils, z values and optical parameters",
"No test sums an intensity, compares planes, or uses a vectorial model.",
["pyotf/otf.py"],[("unit-modulus defocus, real kz","HanserPSF._calc_defocus, utils.psqrt"),("orthonormal polarisation terms","HanserPSF._gen_psf")],["PSFi"])

p("C07","Unaberrated PSFs are symmetric about, and peak at, the central pixel",
"For an ideal HanserPSF (any parameters, any size parity, any vec_corr and condition) the intensity is unchanged by mirroring x or y about pixel size//2 and by replacing z with -z, and for vec_corr 'none' or 'total' by exchanging x and y. For vec_corr 'none' the in-focus plane is brightest at pixel (size//2, size//2); with the default z grid the in-focus plane is index zsize//2 and mirroring the stack about it leaves it unchanged. A SheppardPSF's intensity is unchanged by inversion through its central voxel and, for vec_corr 'none', by mirroring any axis about it.",
["inputs","configurations"],"all optical parameters, both size parities, all vec_corr and condition values",
"No test looks at where a PSF sits or at odd sizes, where every off-by-one in centring shows.",
["pyotf/otf.py","pyotf/utils.py"],[("z grid","HanserPSF._gen_zrange"),("frequency grid and shift","HanserPSF._gen_kr/_gen_psf"),("centred inverse transform","SheppardPSF.PSFa, utils.easy_ifft")],["PSFi","zrange"])

p("C08","Aberrations multiply the pupil by Zernike phase and magnitude terms",
"apply_aberration(model, mcoefs, pcoefs) returns a new model whose PSF is that of the pupil (|ideal pupil| + sum_j mcoefs[j]*Z_(j+1)) * exp(i*sum_j pcoefs[j]*Z_(j+1)) with Noll-ordered Zernike polynomials of r=kr*wl/na and theta the azimuth of the lateral frequency; a missing list counts as zeros, mismatched lengths and non-Hanser models raise, and the input model and coefficient arrays are left untouched. The named forms put each named aberration's magnitude at its Noll index (several names add up), and unknown names raise KeyError.",
["inputs","configurations"],"all coefficient values and list lengths, all optical parameters, all aberration names and magnitudes",
"Only the coefficient vector for the name 'tip' with magnitude 1 is tested; apply_aberration is never called by a test.",
["pyotf/otf.py","pyotf/zernike.py"],[("pupil synthesis","otf.apply_aberration"),("name lookup","otf.named_aberration_to_pcoefs, zernike.name2noll"),("several names","otf.apply_named_aberrations")],["returned model's PSFa","input model"])

p("C09","Noll index and (n, m) degrees map one to one, as Noll defined",
"For every Noll index in the supported range 1..120, noll2degrees gives the (n, m) of Noll's 1976 ordering (n-|m| even, |m|<=n, positive m for even indices and negative m for odd ones when m is not zero) and degrees2noll maps it back, element by element for arrays of any shape. Indices below 1, non-integer inputs, and degree pairs that no Zernike polynomial has (odd n-m, or |m|>n) raise ValueError, and anything beyond the supported range raises instead of returning an index.",
["inputs"],"all integers and integer pairs",
"test_indices draws 10 random indices below 36 and the mapping tests list the first 10; the table has 120 entries and invalid pairs are tried for one parity case only.",
["pyotf/zernike.py"],[("lookup table and closed form","zernike.noll_mapping, noll2degrees, degrees2noll")],["returned degrees and indices","exceptions"])

p("C10","zernike() returns exactly the Zernike polynomials on the unit disk",
"For every r>=0, theta and every supported Noll index (or valid (n, m)), zernike equals N*R_n^|m|(r)*cos(m*theta) for m>=0 and N*R_n^|m|(r)*sin(|m|*theta) for m<0 where r<=1, and 0 where r>1, with the standard radial polynomials and N=sqrt(n+1) for m=0, sqrt(2(n+1)) otherwise (N=1 with norm=False); a pair with n-|m| odd gives 0. The Noll, (n, m) tuple of sequences and separate n, m call forms agree, a sequence of orders gives one array per order in the given order, results have the shape of r (axes of length 1 dropped), integer and float inputs agree, and negative r or |m|>n raises ValueError.",
["inputs"],"all r, theta; all 120 polynomials; all call forms",
"Tests check norms of the first 15 polynomials numerically and finiteness at random points; sign, ordering, the r=1 edge and the other 105 polynomials are open.",
["pyotf/zernike.py"],[("radial part","zernike._radial_zernike"),("angular part and norm","zernike._zernike"),("argument handling","zernike.zernike")],["returned array"])

p("C11","easy_fft and easy_ifft are centred transforms and exact inverses",
"For every complex array of every shape (odd or even along each axis) and every choice of axes, easy_fft is the DFT with zero position and zero frequency at index n//2 of each transformed axis, easy_ifft is the inverse of easy_fft and easy_fft the inverse of easy_ifft, and axes not named are left alone. Neither modifies its input.",
["inputs","configurations"],"all array contents, shapes, parities and axes",
"No test calls either function directly; the package uses them on even sizes in the tests, where wrong shift order cancels out.",
["pyotf/utils.py"],[("shift order","utils.easy_fft, utils.easy_ifft")],["returned array"])

p("C12","fft_pad gives the requested shape and keeps the data, reversibly",
"For every array and every positive target size per axis (larger, equal or smaller; an integer for all axes, a sequence, or None entries meaning unchanged), fft_pad returns exactly that shape, in which the data appears as one contiguous block whose sample at index (n+1)//2 of the old axis sits at (m+1)//2 of the new one, any extra samples being filled according to mode. Padding to a larger shape and back with fft_pad restores the original exactly, and with no shape given each axis grows to the smallest 5-smooth size not below it.",
["inputs","configurations"],"all old and new sizes, all contents",
"The doctest lists five size pairs of the helper; fft_pad itself is never tested.",
["pyotf/utils.py"],[("split of the padding","utils._calc_pad"),("crop part","utils._calc_crop"),("assembly","utils._padding_slices, utils.fft_pad")],["returned array"])

p("C13","slice_maker cuts the requested window, clipped to the array start",
"For all real centres x and non-negative real widths w (one width for all axes or one per axis), with X and W their values rounded half to even, the slices select on an axis of any length exactly the indices i>=0 with X-W//2 <= i < X-W//2+W, never wrapping around to the end; a window wholly before the start selects nothing. Negative widths raise ValueError and complex input raises TypeError.",
["inputs"],"all centres, widths and axis lengths",
"Two doctest examples well inside positive territory; edges, rounding and negative starts are not tested.",
["pyotf/utils.py"],[("window arithmetic","utils.slice_maker, utils._calc_pad")],["returned slices"])

p("C14","bin_ndarray bins every element exactly once",
"For every array and every bin size or dividing target shape, each output element is the sum (or mean) of exactly the block of input elements it covers, trailing elements that do not fill a bin are dropped from the end, and the result has the requested or floor-divided shape; the total is conserved when nothing is dropped. A missing specification, an unknown operation or a shape with the wrong number of dimensions raises ValueError.",
["inputs","configurations"],"all contents, shapes, bin sizes and both operations",
"bin_ndarray has no test at all.",
["pyotf/utils.py"],[("crop and block reduction","utils.bin_ndarray")],["returned array"])

p("C15","Preparing measured data removes background, centres, and fits the size",
"For every stack of non-negative integers, whatever its integer type (signed, or unsigned up to 32 bits), remove_bg subtracts multiplier times the most frequent value (the smallest one on ties) without wrap-around, and center_data cyclically shifts the array so that its first maximum lands on index n//2 of every axis. prep_data_for_PR returns a non-negative (nz, xysize, xysize) array (xysize defaulting to the larger lateral size): background removed and clipped at zero, zero-padded when enlarging, and when an axis has to be cropped the brightest voxel sits at index xysize//2 of that axis (the stack is first centred as by center_data). psqrt is the square root with negatives mapped to 0 and cart2pol inverts x=rho*cos(theta), y=rho*sin(theta).",
["inputs","configurations"],"all data values, shapes, target sizes and multipliers",
"center_data and remove_bg each have one test on one kind of array; prep_data_for_PR has none, and cropping, odd sizes and non-square stacks are never run.",
["pyotf/utils.py"],[("mode","utils.remove_bg"),("recentring","utils.center_data"),("pad, crop, clip","utils.prep_data_for_PR"),("square root and polar coordinates","utils.psqrt, utils.cart2pol")],["returned arrays"])

p("C16","radial_profile is the exact mean and deviation of each ring",
"For every 2D array, centre and bin size, entry k of the result is the mean, and the population standard deviation, of precisely the samples whose distance from the centre (default: index n//2 of each axis) rounds to k (halves to even) after division by the bin size. Complex data give the complex mean and the root sum of squares of the two deviations.",
["inputs","configurations"],"all contents, shapes, centres and bin sizes",
"Its only test is a doctest on constant data, which fails on this tree's numpy because the function crashes.",
["pyotf/utils.py"],[("ring sums","utils.radial_profile")],["returned mean and deviation"])

p("C17","Phase retrieval iterates the documented projection and reports it truly",
"retrieve_phase starts from the ideal pupil and repeats: model the PSF, replace the modelled amplitude's magnitude by the square root of the data (negative data counting as 0) keeping its phase, transform back, undo the defocus, average over planes, restrict to the aperture (and, for phase_only, set the magnitude to 1). It stops at the first iteration whose mean squared error or relative error change is below mse_tol or whose relative pupil change is below pupil_tol, or after max_iters, and the reported histories have one entry per iteration done and hold those very quantities. The returned magnitude and phase are those of the last pupil, centred, zero outside the aperture, and data and params are not modified.",
["inputs","configurations"],"all data, tolerances, iteration limits, z planes and optical parameters",
"The integration test converges from one noise-free PSF on one even grid with tolerances 0; stopping rules, histories, phase_only, odd sizes and noisy data are not covered.",
["pyotf/phaseretrieval.py","pyotf/otf.py"],[("iteration","phaseretrieval.retrieve_phase"),("error","phaseretrieval._calc_mse"),("result","phaseretrieval.PhaseRetrievalResult")],["PhaseRetrievalResult mag, phase, mse, mse_diff, pupil_diff, model"])

p("C18","Zernike decomposition recovers the coefficients and reconstructs the pupil",
"For every retrieved pupil whose magnitude and phase inside the aperture are combinations of the fitted Zernike modes, fit_to_zernikes returns exactly those coefficients (magnitude and phase independently), for any number of modes the grid can resolve, one included; otherwise it returns the least-squares fit over the samples inside the aperture. The decomposition's mag, phase and complex_pupil are the linear combinations of precisely the modes chosen by the given slices, and generate_zd_psf is the PSF of that pupil.",
["inputs","configurations"],"all coefficient values, mode counts and slices",
"One integration test compares 11 of 15 coefficients of one retrieved pupil; slices, single modes and out-of-span pupils are not tested.",
["pyotf/phaseretrieval.py","pyotf/zernike.py"],[("fit","PhaseRetrievalResult.fit_to_zernikes, _fit_to_zerns"),("reconstruction","ZernikeDecomposition, _recon_from_zerns")],["mcoefs","pcoefs","mag","phase","complex_pupil","generate_zd_psf"])

p("C19","generate_psf reproduces the retrieved pupil's PSF on any grid asked for",
"generate_psf of a phase retrieval result returns the intensity of its model's optics with the result's complex pupil, at the model's z planes or at the zsize or zrange asked for; with size given, the lateral grid is cropped or zero-padded to exactly that size with the old central pixel n//2 placed at the new central pixel size//2. The result and its model are not changed by generating PSFs.",
["inputs","configurations"],"all pupils, sizes of both parities, z choices, repeated calls",
"generate_psf is never called by a test.",
["pyotf/phaseretrieval.py"],[("model copy, crop, pad","PhaseRetrievalResult._generate_psf")],["returned PSF","result.model"])

p("C20","A microscope PSF is the detector-binned, normalised model PSF",
"For every model PSF, pixel size and odd oversampling factor f, a WidefieldMicroscope's PSF sums to 1 and each of its pixels is proportional to the sum of the model intensity over the f by f block of fine pixels centred on that detector pixel (blocks wrapping around the grid edge), with no binning in z; the central fine pixel falls in the centre of the central detector pixel for both size parities. The OTF is the centred DFT of the PSF, so it is 1 at its centre; even or non-positive oversampling factors and unknown model names are rejected.",
["inputs","configurations"],"all model intensities, sizes, parities and factors",
"No test imports the microscope module's classes.",
["pyotf/microscope.py","pyotf/utils.py"],[("super-pixel alignment and binning","WidefieldMicroscope.PSF, utils.bin_ndarray"),("fine grid set-up","WidefieldMicroscope.__init__")],["PSF","OTF"])

p("C21","Confocal PSF is excitation PSF times pinhole-blurred detection PSF",
"For every pair of detection and excitation intensities and every pinhole size p (in Airy units), the confocal PSF is, up to normalisation to sum 1, the excitation intensity times the detection intensity convolved laterally (same size, zero outside) with a uniform disk of radius p*1.22*wl/na/res/2 fine pixels: all pixels with centre distance below the radius, equal weights. A radius not above 1.5 pixels counts as a point pinhole, i.e. no convolution.",
["inputs","configurations"],"all intensities, pinhole sizes, optical parameters",
"No test imports the microscope module's classes.",
["pyotf/microscope.py"],[("pinhole","microscope._disk_kernel"),("product","ConfocalMicroscope.model_psf")],["PSF"])

p("C22","SIM PSFs follow the two- and three-beam interference patterns",
"For every model intensity and every excitation NA, wavelength and orientation list, the SIM PSF is, up to normalisation to sum 1, the model intensity (Wiener-filtered when wiener is not None: OTF of value |O|**2/(|O|**2+wiener**2*max|O|**2), or the support of O for 0) times the intensity of the interference of plane waves at angles +-asin(na_exc/ni) in the oriented plane, plus an axial wave for 3D and lattice SIM, with phases zero at the central voxel n//2 of each axis; orientations add as intensities for 2D and 3D SIM and as fields for lattice SIM. dc_suppress subtracts (2*len(orientations)-1) times the filtered model intensity for 2D and 3D SIM, and na_exc or wl_exc None means the detection na or wl.",
["inputs","configurations"],"all model intensities, excitation parameters, orientations and wiener values",
"No test imports the microscope module's classes.",
["pyotf/microscope.py"],[("pattern synthesis","BaseSIMMicroscope.model_psf"),("variants","SIM2DMicroscope, SIM3DMicroscope, LatticeSIMMicroscope")],["PSF"])

p("C23","A microscope's PSF follows changes of its settings",
"After any sequence of reads of PSF and OTF and assignments to a microscope's settings (pinhole_size and wl_exc of a confocal; na_exc, wl_exc, wiener, orientations, dc_suppress, coherent and dc of a SIM microscope), PSF and OTF equal those of a microscope newly built with the current settings, and each setting reads back as the value last given. Negative or wrongly typed numbers, and flags that are not booleans, are rejected and change nothing.",
["histories","inputs"],"every interleaving of reads and assignments, and every assigned value",
"No test imports the microscope module's classes.",
["pyotf/microscope.py","pyotf/utils.py"],[("invalidation","WidefieldMicroscope._attribute_changed, utils.NumericProperty"),("excitation model","ConfocalMicroscope.model_exc")],["PSF","OTF","settings"],[("cached PSF and OTF","kept until a setting changes","instance __dict__")])

p("C24","Display extents and panels show the right axes",
"max_min(n, d) returns (lo, hi) with hi-lo=(n-1)*d and 0 on sample n//2, and fft_max_min(n, d) returns the smallest and largest DFT frequencies of n samples spaced d. psf_plot and otf_plot show in their XY, YZ and XZ panels the projection along (or, for slices, the central plane normal to) the remaining axis, with the extents of the two axes named. z_squeeze is the ratio (n1-sqrt(n1**2-na**2))/(n2-sqrt(n2**2-na**2)) with square roots of negatives taken as 0, and 1 for equal indices.",
["inputs","configurations"],"all sizes, spacings, indices; all image contents",
"Doctests give four extents; plotting and z_squeeze are untested.",
["pyotf/display.py"],[("extents","display.max_min, display.fft_max_min"),("panels","display.psf_plot, display.otf_plot"),("index mismatch","display.z_squeeze")],["returned extents","images handed to matplotlib"])

p("C25","Library calls leave their arguments unchanged",
"No public function or model operation modifies an array, list or dict passed to it, or a model passed to it: image helpers (fft_pad, center_data, remove_bg, prep_data_for_PR, bin_ndarray, radial_profile, easy_fft, easy_ifft, psqrt, cart2pol, slice_maker), zernike and its index maps, apply_pupil, apply_aberration and the named forms, retrieve_phase, and the microscopes reading their models. Reading a result twice gives the same values.",
["inputs","histories"],"all argument values and shapes, repeated calls",
"Tests pass temporaries and never look at an argument after the call.",
["pyotf/utils.py","pyotf/otf.py","pyotf/zernike.py","pyotf/phaseretrieval.py","pyotf/microscope.py"],[("copies before in-place updates","center_data, apply_aberration (copy.copy), retrieve_phase, model_psf implementations")],["arguments after the call"])

p("C26","The LabVIEW entry point is retrieve_phase on prepared data",
"labview(data, wl, na, ni, res, zres, max_iters, pupil_tol, mse_tol, phase_only) returns, as nested lists, exactly the phase that retrieve_phase gives for prep_data_for_PR(data) with those optical parameters and those settings, each argument reaching the parameter of its name, with the documented defaults 200, 1e-8, 1e-8 and False; data may be given as nested lists.",
["inputs"],"all argument values",
"The module has no test.",
["pyotf/labview.py"],[("argument plumbing","labview.labview")],["returned lists"])

p("C27","The Apotome PSF is the model PSF weighted by its axial grid response",
"For every model intensity, the Apotome PSF is, up to normalisation to sum 1, the model intensity with each z plane multiplied by the magnitude of that plane's radially averaged lateral OTF at the ring of index L//2, where L is the Abbe frequency in frequency pixels, round(2*size*res*na/wl); for an oversampled grid the fine grid's size and res are meant.",
["inputs","configurations"],"all model intensities, sizes and optical parameters",
"No test imports the microscope module's classes; on this tree's numpy the class crashes.",
["pyotf/microscope.py","pyotf/utils.py"],[("axial profile","ApotomeMicroscope.model_psf"),("radial average","utils.radial_profile")],["PSF"])

p("C28","Plot methods show the model's own data at its own scale",
"plot_psf of a model or microscope shows psf_plot's panels of its intensity PSF, cut to the window about its brightest voxel of 16 axial resolutions (wl / (ni - sqrt(ni**2 - na**2))) by 32 lateral ones (wl / (2 na)), counted in steps between planes and pixels and clipped to the array; plot_otf shows otf_plot's panels of the magnitude of its OTF relative to the largest. Both use the pixel size and the step between the planes actually computed (that of zrange when one is given) as the scales of the axes. Plotting a HanserPSF whose planes are fewer than 3 or unevenly spaced raises RuntimeError, in every unit of length. otf_plot outlines the OTF's support: a circle of radius 2 na / wl, and in the axial panels four arcs of radius ni / wl joining the zero frequency with the lateral cutoff. Plotting changes nothing.",
["inputs","configurations"],"all images, optical parameters, scales and planes",
"No test calls a plot method.",
["pyotf/otf.py","pyotf/microscope.py","pyotf/display.py"],[("window and scale","BasePSF.plot_psf, BasePSF.plot_otf, WidefieldMicroscope.plot_psf, plot_otf"),("uneven planes","BasePSF._validate_zrange"),("outlines","display.otf_plot")],["images, extents and patches handed to matplotlib"])

p("C29","Phase retrieval recovers the pupil behind noise-free data",
"For every pupil without phase vortices and every noise-free through-focus stack of at least three planes simulated from it, retrieve_phase run long enough returns that pupil up to the physical ambiguities, with mean squared error tending to zero.",
["inputs"],"all smooth pupils",
"One random pupil is tested.",
["pyotf/phaseretrieval.py"],[("iteration","phaseretrieval.retrieve_phase")],["PhaseRetrievalResult"])

p("C30","Hanser and Sheppard models converge to the same intensity",
"As the grid is refined at fixed field of view, the normalised intensity PSFs of HanserPSF and SheppardPSF with equal parameters agree to any tolerance.",
["inputs","configurations"],"all optical parameters, in the limit of fine grids",
"No test compares the two models.",
["pyotf/otf.py"],[("both models","HanserPSF._gen_psf, SheppardPSF._gen_otf")],["PSFi"])
p("C31","Plots of a retrieval show its own pupil, histories and coefficients",
"plot of a PhaseRetrievalResult, and of a ZernikeDecomposition with any mode slices, draws the phase under the title 'Pupil Phase', hidden exactly where the magnitude is 0, and the magnitude under 'Pupil Magnitude', on the first and second of the axes when axes are given. plot_convergence draws mse, mse_diff and pupil_diff, one point per iteration, under 'Mean Squared Error', 'Relative Change in MSE' and 'Relative Change in Pupil'. plot_coefs draws one bar per mode at its Noll index with the height of its magnitude or phase coefficient, and plot_named_coefs the phase coefficients of Noll indices 5 to 15, as far as they were fitted, over their classical names, whatever the number of fitted modes. Plotting changes nothing.",
["inputs","configurations"],"all pupils, histories, coefficients and numbers of modes",
"No test calls a plot method.",
["pyotf/phaseretrieval.py","pyotf/zernike.py"],[("plots","PhaseRetrievalResult.plot, plot_convergence, ZernikeDecomposition.plot, plot_coefs, plot_named_coefs, _plot_complex_pupil"),("names","zernike.noll2name")],["curves, bars, images and titles handed to matplotlib"])

p("C32","The printed form of a model or microscope states its current settings",
"repr of a HanserPSF or SheppardPSF is a call of its class that gives, each under its own name, the current values of wl, na, ni, res, size, zres, zsize, vec_corr, condition and zrange (Hanser) or dual (Sheppard), whatever was assigned before. repr of a microscope likewise gives its model's name, the na, ni, wl, size (that of the detector's grid, whatever the oversampling), pixel_size, oversample_factor and further model arguments it was built with, and the current values of its own settings: wl_exc and pinhole_size of a confocal, na_exc, wl_exc, wiener, dc_suppress and orientations of a SIM microscope.",
["inputs","configurations","histories"],"all parameter values and assignments",
"No test prints a model.",
["pyotf/otf.py","pyotf/microscope.py"],[("models","BasePSF.__repr__, HanserPSF.__repr__, SheppardPSF.__repr__"),("microscopes","WidefieldMicroscope.__repr__, ConfocalMicroscope.__repr__, BaseSIMMicroscope.__repr__")],["repr() text"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,S)
print(len(P))
