#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, pathlib

OTF, UT, ZE, PR, MI, DI, LV = ("pyotf/otf.py", "pyotf/utils.py", "pyotf/zernike.py",
                               "pyotf/phaseretrieval.py", "pyotf/microscope.py",
                               "pyotf/display.py", "pyotf/labview.py")
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


p("C01", "Pupil-based (Hanser) PSF is the plane-wave superposition over the aperture",
  "For every valid optical configuration (wavelength, NA < index, pixel size below the Abbe limit, any lateral size, any set of z planes, every imaging condition and vector component) the amplitude PSF of HanserPSF at each requested plane equals the direct sum over the aperture |k| < NA/wavelength of plane waves with axial frequency sqrt((n/wavelength)^2 - |k|^2), weighted by the imaging-condition factor (1, cos^-1/2 or cos^-1 of the ray angle) and by the vector factors of the requested dipole component(s). The same holds when an arbitrary complex pupil, given on the unshifted frequency grid, is applied in place of the ideal aperture. The intensity PSF is the sum of squared moduli over the vector components.",
  ["inputs", "configurations"], "all valid parameter combinations, all pupils supported on propagating frequencies",
  "otf_test.py builds one configuration and checks dtypes, shapes and positivity only; no test compares any PSF value with the model, and no vector/condition combination other than the default is run.",
  [OTF, UT], [("HanserPSF._gen_kr/_gen_pupil/_calc_defocus/_gen_psf/apply_pupil", OTF), ("cart2pol, psqrt", UT)],
  ["HanserPSF.PSFa", "HanserPSF.PSFi", "HanserPSF.apply_pupil"])

p("C02", "3D-shell (Sheppard) amplitude OTF is exactly the weighted spherical cap",
  "For every valid configuration the amplitude OTF of SheppardPSF is non-zero only at the frequency samples that lie within one frequency voxel (its extent along the sample's own direction) of the sphere of radius n/wavelength and whose axial frequency exceeds the NA edge sqrt(n^2-NA^2)/wavelength by more than one voxel; with dual objectives the mirrored cap is included as well (with angles to its own objective's axis). At each such sample its value is the imaging-condition factor (1, cos^-1/2 or cos^-1 of the ray angle, also when no vector correction is requested) times the vector factor of the component, and the amplitude PSF is its centred inverse Fourier transform.",
  ["inputs", "configurations"], "all valid parameter combinations, cubic and anisotropic grids, single and dual objectives",
  "otf_test.py only checks dtypes, positivity and that zres can be assigned on one cubic configuration.",
  [OTF, UT], [("SheppardPSF._gen_kr/_gen_otf/OTFa/PSFa", OTF), ("easy_ifft", UT)],
  ["SheppardPSF.OTFa", "SheppardPSF.PSFa"])

p("C03", "PSF/OTF quantities are mutually consistent, physical and band limited",
  "For every configuration of either PSF model the intensity PSF is real and non-negative and equals the summed squared modulus of the amplitude PSF, each OTF is the centred discrete Fourier transform of the matching PSF (so the intensity OTF is Hermitian and its centre sample is the total intensity), and the intensity OTF vanishes outside the lateral cutoff 2NA/wavelength when the grid resolves it. The x, y and z vector intensities add up to the 'total' one. For HanserPSF every plane carries the same total intensity, including after any phase-only pupil, and 'total' carries exactly twice the energy of the scalar model with the same imaging condition.",
  ["inputs", "configurations"], "all configurations, both models, all grid parities",
  "The tests check non-negativity and dtypes on one even-sized configuration per model; none of the conservation, symmetry or transform identities is asserted.",
  [OTF, UT], [("BasePSF.PSFi/OTFi, HanserPSF.OTFa, SheppardPSF.PSFa", OTF), ("easy_fft/easy_ifft", UT)],
  ["PSFa", "PSFi", "OTFa", "OTFi"])

p("C04", "The two PSF models describe the same microscope",
  "For the same well-sampled configuration (at least five depths of focus axially and ten resolution lengths laterally) HanserPSF and SheppardPSF produce the same intensity PSF up to discretisation: around the focus their normalised correlation is above 0.88, and in the focal plane above 0.95, and for all corrections but 'z' both have their maximum at the focus voxel; with the 'x' and 'y' corrections both foci are elongated along the same lateral axis. Their intensity OTF magnitudes correlate above 0.8.",
  ["inputs", "configurations"], "all well-sampled configurations, vector components and imaging conditions",
  "No test compares the two models; the README states they are mathematically equivalent.",
  [OTF], [("HanserPSF", OTF), ("SheppardPSF", OTF)], ["HanserPSF.PSFi/OTFi", "SheppardPSF.PSFi/OTFi"])

p("C05", "PSF models never return stale results after parameter changes",
  "After any sequence of valid parameter assignments, rejected assignments, pupil applications, copies and reads in any order, every PSF and OTF a HanserPSF or SheppardPSF returns equals that of a freshly built model with the current parameters. An applied pupil determines the outputs until the next parameter change, and a rejected assignment changes nothing. No operation on one model, or on a copy of it, changes what another model returns.",
  ["histories"], "all finite histories of assignments, reads, copies, pupil applications and rejected assignments over several models",
  "The only history test changes size and z range once on one model and looks at array shapes.",
  [OTF, UT], [("BasePSF._attribute_changed and cached properties", OTF), ("NumericProperty.fset", UT)],
  ["attribute assignment", "PSFa/PSFi/OTFa/OTFi reads", "copy.copy"])

p("C06", "Invalid parameters are rejected and leave the object unchanged",
  "Lateral pixel sizes that are not positive or reach the Abbe limit wavelength/(2 NA), non-positive z steps, shell-model z steps reaching wavelength/(2n), unknown imaging conditions, vector components or PSF model names, wrongly typed or negative numbers, even oversampling factors, negative Wiener parameters, non-square phase-retrieval data and non-positive iteration limits are all rejected with an exception, at construction and on assignment; values just inside these limits are accepted. A rejected assignment leaves every parameter and every result as it was.",
  ["inputs", "histories"], "all invalid and boundary values, at construction and in any object state",
  "One test asserts one too-large pixel size per model; none checks boundaries, other parameters, or that the object survives the rejection unchanged.",
  [OTF, UT, MI, PR], [("NumericProperty, res/zres/vec_corr/condition/dual setters", OTF), ("_choose_model, constructors", MI), ("retrieve_phase preconditions", PR)],
  ["constructors", "attribute assignment"])

p("C07", "Each z plane depends only on its own z; zsize/zres define the z range",
  "A plane of a HanserPSF depends only on its own z value: computing any selection, permutation, repetition or single scalar plane gives the same planes as computing them separately, and the number of planes equals the number of z values. When no z range is given (and again after z size or z step is assigned) the planes are z size equispaced samples with focus z = 0 at index zsize // 2. The caller's z array is neither modified nor aliased.",
  ["inputs", "histories"], "all z sets (unsorted, repeated, scalar, integer, negative) and all reassignments",
  "One test assigns a three-plane and a scalar z range and checks the shape.",
  [OTF], [("HanserPSF.zrange/_gen_zrange/zsize/zres setters, _calc_defocus", OTF)],
  ["HanserPSF.zrange", "HanserPSF.PSFa/PSFi"])

p("C08", "PSFs are centred on sample n // 2 and have the symmetry of their optics",
  "For every even or odd grid size the unaberrated PSF of both models and of every microscope is point symmetric about the sample with index size // 2 along every axis (the binned pixel size // 2 with oversampling), and with scalar optics, detection positive everywhere, no Wiener filter and no oversampling that sample is the maximum. PSFs of the models, the widefield and the confocal microscope are mirror symmetric in x, y and z, unchanged by swapping x and y for the 'none', 'z' and 'total' corrections, and swapping x and y exchanges the 'x' and 'y' corrections.",
  ["inputs", "configurations"], "all sizes and parities, models, microscopes, oversampling factors",
  "All tests use even sizes and none looks at the position or symmetry of the PSF.",
  [OTF, UT, MI], [("fftshift use in HanserPSF/SheppardPSF, easy_ifft", OTF), ("bin shift and SIM coordinates", MI)],
  ["PSFi", "PSF"])

p("C09", "Results depend only on length ratios, not on the length unit",
  "Multiplying all lengths given by the user (wavelengths, pixel size, z step, z range) by the same positive factor leaves PSFs, OTFs, aberrated PSFs, microscope PSFs, retrieved pupils and accept/reject decisions (including the refusal to plot non-uniform z ranges) unchanged.",
  ["inputs", "configurations"], "all positive unit factors over many orders of magnitude, all entry points taking lengths",
  "Each test uses one unit (nanometres).",
  [OTF, MI, PR], [("kr/kz/diffraction-limit computations, res and zres checks, _validate_zrange", OTF), ("airy unit and SIM frequencies", MI)],
  ["PSFa/PSFi/OTFi", "microscope PSF", "retrieve_phase result"])

p("C10", "Aberrations multiply the pupil by the requested Zernike phase and magnitude",
  "Applying Noll-ordered magnitude and phase coefficients to a HanserPSF gives the PSF of the pupil (aperture + sum m_j Z_j) exp(i sum p_j Z_j), with Z_j the RMS-normalised Zernike modes over the unit disk reaching the diffraction limit NA/wavelength, and nothing outside the aperture (which ends just short of the limit itself); named aberrations do this for the single matching mode and a dictionary of names for their sum, independent of its order. The given model and coefficient arrays are not modified, zero coefficients reproduce the ideal PSF, and unknown names are rejected. Phase-only aberrations conserve the energy of every plane, and tip/tilt only translate it.",
  ["inputs", "configurations"], "all coefficient vectors (phase, magnitude, both, one to 120 terms), all names and magnitudes, all models",
  "One test checks the coefficient vector of 'tip'; no aberrated PSF is ever computed through these functions.",
  [OTF, ZE], [("apply_aberration, apply_named_aberration(s), named_aberration_to_pcoefs", OTF), ("noll2name/name2noll", ZE)],
  ["apply_aberration(...).PSFa/PSFi", "input model"])

p("C11", "Zernike values equal the standard polynomials and are orthonormal on the disk",
  "For every radial degree n and azimuthal degree |m| <= n and every point, the evaluated Zernike function equals the standard radial polynomial times cos(m theta) (m >= 0) or sin(|m| theta) (m < 0), scaled to unit RMS over the disk by default and to the unnormalised polynomial (value 1 at the rim) with norm off; it is exactly zero for r > 1, included at r = 1, and identically zero when n - m is odd. Requesting by Noll index, by (n, m) pair or by sequences of either gives the same functions in request order, and the normalised modes are orthonormal over the unit disk. A request in which any mode has |m| > n, any radius is negative, the degrees differ in length or have more than one dimension (apart from one two-row array), or the coordinates have more than two is rejected with an exception.",
  ["inputs"], "all degrees up to the supported range, all points, all call forms",
  "Tests check the norm of 15 named modes and odd n-m zeros; the values of the polynomials are never compared with the definition.",
  [ZE], [("zernike/_zernike/_radial_zernike", ZE)], ["zernike(...)"])

p("C12", "Noll index mapping is the standard bijection and rejects invalid input",
  "Over the whole supported table (indices 1 to 120, radial degree up to 14) converting a Noll index to degrees gives Noll's standard pair (even index: m >= 0, odd: m <= 0, |m| growing within each degree), converting back returns the index, for scalars and arrays of any integer type that is signed and any shape, elementwise. The fifteen classical names map one-to-one to their standard modes. Non-integers, indices below one, degrees of opposite parity or |m| > n raise ValueError, and indices beyond the table never silently map to a mode.",
  ["inputs"], "all 120 indices, all degree pairs, all array shapes and signed integer types",
  "Tests cover the first ten entries and ten random indices below 36.",
  [ZE], [("noll_mapping/noll_inverse tables, noll2degrees, degrees2noll", ZE)], ["noll2degrees", "degrees2noll", "name2noll"])

p("C13", "Phase retrieval: misfit never grows, history and result are faithful",
  "For any non-negative image stack and parameters, the amplitude misfit between the data and the model of the current pupil never increases from one iteration to the next; the recorded mean squared errors and relative changes are those of the successive pupils (the first being the ideal aperture), the number of records is at most max_iters, and fewer only if one of the documented tolerances is met at the last record and at none before. Each pupil is the documented update of the previous one: measured magnitude with modelled phase, transformed, refocused, averaged over planes and masked, its magnitude dropped for phase_only. The returned pupil is zero outside the aperture, has unit magnitude inside it when phase_only is set, is the last pupil of the iteration, and reproduces the returned model's PSF and, when it stopped early, the last recorded error.",
  ["inputs", "configurations"], "all data, optical parameters, tolerances, iteration limits, phase_only settings",
  "The integration test runs one even, square, noise-free data set for a fixed 400 iterations with tolerances zero and looks only at the end result.",
  [PR, OTF], [("retrieve_phase loop, PhaseRetrievalResult", PR), ("HanserPSF.apply_pupil/_calc_defocus", OTF)],
  ["retrieve_phase(...).mag/.phase/.mse/.mse_diff/.pupil_diff/.model"])

p("C14", "Phase retrieval recovers the pupil that generated the data",
  "For noise-free defocus stacks generated from a smooth pupil with moderate aberrations and diverse, not mirror-symmetric planes, phase retrieval converges to the generating pupil up to a constant phase: normalised pupil overlap above 0.999 and simulated PSF error reduced by orders of magnitude, for any grid size, defocus set and intensity scale, in full and phase-only mode. Data from the ideal aperture are recognised immediately, and scaling the data by c scales the retrieved magnitude by sqrt(c) and leaves the phase unchanged. The phase is returned unwrapped: wherever the retrieved pupil can be continued from sample to sample without ambiguity, neighbouring samples inside the aperture differ by less than pi.",
  ["inputs", "configurations"], "all smooth pupils of moderate strength, plane sets and scales",
  "The integration test covers one seed, one configuration.",
  [PR, OTF], [("retrieve_phase", PR)], ["retrieve_phase(...)"])

p("C15", "Zernike fits of a result and PSFs regenerated from it are exact and consistent",
  "Fitting any number of modes (1 to 120) to a retrieval result gives the independent least-squares coefficients of its phase and magnitude over the aperture (samples inside the diffraction limit, none exactly on it) in Noll order, so the ideal pupil is its first mode alone on every grid and a pupil composed of fitted modes is recovered exactly, and any slice of modes reconstructs exactly their weighted sum, also after coefficients were edited. Regenerating a PSF from the retrieved pupil or from the fit gives the model PSF of that pupil, at any requested z planes, cropped or zero padded about the centre sample (index size // 2) to any requested size, and changes neither the result nor its model.",
  ["inputs", "histories"], "all mode counts, slices, sizes, z selections and call orders",
  "The integration test fits 15 modes to one result; slices, sizes, z selection and other counts are never exercised.",
  [PR, ZE], [("PhaseRetrievalResult.fit_to_zernikes/_generate_psf, ZernikeDecomposition", PR)],
  ["zd_result.mcoefs/pcoefs/phase/mag/complex_pupil", "generate_psf", "generate_zd_psf"])

p("C16", "Data preparation subtracts the background, clips, and pads or crops as asked",
  "For any stack of non-negative integers the prepared data have the shape (nz, s, s) with s the requested size (or the larger lateral size), equal the data minus multiplier times their most common value with negatives set to zero, and never wrap around for any integer type or multiplier. When padding, the image is kept whole, centred to within one pixel and surrounded by zeros; when cropping, the brightest voxel is at the centre sample of every axis and the surrounding pixels are those of the (cyclically shifted) data. The input is not modified.",
  ["inputs"], "all integer stacks and types, shapes (odd, even, non-square), sizes and multipliers",
  "One test checks background removal on seven numbers; the preparation function itself is never called.",
  [UT], [("prep_data_for_PR, remove_bg, center_data, fft_pad, slice_maker", UT)], ["prep_data_for_PR(...)", "remove_bg(...)"])

p("C17", "Shifted Fourier transforms are exact, mutually inverse and unitary up to scale",
  "For every array shape (even and odd), dtype and choice of axes, easy_fft equals the discrete Fourier sum with the origin of both domains at index n // 2 along the transformed axes and leaves the others alone, and easy_ifft is its exact two-sided inverse. Hence a delta at the centre transforms to a constant, energy is preserved up to the number of samples, and real input gives a Hermitian result.",
  ["inputs"], "all shapes, parities, dtypes, axes selections",
  "No test calls either function directly; all tests use even sizes.",
  [UT], [("easy_fft/easy_ifft", UT)], ["easy_fft(...)", "easy_ifft(...)"])

p("C18", "Padding, cropping, slicing, centring and binning conserve and place data exactly",
  "For any array: padding or cropping to a new shape keeps the retained samples contiguous, in order and split between both ends to within one sample, cropping back what was padded restores the array, and by default each axis becomes the next fast FFT length; a window slice has exactly the requested width centred on the given point wherever it fits and is clipped, never wrapped, at the borders. Centring on the maximum is a cyclic shift that puts it at index n // 2 of every axis. Binning conserves the sum (or mean) of every block and drops only the trailing remainder; a new shape that does not divide the old one is refused. Padding is filled as the chosen padding mode and its options say; complex positions or widths and a negative width along any axis are rejected.",
  ["inputs"], "all shapes, dimensions, sizes, positions and dtypes",
  "Doctests fix a handful of padding pairs and two slices; centring is tested for one random 2D point, binning not at all.",
  [UT], [("_calc_pad/_padding_slices/fft_pad, slice_maker, center_data, bin_ndarray", UT)],
  ["fft_pad", "slice_maker", "center_data", "bin_ndarray"])

p("C19", "Radial profile is the mean and spread over rings of rounded radius",
  "For any real or complex 2D array, centre and bin size, entry i of the radial profile is the mean, and of the spread the population standard deviation, of exactly the samples whose distance from the centre (index n // 2 by default) rounds to i bins; empty rings are NaN and all others finite. Integer data give the same result as the same data in floating point, and for complex data real and imaginary parts are averaged separately with their spreads added in quadrature.",
  ["inputs"], "all 2D shapes, dtypes, centres, bin sizes",
  "The only example (a doctest) does not even run with current numpy at the pinned commit.",
  [UT], [("radial_profile", UT)], ["radial_profile(...)"])

p("C20", "Widefield, confocal and apotome PSFs follow their imaging model, normalised",
  "For every configuration the microscope PSF sums to one, its OTF is its centred Fourier transform, and it is the detector-pixel binning (odd oversampling, lateral only, centred on the detector pixel) of the imaging model at full grid: the intensity PSF for widefield; for confocal the excitation PSF at the excitation wavelength times the emission PSF convolved with a uniform pinhole disk of the requested diameter in Airy units (1.22 wavelength/NA), pinholes up to 1.5 pixels radius being points; for apotome the intensity PSF times one non-negative weight per plane, that plane's normalised OTF at half the cutoff. The simulated grid has the requested detector size, with z neither oversampled nor binned, on the planes of the given zsize and zres or of a given zrange.",
  ["inputs", "configurations"], "all optics, oversampling factors, grid parities, pinhole sizes, wavelengths, both PSF models",
  "No test imports the microscope module.",
  [MI, UT], [("WidefieldMicroscope.PSF/OTF, ConfocalMicroscope.model_psf, _disk_kernel, ApotomeMicroscope.model_psf", MI), ("bin_ndarray, radial_profile", UT)],
  ["microscope.PSF", "microscope.OTF", "microscope.model_psf"])

p("C21", "SIM PSFs are the detection PSF times the interference pattern",
  "For every configuration the PSF of the 2D, 3D and lattice SIM microscopes is, normalised to unit sum and binned as for widefield, the detection PSF (Wiener filtered with the given parameter, its pure support for zero, unfiltered for None) times the intensity of two plane waves at plus and minus the excitation NA in each orientation, with an axial DC wave for 3D and lattice: summed over orientations for 2D and 3D, interfering coherently for lattice. With DC suppression (2 N - 1) detection PSFs are subtracted in the incoherent modes. The pattern lies on the planes of the PSF, also those of a given zrange, with its maximum on the PSF centre; omitted excitation NA or wavelength default to the detection ones.",
  ["inputs", "configurations"], "all optics, orientation sets, Wiener parameters, DC options, oversampling, grid parities",
  "No test imports the microscope module.",
  [MI], [("BaseSIMMicroscope.model_psf and subclasses", MI)], ["microscope.PSF", "microscope.model_psf"])

p("C22", "Microscopes never return stale results after their settings change",
  "After any sequence of reads and assignments of a microscope's own settings (pinhole size, excitation wavelength and NA, coherence, DC inclusion and suppression, Wiener parameter, orientations, oversampling) its PSF and OTF equal those of a newly built microscope with the current settings. Rejected assignments change nothing, and microscopes do not influence each other.",
  ["histories"], "all finite histories of setting changes, rejected changes and reads over several microscopes",
  "No test imports the microscope module.",
  [MI, UT], [("WidefieldMicroscope._attribute_changed, NumericProperty, cached PSF/OTF", MI)],
  ["attribute assignment", "PSF/OTF reads"])

p("C23", "Calls have no side effects on inputs or global state and are repeatable",
  "No public function or method modifies the arrays, dictionaries or models it is given (other than the object it is documented to change), returns memory shared with an input array, or changes process-wide state (numpy error handling, random state, print options, warning filters, matplotlib settings, working directory). Repeating a call, in any order with other calls, gives the same result, also after the caller has overwritten arrays that functions returned earlier; a call with new contents in the same argument objects gives the result for the new contents.",
  ["inputs", "histories"], "all public entry points, all argument kinds, all interleavings of calls",
  "Tests never compare an input before and after a call, nor call anything twice.",
  [OTF, UT, ZE, PR, MI, DI, LV], [("copying in apply_aberration, center_data, retrieve_phase, _generate_psf, fft_pad", UT)],
  ["every public call"])

p("C24", "Concurrent use from several threads gives the sequential results",
  "When several threads compute with separate models, microscopes, Zernike sets or retrievals at the same time, or read results of one shared unchanging object, every result equals the one obtained sequentially and no call fails, under every thread schedule.",
  ["schedules", "inputs"], "all thread schedules over all numerical entry points",
  "All tests are single threaded.",
  [OTF, ZE, UT, PR, MI], [("absence of mutable module state; per-object caches", OTF)], ["results per thread"])

p("C25", "Plots show the planes, extents and limits they are labelled with",
  "The XY, YZ and XZ panels of PSF plots show the maximum projections (or the central slices when asked) of the data over the remaining axis, oriented so that panels share their axes, with extents from the sample spacing (axially the step of the planes, whether given as zres or as zrange); OTF plots show the three central planes with Fourier extents and mark the lateral cutoff 2NA/wavelength and the n/wavelength caps. Plotting a model or microscope shows its own PSF around its maximum, or its OTF modulus normalised to one, does not change its results, honours the plotting options given (figure, colour map, interpolation, limits, gamma), and is refused when the z planes are not equispaced.",
  ["inputs", "histories"], "all 3D arrays (no symmetric special cases), spacings, models and microscopes",
  "Only two extent doctests exist; no figure is ever drawn by a test.",
  [DI, OTF, MI], [("psf_plot/otf_plot/max_min/fft_max_min", DI), ("BasePSF.plot_psf/plot_otf/_validate_zrange", OTF), ("WidefieldMicroscope.plot_psf/plot_otf", MI)],
  ["image arrays, extents, titles and patches of the returned axes"])

p("C26", "The LabVIEW entry point is the documented pipeline on plain lists",
  "For any non-negative integer stack, given as nested lists or array, and any optical parameters, tolerances, iteration limit and phase_only flag, the LabVIEW wrapper returns, as nested plain lists, exactly the phase obtained by preparing the data with the default settings and running phase retrieval with these parameters; the input is unchanged.",
  ["inputs"], "all stacks (square or not), parameters and option values, positional or keyword",
  "No test imports the wrapper.",
  [LV, UT, PR], [("labview()", LV)], ["labview(...)"])

p("C27", "Plot extents and refraction scaling match the sampling and geometry",
  "For any number of samples and spacing the real-space extent helper returns the coordinates of the first and last sample with the origin at index n // 2, and the Fourier-space helper does so for the discrete frequencies. The focal scaling between two refractive indices is the ratio of their axial bandwidths n - sqrt(n^2 - NA^2) (square root zero beyond the index), hence one for equal indices, reciprocal under exchange and multiplicative along a chain.",
  ["inputs"], "all sample counts, spacings, index pairs and NAs",
  "Two doctests each on the extent helpers, none on the scaling.",
  [DI], [("max_min, fft_max_min, z_squeeze", DI)], ["max_min", "fft_max_min", "z_squeeze"])

p("C28", "Retrieval diagnostics plots show the recorded history and coefficients",
  "The pupil plot shows the result's phase (masked where the magnitude is zero) and magnitude, the convergence plot the three recorded histories in full under their titles, and the coefficient plots one bar per fitted coefficient at its Noll number, the named plot exactly the named modes from Noll 5 on that were fitted, labelled with their names. Plots of a decomposition with a slice show exactly the reconstruction from those modes, and no plot changes the data it shows.",
  ["inputs", "histories"], "all results, mode counts and slices",
  "No figure is ever drawn by a test.",
  [PR], [("PhaseRetrievalResult.plot/plot_convergence, ZernikeDecomposition.plot*, _plot_complex_pupil", PR)],
  ["artists of the returned axes"])

p("C29", "Models, microscopes and results survive copying, pickling and other processes",
  "A deep copy or pickle round trip (any protocol, alone or inside containers, repeated) of a PSF model, microscope, retrieval result or Zernike decomposition, taken in any state - new, partly read, after accepted or rejected changes, with an applied pupil, before or after fitting - is of the same class, has the same settings and returns the same results as the original. From then on original and duplicate are independent: each follows its own changes and neither is affected by changes, reads or overwritten arrays of the other. A plain copy of a PSF model behaves the same, apart from sharing arrays that were already computed. A call made in another process, with its own hash seed, gives the result of the same call here, and objects sent there and back keep working.",
  ["inputs", "histories"], "all classes, states at the time of duplication, routes and later histories",
  "No test copies, pickles or sends anything.",
  [OTF, MI, PR], [("cached properties and parameter state of HanserPSF, SheppardPSF", OTF), ("WidefieldMicroscope and subclasses", MI), ("PhaseRetrievalResult, ZernikeDecomposition", PR)],
  ["copy.deepcopy", "pickle", "reads and assignments of the duplicates"])

p("C30", "Settings read back as given, with documented defaults and faithful repr",
  "Every setting of a PSF model (in the documented positional order or by keyword) and every own setting of a microscope reads back exactly as it was last given, also after results were read. Omitted settings take their documented defaults and give the results of the same object with the defaults spelled out: z step equal to the pixel size, z size equal to the lateral size, planes centred on the focus, no vector correction, sine condition, single objective; for microscopes z step and size of the detector; for SIM excitation NA and wavelength of the detection, pattern flags of the class and lattice orientations 0 and pi/2. The inner model of a microscope has the oversampled grid and the given optics. The representation of an object is a constructor call showing all its current settings; evaluating that of a model, widefield, confocal or apotome microscope builds an equal object.",
  ["inputs", "histories"], "all classes, subsets of omitted settings, argument styles and later changes",
  "Tests spell out every setting, and never print an object.",
  [OTF, MI, UT], [("constructors, parameter properties and __repr__ of the models", OTF), ("constructors, settings and __repr__ of the microscopes", MI), ("NumericProperty", UT)],
  ["attributes", "repr()", "PSF/OTF results"])

p("C31", "Coordinate, root and validated-attribute helpers are exact for every input",
  "cart2pol gives, for every pair of numbers or broadcastable arrays, the length of the vector (without overflow or underflow on the way) and its angle in (-pi, pi] in the order y, x; psqrt gives the square root of every non-negative value and exactly zero for every negative one, element by element and for real, integer and scalar input. A validated attribute (NumericProperty, int unless another type is named) refuses values of another type with a TypeError and negative ones with a ValueError, keeping the previous value, stores every valid one per instance, and announces a change to its owner exactly once per assignment that changes the value and never otherwise (given functions of its own instead of an attribute it acts as the property of these functions); reading it before it was set is an AttributeError. None of the helpers changes its arguments.",
  ["inputs", "histories"], "all numbers, shapes and types; all sequences of assignments",
  "Tests never call these helpers directly; the models exercise them with a few ordinary numbers.",
  [UT], [("cart2pol, psqrt, NumericProperty", UT)], ["return values", "attributes and change notifications"])

p("C32", "Results are computed when first read and once, and memory is given back",
  "Building a PSF model or microscope and assigning to its attributes computes no results (it allocates far less than one result array); PSFa, PSFi, OTFa, OTFi, PSF and OTF are computed when first read and until the next change every further read returns the very same memory. After a change an object holds no results of earlier states, so its memory is bounded by the results of one state however many states it went through. Nothing in the package keeps a model, microscope, retrieval result, Zernike fit, argument or returned array alive once its users dropped it (also after plotting, aberrating, generating and fitting), and repeating any public call with equal arguments does not accumulate memory.",
  ["histories", "inputs"], "all classes, all sequences of reads, assignments, calls and releases",
  "Tests read a result once and exit; recomputation on every read, or memory kept after release, shows up in none of them.",
  [OTF, MI, PR, UT, ZE, DI], [("BasePSF._gen_psf, PSFa, PSFi, OTFa, OTFi, _attribute_changed", OTF), ("BaseMicroscope PSF, OTF", MI), ("PhaseRetrievalResult", PR)],
  ["identity of the memory of repeated reads", "traced memory", "weak references"])

p("C33", "Results do not depend on how the given values are stored or passed",
  "Every public call gives the same result for the same values, whatever memory holds them: arrays in C or Fortran order, transposed, reversed or strided views of larger arrays, misaligned, of either byte order, read only, memory mapped or of an array subclass; integers of any signed type that holds them; settings given as Python or numpy floats or as integral floats (int where the number is whole), in any keyword order or unpacked from any mapping; z ranges, orientations, Noll numbers, shapes, centres and data stacks as lists, tuples or arrays. A call that works for one of these forms is not refused for another.",
  ["inputs"], "all memory layouts, types and containers of the same values",
  "Tests pass freshly made C ordered float arrays and plain keywords only.",
  [UT, ZE, OTF, PR, MI, DI], [("array helpers", UT), ("zernike, noll2degrees, degrees2noll", ZE), ("HanserPSF zrange and apply_pupil, apply_aberration", OTF), ("retrieve_phase", PR), ("settings of the microscopes", MI), ("psf_plot, otf_plot", DI)],
  ["return values and results of equal calls"])

p("C34", "What was computed before never changes a result",
  "The result of every public call depends only on its arguments and on the current settings of the objects it is given. In a long-lived process, after any number of other calls - with nearly equal arguments (the same samples in another order or shape, one sample or one late digit different, a sign flipped), with the same array, list or dictionary objects filled with new contents, with new objects in memory that earlier ones gave up, after the caller overwrote what earlier calls returned - it equals the result of the same call made first in a new process, and is refused exactly if it is refused there. Later calls never change what an earlier one returned.",
  ["histories", "inputs"], "all sequences of calls and all arguments, equal, nearly equal or reusing objects and memory",
  "Every test makes few calls with arguments far apart and compares with nothing computed in another process.",
  [UT, ZE, OTF, PR, MI, DI, LV], [("array helpers", UT), ("zernike", ZE), ("PSF models and aberrations", OTF), ("retrieve_phase and results", PR), ("microscopes", MI), ("plots", DI), ("labview", LV)],
  ["return values here and in a process forked before the package was called"])

p("C35", "Results do not depend on the state of the process or its surroundings",
  "Every public call gives the same result, and is accepted or refused alike, whatever the state of the process it is made in: numpy's error handling (ignored, warned about or passed to a function), buffer size and print options (except for the digits of arrays in representations), the random generators, warning filters (short of errors), logging of any level, the locale, figure settings and the figure backend, the working directory (even one that is gone), environment variables, replaced, closed or missing standard streams, the garbage collector, trace and profile functions, the workers of the Fourier transforms, the thread that calls. Nor does it depend on which module of the package was imported first, on the hash seed or the number of library threads, and what is accepted gives the same result in an optimised interpreter (-O). Calls write nothing to the standard output and leave no files behind.",
  ["configurations", "environments", "inputs"], "all calls in all states of process, interpreter and surroundings",
  "The tests run in one process with one interpreter, default settings and the same order of imports.",
  [UT, ZE, OTF, PR, MI, DI, LV], [("array helpers", UT), ("zernike", ZE), ("PSF models and aberrations", OTF), ("retrieve_phase and its loop and logging", PR), ("microscopes", MI), ("plots", DI), ("labview", LV)],
  ["return values in changed processes and other interpreters", "standard output and working directory"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
