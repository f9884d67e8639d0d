"""Writes /verif/properties.jsonl (the text of the properties lives here, once)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))


O, U, Z, R, M, D = ("pyotf/otf.py", "pyotf/utils.py", "pyotf/zernike.py", "pyotf/phaseretrieval.py",
                    "pyotf/microscope.py", "pyotf/display.py")

prop("C01", "Results of a PSF model always reflect its current parameters",
     "Whatever sequence of parameter assignments, applied pupils, copies and reads has gone before, every result (amplitude "
     "and intensity PSF and OTF) read from a PSF model equals the result of a freshly built model with the same current "
     "parameters, or with the same parameters and pupil when a custom pupil was applied after the last parameter change. "
     "A copy carries the state it was taken in and from then on neither model's assignments change the other's results. Reading "
     "results, in any order, never changes any parameter or result.",
     ["histories", "inputs"], "every interleaving of assigning any of the parameters, applying a pupil, copying and reading any of the four results",
     "The tests read results of freshly built models and a handful of single reassignments; stale caches need specific read/assign/copy sequences.",
     [O, U], [("attribute change invalidates the caches", O + ": BasePSF._attribute_changed, HanserPSF._attribute_changed"),
              ("NumericProperty setter", U + ": NumericProperty"), ("apply_pupil", O + ": HanserPSF.apply_pupil")],
     ["HanserPSF/SheppardPSF .PSFa .OTFa .PSFi .OTFi"],
     [("caches", "memoised results", O + ": _PSFa, _PSFi, _OTFa, _OTFi"), ("pupil", "custom pupil in force", O + ": apply_pupil")])
prop("C02", "Invalid PSF parameters are rejected and change nothing",
     "Constructing a PSF model with, or assigning, a value outside the documented domain (a wrong type, a negative number, a pixel size that is not "
     "positive or not below its sampling limit, an unknown correction or condition) raises "
     "TypeError or ValueError. A rejected assignment leaves every parameter and every result as it was. An accepted value reads back as given.",
     ["inputs", "histories"], "every parameter, every valid and invalid value class, in every reachable parameter combination",
     "Tests try only a few bad values on a fresh model and never look at the state after a rejection.",
     [O, U], [("validation in setters", O + ": property setters of BasePSF"), ("NumericProperty", U + ": NumericProperty.__set__")],
     ["constructors and attribute assignment of HanserPSF and SheppardPSF"])
prop("C03", "The axial samples follow the requested size, step or explicit range",
     "The axial positions of a model are spaced exactly by the axial step, as many as the axial size, with zero at index size//2, or are exactly the "
     "positions given when an explicit range (scalar or 1-D) was given last. The model keeps its own copy of a given range. "
     "The size of the results along z always equals the number of positions, and setting size or step "
     "afterwards returns to the regular spacing.",
     ["inputs", "histories"], "every axial size, step, explicit range and order of assigning them",
     "The tests use one or two sizes and never interleave range, size and step assignments.",
     [O], [("zrange/zsize/zres setters and _gen_zrange", O)], ["HanserPSF.zrange, .zsize, .PSFi.shape"])
prop("C04", "HanserPSF is the coherent sum over the pupil with exact vector factors",
     "For every parameter set, the amplitude PSF of the Hanser model at each position is the coherent sum over the pupil pixels inside the NA "
     "of the pupil value times the apodisation for the chosen condition, the vectorial factor for the chosen polarisation and the defocus phase "
     "at the chosen depth. Pixels outside the NA contribute nothing. Where the NA exceeds the index, the pixels that do not propagate count like the axial "
     "direction (no defocus phase, no apodisation). A custom pupil replaces exactly the ideal pupil.",
     ["inputs", "configurations"], "every grid size (odd and even), NA, index, condition, correction, custom pupil and depth",
     "The tests compare a few stored or mutual results within loose tolerances on one even grid.",
     [O], [("_gen_kr/_gen_pupil/_calc_defocus/_gen_psf", O + ": HanserPSF"), ("vector corrections", O + ": _gen_psf, apply_pupil")],
     ["HanserPSF.PSFa"])
prop("C05", "SheppardPSF is the spherical shell with its exact vector factors",
     "For every parameter set, the amplitude OTF of the Sheppard model is non-zero exactly on the sampled spherical shell within the NA, with the value given "
     "by the polarisation and apodisation factors of that point, and its amplitude PSF is the centred inverse transform of it. The dual model adds "
     "the mirrored cap and nothing else.",
     ["inputs", "configurations"], "every lateral and axial grid size, NA, index, condition, correction and dual flag",
     "The tests compare it only with the Hanser model, loosely, for a few settings, never for dual or odd grids.",
     [O], [("_gen_kr/_gen_otf", O + ": SheppardPSF")], ["SheppardPSF.OTFa, .PSFa"])
prop("C06", "The four results of a model agree with each other",
     "For every model, PSFi is the sum of the squared moduli of the components of PSFa, and OTFa and OTFi are the centred transforms of PSFa and PSFi; "
     "hence OTFi is the overlap of OTFa with itself, has its maximum at the centre and nothing beyond twice the cutoff. The x, y and z intensities add up to the total. Multiplying all lengths "
     "by one factor changes no result.",
     ["inputs", "configurations"], "every parameter set of both models and every order of reading",
     "The tests check symmetry or a sum rule on single parameter sets.",
     [O], [("PSFi/OTFa/OTFi properties", O + ": BasePSF")], ["PSFa, PSFi, OTFa, OTFi of both models"])
prop("C07", "Applying aberrations gives exactly the aberrated pupil on a new model",
     "Applying magnitude and phase coefficients to a Hanser model returns a new model whose pupil is (ideal pupil + sum of magnitude terms) times "
     "exp(i times the sum of phase terms) over the Noll-ordered Zernikes, and leaves the given model and its results unchanged. Named aberrations are the "
     "coefficient of that name's Noll index, several named aberrations add up whatever their order. Unknown names, mismatched "
     "lengths and models without a pupil are refused.",
     ["inputs", "histories"], "every coefficient vector, every subset and order of names, and models with any history (reads, earlier aberrations, parameter changes)",
     "The tests compare two equivalent calls on one model, not their values nor the original model.",
     [O, Z], [("apply_aberration, apply_named_aberration(s), named_aberration_to_pcoefs", O)], ["apply_aberration(...).PSFa"])
prop("C08", "The centred Fourier transforms are exact and invert each other",
     "The centred forward transform of an array of any shape is the discrete Fourier transform with the origin at index n//2 of every transformed axis "
     "in both domains, and the centred inverse undoes it exactly, over all axes or any chosen ones, in double precision whatever the numeric type of the data. Inputs are not modified.",
     ["inputs"], "every array, every size parity per axis and every choice of axes",
     "The tests use single shapes, mostly even.", [U], [("easy_fft/easy_ifft", U)], ["easy_fft, easy_ifft"])
prop("C09", "Padding and cropping for transforms is verbatim, balanced and undoable",
     "Padding an array for a Fourier transform gives exactly the requested shape (by default the next 5-smooth sizes), every axis being padded or cropped on its own, with the surviving data verbatim and contiguous and only new pixels filled, with what the mode asked for says (by default the median of each line). "
     "The surplus is split evenly, an odd one going in front of an even axis and behind an odd one, so that the centre stays the centre between sizes of equal parity. The slices reported for the inverse direction undo the padding exactly.",
     ["inputs"], "every pair of sizes (both parities) per axis, any dimension",
     "The tests try a few sizes, mostly of the same parity.", [U], [("_calc_pad, _padding_slices, fft_pad", U)], ["fft_pad"])
prop("C10", "slice_maker windows have the requested width around the centre",
     "For every centre and width, the slices made select on every axis the window of the requested width around the given position (both taken to the nearest integer), the extra element of an even width lying below it, "
     "clipped to the array at both edges, empty when entirely outside and never wrapping around. Negative widths, complex input and mismatched lengths are refused.",
     ["inputs"], "every centre, integer or not, and width per axis", "The tests try a few interior windows and one or two edges.",
     [U], [("slice_maker", U)], ["slice_maker"])
prop("C11", "PSF data are prepared by exact background removal, centring and fitting",
     "Data preparation subtracts the multiplied background estimate (the most frequent value), clips at zero, and returns the requested square lateral size: padding keeps every pixel verbatim, cropping first moves the brightest pixel to the centre cyclically and keeps the pixels around it. The data passed in are not changed, whatever their "
     "integer or floating type.",
     ["inputs"], "every data type, shape, position of the maximum, multiplier and requested size",
     "The tests run it on one fixture file.", [U], [("prep_data_for_PR, center_data, remove_bg, psqrt", U)], ["prep_data_for_PR"])
prop("C12", "Binning sums exactly the pixels of each bin",
     "Binning an array by an integer factor per axis (dropping an incomplete bin at the far end), or to a new shape that divides the old, gives at each position the sum or mean of exactly the "
     "pixels of that bin, for every number of dimensions. Unknown operations, missing targets and shapes that do not fit are refused.",
     ["inputs"], "every shape, factor and operation", "The tests try one array and one shape.", [U], [("bin_ndarray", U)], ["bin_ndarray"])
prop("C13", "The radial profile is the mean and deviation over each ring of pixels",
     "The radial profile about a centre gives for each ring the mean and standard deviation of exactly the pixels whose distance to the centre, in units of the bin size, is nearest to the ring's number (those half way between two rings together in one of them), for every shape, "
     "centre, bin size and type of a 2-D image, real or complex, each pixel counted once.",
     ["inputs"], "every 2-D image, centre, type and extent", "The tests compare one constant or symmetric image.", [U], [("radial_profile", U)], ["radial_profile"])
prop("C14", "Noll indices and Zernike degrees correspond one to one",
     "The map from Noll indices to (n, m) degrees is a bijection onto the valid degrees following Noll's ordering, and the two conversions are inverse to each other. The names used for "
     "aberrations agree with it. Indices below one and invalid degrees are refused.",
     ["inputs"], "every Noll index and every degree pair", "The tests compare the first few tabulated indices.", [Z],
     [("noll2degrees, degrees2noll, noll2name, name2noll", Z)], ["pyotf.zernike"])
prop("C15", "Zernike polynomials have exactly the tabulated values",
     "Every Zernike polynomial evaluated anywhere is the radial polynomial times the cosine or sine of its azimuthal part, normalised when asked so, and zero outside the unit disc. "
     "Values do not depend on how the modes are requested (single, list, any order or repetition, by index or by degrees) nor on the shape of the coordinates.",
     ["inputs"], "every mode, coordinate array and request form", "The tests compare a few low modes on one grid.", [Z],
     [("zernike, _radial_zernike", Z)], ["zernike"])
prop("C16", "Phase retrieval stops exactly when its stopping rule says",
     "Phase retrieval runs at least one and at most the given number of iterations, stopping at the first at which the relative pupil change, the relative error change or the error itself falls below its tolerance. The three reported histories have one entry per iteration "
     "performed, and each equals its definition; without an early stop a shorter run is a prefix of a longer one. Bad arguments (non-square data, no iterations) are refused.",
     ["inputs", "histories"], "every data set, pair of tolerances and iteration limit",
     "The tests run one data set to convergence with two tolerances.", [R], [("retrieve_phase loop", R)], ["PhaseRetrievalResult.mse, .mse_diff, .pupil_diff"])
prop("C17", "Each retrieval iteration enforces the data and pupil constraints exactly",
     "Every phase-retrieval iteration replaces the modelled magnitude with the measured one, keeps the modelled phase, refocuses and averages over the planes, and keeps only the aperture; with phase-only retrieval the pupil has "
     "magnitude one on the aperture. The result's magnitude and phase vanish outside it and describe the retrieved pupil. The caller's data and parameters are not modified.",
     ["inputs", "histories"], "every data set, axial sampling (even or odd), grid parity and number of iterations",
     "The tests only check that the final error on one simulated data set is small.", [R, O], [("retrieve_phase body", R), ("_calc_defocus", O)], ["PhaseRetrievalResult.mag, .phase, .complex_pupil, .model"])
prop("C18", "Retrieval results regenerate PSFs and Zernike fits faithfully",
     "The PSF regenerated from a retrieval result is that of the retrieved pupil, at the requested axial sampling, padded or cropped laterally around its centre pixel. Fitting Zernikes gives the least-squares coefficients within the aperture, recovers any "
     "pupil that is a combination of them, and reconstructions use exactly the selected coefficients. None of these calls changes the result object.",
     ["inputs", "histories"], "every pupil, number of modes, selection, size and axial range, in every order of calls",
     "The tests check that shapes come out for one result.", [R], [("_generate_psf, fit_to_zernikes, ZernikeDecomposition", R)], ["PhaseRetrievalResult.generate_psf, .generate_zd_psf, .fit_to_zernikes; ZernikeDecomposition"])
prop("C19", "A microscope PSF is the oversampled model integrated over its pixels",
     "A microscope's PSF has the requested size and pixel size, equals the model on the oversampled grid summed over square camera pixels whose central subpixel aligns with the model centre, has unit sum, and its OTF is its centred transform. "
     "The result is centred for every size parity and oversampling factor.",
     ["inputs", "configurations"], "every model, size parity, odd oversampling factor and pixel size",
     "The tests try one size with a few factors and check only sums or shapes.", [M, U], [("WidefieldMicroscope.__init__, .PSF, .OTF", M), ("bin_ndarray", U)], ["WidefieldMicroscope.PSF, .OTF"])
prop("C20", "Confocal, Apotome and SIM PSFs are composed exactly as their optics say",
     "The confocal PSF is the emission PSF, convolved with the pinhole disc when the pinhole is resolved, times the excitation PSF. The structured-illumination PSFs are the detection PSF (Wiener filtered when asked) times the intensity of the interfering beams of each orientation about the centre pixel, "
     "added coherently or not, with the dc part removed when asked; the apotome PSF is the widefield PSF weighted by its axial response at half the cutoff.",
     ["inputs", "configurations"], "every pinhole, wavelength pair, NA, set of orientations, flag combination, grid parity and oversampling",
     "The tests build each class once or not at all and check few values.", [M], [("model_psf of each microscope class, _disk_kernel", M)], ["ConfocalMicroscope, ApotomeMicroscope, SIM2DMicroscope, SIM3DMicroscope, LatticeSIMMicroscope .PSF"])
prop("C21", "Microscope results always reflect the current microscope settings",
     "Whatever sequence of assignments to a microscope's own settings (pinhole, excitation wavelength and NA, Wiener parameter, orientations, flags) and reads has gone before, its PSF and OTF equal those of a newly built microscope with the same settings. Invalid settings, factors and model names are refused and "
     "leave everything as it was.",
     ["histories", "inputs"], "every interleaving of assignments (valid or not) and reads, for every microscope class",
     "The tests never reassign a microscope setting after reading a result.", [M, U], [("_attribute_changed and property setters", M)], ["microscope settings, .PSF, .OTF"],
     [("PSF/OTF caches", "cached_property values", M)])
prop("C22", "Plots show the projections, sections and scales of the data",
     "The PSF plot shows in its XY, YZ and XZ panels the maximum projections (or, where asked for, the central sections) of exactly the given volume along the remaining axis; the OTF plot shows its central sections and the limits of the pass band; every panel is drawn over the range of positions (or frequencies) of its own two axes, so that it matches pixel size, axial step, orientation and origin, in the colours and limits asked for and in the figure given. "
     "The plot methods show the current results of the two models or microscopes. Plotting changes neither the data, the model nor global plot settings.",
     ["inputs", "configurations"], "every volume shape (anisotropic, odd and even), sampling, and pair of models/microscopes",
     "No test looks at what is drawn.", [D, O, M], [("psf_plot, otf_plot", D), ("plot_psf, plot_otf", O), ("plot_psf, plot_otf", M)], ["images, extents and labels of the figure"])
prop("C23", "The LabVIEW wrapper returns exactly the library's retrieved phase",
     "Calling the LabVIEW entry point with nested lists or arrays returns, as nested lists of plain numbers, exactly the phase that preparing the data and retrieving with the same parameters gives, honouring every optional argument in its documented position.",
     ["inputs"], "every data set, parameter set and optional argument, positional or by name", "No test calls the wrapper.",
     ["pyotf/labview.py"], [("labview", "pyotf/labview.py")], ["labview(...)"])
prop("C24", "The reported version describes the state of the source tree",
     "In a git checkout the reported version is the nearest tag of the history when the tree is exactly that commit, else that tag followed by the number of commits since, the commit, and a mark if tracked files have uncommitted changes (0+untagged... when there is no tag); commit id, date and dirty flag agree with it. "
     "In an unpacked archive it is the tag the archive's keywords name (0+unknown if none); without any git information it is 0+unknown. Each rendering style writes exactly the documented form, and the package's __version__ is the reported version.",
     ["histories", "configurations"], "every history of commits, merges, tags, checkouts and edits, and every form of source tree",
     "No test runs it outside the one checkout.", ["pyotf/_version.py"], [("git_pieces_from_vcs, render, git_versions_from_keywords, versions_from_parentdir, get_versions", "pyotf/_version.py"), ("__version__", "pyotf/__init__.py")], ["get_versions()", "pyotf.__version__"])
prop("C25", "The printed form of a model states its current parameters",
     "For every PSF model and microscope, after every history of valid and refused assignments, the printed representation is the class name with each constructor parameter and its current value (arrays as numpy prints them, to its precision and abridged when long; a microscope's parameters as given to it, its settings as they are now), such that constructing from it (leaving out what the class fixes itself) gives an object with the same parameters. Printing changes nothing.",
     ["inputs", "histories"], "every parameter set and every history of assignments", "The tests print one or two fresh objects and do not look.",
     [O, M], [("__repr__", O + ", " + M)], ["repr()"])

prop("C26", "Pictures of retrieval results show the pupil, fits and histories they name",
     "For every retrieval result and every sequence of plotting calls: the result's plot shows its phase (blank where the magnitude is zero, on a scale of one turn) and its magnitude, each with the bar of its colours; the plot of a fit shows the reconstruction from the selected modes, or all of them when none are selected; the convergence plot shows the three recorded histories under their names on a log scale; the coefficient plots show every coefficient at its Noll number, and the named one those from the fifth to at most the fifteenth under their classical names. Axes handed in are the ones drawn on, otherwise each call makes a figure of its own. Plotting changes neither the result nor its fits, nor earlier figures.",
     ["inputs", "histories"], "every result, selection of modes and order of plotting calls", "The tests call one or two of the plots and look at nothing on them.",
     [R], [("PhaseRetrievalResult.plot, plot_convergence, ZernikeDecomposition.plot, plot_coefs, plot_named_coefs", R)], ["plots"])

prop("C27", "Coordinates, positive roots, depth scaling and sample ranges are exact",
     "For every input: cart2pol gives the radius and the angle (above -pi, up to pi) of each point, with the shapes of numpy's broadcasting, such that radius times cosine is x and radius times sine is y; psqrt gives the square root of every positive number and zero for all others, in full precision for every type of number and shape of array; z_squeeze is the ratio of n1 - sqrt(n1^2 - NA^2) to n2 - sqrt(n2^2 - NA^2) (nothing taken off n where NA exceeds it), so 1 for equal indices, reciprocal when they are exchanged, and multiplicative over intermediate indices; max_min and fft_max_min are the positions of the first and last of n samples around the centre sample n // 2, in the pitch given and in that of the transform. Inputs are not modified.",
     ["inputs"], "every point, number, index, number of samples and pitch", "The tests compare a few random numbers with the same numpy expression.",
     [U, D], [("cart2pol, psqrt", U), ("z_squeeze, max_min, fft_max_min", D)], ["results"])

prop("C28", "Answers depend on the arguments only, and arguments and settings stay",
     "For every function of the library, and every model, microscope or retrieval made and read: whatever was called before, in whatever order, also when calls overlap in several threads, and whatever the user did to earlier answers, the same arguments give the same answer as in a fresh process. Calls do not modify their arguments (and accept read-only arrays) nor answers handed out earlier, and an answer shares no memory with the arguments (overwriting either leaves the other alone). They do not change numpy's error handling, printing options and random state, matplotlib's settings and figures made by others, warning filters, environment or working directory.",
     ["histories", "schedules", "inputs"], "every sequence and interleaving of calls", "Tests make one call of a kind per process and look at its answer alone; what is kept between calls shows only for particular pairs of calls or overlaps.",
     [U, Z, O, R, M, D, "pyotf/labview.py"], [("all public functions and constructors", "pyotf")], ["results, arguments, earlier results, global settings"])
prop("C29", "Copied and stored objects are whole and independent",
     "Every PSF model, microscope, retrieval result and Zernike decomposition can at any time be deep-copied or pickled and restored, in the same process or another, whatever was read or assigned before. The copy is of the same class, shows the settings and results the original had at that moment, and from then on neither notices assignments, fits or reads made on the other; what was written stays what it was.",
     ["histories"], "every interleaving of assignments, reads, copies, writes and fetches of several objects", "The tests copy nothing but a model behind an aberration, and pickle nothing.",
     [O, M, R, "pyotf/utils.py"], [("classes and their attributes", "pyotf/otf.py, pyotf/microscope.py, pyotf/phaseretrieval.py")], ["copies' settings and results"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
