"""Writes /verif/properties.jsonl (kept as code only so that the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})
PA='src/emva1288/process/parser.py'; LO='src/emva1288/process/loader.py'; DA='src/emva1288/process/data.py'
RE='src/emva1288/process/results.py'; RO='src/emva1288/process/routines.py'; PL='src/emva1288/process/plotting.py'
PI='src/emva1288/process/__init__.py'; RP='src/emva1288/report/report.py'; TP='src/emva1288/report/templates/'
CA='src/emva1288/camera/camera.py'; CR='src/emva1288/camera/routines.py'; PG='src/emva1288/camera/points_generator.py'
DG='src/emva1288/camera/dataset_generator.py'; BI='src/emva1288/camera/bad_images.py'

p("C01", "A well-formed descriptor is read exactly as written",
  "Parsing a well-formed descriptor yields exactly the declared series (two images: temporal, more: spatial) under their exposure time and photon count (0.0 for dark), each with its image files in declared order and resolved against the descriptor's directory (or the path the caller gives), together with the declared version, bit depth, width and height. Comments, blank lines, extra whitespace, line endings, the order of the series, '/' or '\\' in image paths and a decimal comma instead of a point do not change the result.",
  ["inputs"], "every descriptor built from a bounded alphabet of lines and spellings, every order of its series",
  "The tests parse two machine-generated descriptors that never contain comments, commas, mixed separators, reordered series or hand-written number forms.",
  [PA], [("line scanner and series collector", PA+":ParseEmvaDescriptorFile")], ["ParseEmvaDescriptorFile.images/.format/.version"])
p("C02", "A malformed descriptor is refused, never silently misread",
  "A descriptor with a series of fewer than two images, a second series for the same kind, exposure time and photon count, a second image-format line, an image line that belongs to no series, an image-format, bright, dark or image line with the wrong number of fields, a number that is not one, or bytes that are not text is refused with an error (ValueError or SyntaxError family). A line with an unknown command between series is skipped and changes nothing else.",
  ["inputs", "histories"], "every line sequence over the descriptor alphabet up to a length bound, against an automaton that says accept or refuse",
  "No test feeds a malformed descriptor; the raising branches are even excluded from coverage.",
  [PA], [("field-count, duplicate and series-length guards", PA+":_fill_info/_add_pcount/_get_images_filenames")], ["exception or parsed result of ParseEmvaDescriptorFile"])
p("C03", "Image stacks are reduced to exact integer sums and pseudo-variances",
  "For every stack of L images the reduction returns L, the exact per-pixel integer sum, the exact per-pixel integer pseudo-variance L*(L*sum of squares - square of sum), and the mean of the last image minus the mean of the first, without clipping or wrap-around at any supported pixel type. Sum and pseudo-variance do not depend on the order of the images, masked pixels stay masked, and the input images are left unmodified.",
  ["inputs"], "every small stack over extreme pixel values, all integer pixel types, and long stacks of saturated images",
  "The tests never compare the reduction with known numbers; they only look at key names and shapes.",
  [RO], [("int64 accumulation", RO+":get_int_imgs")], ["return value of get_int_imgs"])
p("C04", "Loading accounts for every image once, or fails",
  "Loading turns each declared series into one reduced entry under the same kind, exposure time and photon count (temporal: totals over all pixels; spatial: full images and the stack size), and reports the common image height and width, whatever order the series are declared in. If any declared image is missing, unreadable or of another shape, at whatever position, or an exposure time lacks a dark or a bright series, loading raises an error instead of returning data.",
  ["inputs", "fault_sequences"], "every small measurement layout x every single faulty image position and fault kind, with real files and with a caller-supplied image loader",
  "Tests load two intact datasets and three trivially broken dictionaries; no fault is placed at a later image, series or kind.",
  [LO, RO], [("per-series reduction and shape set", LO+":LoadImageData")], ["LoadImageData.data or the exception raised"])
p("C05", "Temporal mean and variance are the unbiased pair estimates",
  "For each exposure time and photon count the temporal mean is the average grey value of the two images and the temporal variance is half the mean squared pixel difference minus half the squared difference of the two image means. The temporal arrays are ordered by exposure time, then photon count, with dark values per exposure time, and for a single exposure time every array has one entry per bright point with the exposure time and dark values repeated; a missing dark or bright point raises ValueError.",
  ["inputs"], "every pair of small images over an extreme-value alphabet; every bounded layout of exposure times and photon counts in every insertion order",
  "Tests compare lengths and keys on simulated data and never the values themselves.",
  [DA, RO], [("sum/pvar/dmean conversion", DA+":_get_temporal/_get_temporal_data")], ["Data1288.data['temporal']"])
p("C06", "Spatial statistics follow the standard for any stack and image shape",
  "From a bright and a dark stack the spatial data gives, for each, the stack size, image rows and columns, mean of the average image, sample variance (n-1) of the average image, mean temporal stack variance, and the residual variances of the column means and row means (population variance of those means minus stack variance divided by stack size times rows, respectively columns). Transposing the images swaps the column and row values and nothing else, and anything but one exposure time with exactly one dark and one bright point raises ValueError.",
  ["inputs"], "every small pair of stacks over an extreme-value alphabet, all shapes up to a bound including non-square",
  "Tests only check that two keys exist and that images have the right shape.",
  [DA, RO], [("spatial moments, Eqns 33-41", DA+":_get_spatial/_get_spatial_data")], ["Data1288.data['spatial']"])
p("C07", "The linear fits return the least-squares line",
  "For any data with enough distinct abscissae the zero-offset fit and the offset fit return (within solver tolerance) the slope, and slope and offset, that minimise the sum of squared residuals, plus the corresponding residual error sqrt(SSE)/n. The result does not depend on the order of the points, on the input number type, or on any earlier fit, and the inputs are left unmodified.",
  ["inputs"], "every data set over small abscissa/ordinate alphabets spread over the physical scales (photons, DN, nanoseconds)",
  "The fits are only exercised through one simulated camera with tolerances of 10 percent.",
  [RO], [("leastsq wrappers", RO+":LinearB0/LinearB")], ["return values of LinearB0/LinearB"])
p("C08", "Saturation point and fit ranges are selected as the standard defines",
  "The saturation index is found scanning the temporal variance from the brightest point down, moving to a point while it or its next darker neighbour is at least the last accepted variance and stopping otherwise, so a curve with one peak saturates at its peak wherever that is; an index forced by the caller is always used. The sensitivity range ends at the last point with dark-corrected mean at most 70% of that at saturation and starts at index 0, and the linearity range goes from the first point at or above 5% to the last point at or below 95%.",
  ["inputs"], "every variance curve over a small value alphabet up to a length bound (all peak positions, dips, plateaus), every forced index, signal curves hitting the thresholds exactly and on both sides",
  "Tests only assert that indices lie in range on two simulated curves.",
  [RE], [("backward scan and threshold searches", RE+":index_u_ysat, index_sensitivity_*, index_linearity_*")], ["Results1288 index properties"],
  [("_index_u_ysat", "forced or cached saturation index", RE+":Results1288.__init__")])
p("C09", "Sensitivity, saturation, SNR and dynamic-range figures obey EMVA 1288",
  "Responsivity and system gain are the zero-offset slopes over the sensitivity range; QE is 100*R/K; sigma_d is sqrt(sigma_y_dark^2 - 1/12)/K; the absolute thresholds, saturation capacities, SNR_max, DR and their dB, bit, percent and inverse forms follow the standard's equations from these. Photon and electron figures are related by QE, per-area figures are the figure divided by the pixel area (None without an area), and no figure depends on the non-physical order or type in which data were given.",
  ["inputs"], "every combination of a bounded set of photon-transfer curves, forced or detected saturation, pixel areas and dark noise levels, against an independent evaluation of the standard's equations",
  "Tests check three or four identities on two simulated data sets; most equations are never compared with independent values.",
  [RE], [("property equations", RE+":R, K, QE, sigma_*, u_p_*, u_e_*, SNR_*, DR*")], ["Results1288 public properties"])
p("C10", "Linearity figures come from the relative-deviation line fit",
  "The linearity line minimises the sum of squared relative deviations over the 5%-95% range; its slope and offset, the relative deviation in percent of every point from the line, and the minimum and maximum deviation within the range are reported consistently (LE_min and LE_max equal those extremes). Exactly linear data give deviations of zero, and points outside the range never influence the fit.",
  ["inputs"], "every response curve obtained by perturbing bounded subsets of points inside and outside the range, for each saturation position",
  "Tests check only that LE_min and LE_max are floats.",
  [RE], [("weighted normal equations", RE+":linearity/LE_min/LE_max")], ["Results1288.linearity(), LE_min, LE_max"])
p("C11", "Dark noise and dark current follow from the dark series",
  "With at least three distinct exposure times the dark current from the mean is the slope of dark mean against exposure time per second, in electrons that divided by K; from the variance it is the slope of dark variance divided by K (DN/s) and by K squared (e-/s), NaN for a negative slope; with fewer distinct exposure times all four are NaN. Temporal dark noise is the square root of the zero-exposure dark variance (fit offset with three or more exposure times, first value otherwise), never below sqrt(0.24) DN.",
  ["inputs"], "every dark series over a small value alphabet with 1 to 6 exposure times including repeated ones, rising, falling and flat",
  "Tests cover one simulated dark current with a 20-30 percent tolerance and two NaN cases.",
  [RE, RO], [("exposure-time fits and guards", RE+":u_I_*, sigma_y_dark")], ["Results1288.u_I_var, u_I_var_DN, u_I_mean, u_I_mean_DN, sigma_y_dark"])
p("C12", "Non-uniformities decompose consistently and refuse negative variances",
  "Spatial variance is the measured variance minus stack variance over stack size, and its row, column and pixel parts add up to it exactly for every image shape, dark and bright. DSNU values are square roots of the dark variances divided by K (times 1 for the DN form) and NaN for a negative variance; PRNU values are 100 times the square root of bright minus dark variance over bright minus dark mean, NaN when that difference is negative.",
  ["inputs"], "every combination of bounded spatial statistics (including zero, tiny and negative variances) and image shapes",
  "Tests evaluate the code's own formula against itself on one data set and one NaN case.",
  [RE], [("decomposition and square-root guards", RE+":s_2_y_*, DSNU1288*, PRNU1288*")], ["Results1288 public properties"])
p("C13", "Histograms count every unmasked pixel exactly once in lawful bins",
  "For an integer image and a bin limit, the histogram has at most the limit of bins with one integer bin width (the smallest possible, so 1 whenever the value range fits), starting at the image minimum; each count is exactly the number of unmasked pixels in its bin, so counts sum to the number of unmasked pixels. The model curve is the normal curve with the image's mean and standard deviation scaled to the pixel count and mean bin width.",
  ["inputs"], "every small image over value alphabets around the bin limit (range = limit-1, limit, limit+1, multiples), negative values and every mask",
  "The single test uses one image with one limit and no mask.",
  [RO], [("bin construction", RO+":Histogram1288")], ["return value of Histogram1288"])
p("C14", "Defect-pixel histograms describe the measured image in DN",
  "The DSNU histogram is that of the dark average image relative to its mean, the PRNU histogram that of the high-pass-filtered dark-corrected bright average image (5x5 box, borders removed), both with bin positions in DN of a single image also when bright and dark stack sizes differ. The accumulated histograms give, for every absolute deviation from the mean, the percentage of (unmasked) pixels deviating at least that much: they start at 100%, never increase and stay positive.",
  ["inputs"], "every bounded spatial image pair (patterns, hot pixels, stack sizes, masks) compared with a pixel-by-pixel recount",
  "Tests only check that three keys exist and are arrays.",
  [RE, RO], [("histogram rescaling", RE+":histogram_DSNU/PRNU(_accumulated)")], ["Results1288.histogram_* properties"])
p("C15", "The high-pass filter is exactly pixel minus box mean, scaled",
  "For an odd filter size d of 3 or more the filtered image equals d*d times the pixel minus the sum over its d x d neighbourhood, for every pixel whose neighbourhood lies inside the image, keeps integer images exact whatever their integer type, and reports the scaling factor d*d. For masked (colour) images only unmasked pixels enter, the factor is the number of unmasked pixels per neighbourhood and the mask is kept; even sizes and masks without a constant neighbourhood count raise ValueError, and the input is left unmodified.",
  ["inputs"], "every basis image (by linearity) and bounded images, all shapes up to a bound, odd and even sizes, all periodic masks up to a period",
  "The test checks approximate means of random images for one size and two masks.",
  [RO], [("convolution kernel and slicing", RO+":high_pass_filter")], ["return value of high_pass_filter"])
p("C16", "Spectrograms carry the image's spatial variance at the right frequency",
  "The spectrogram of an image with C columns has one entry per frequency k/C for k from 0 to C//2, each the row-averaged power of the mean-free image per pixel, so a sinusoidal pattern of given amplitude and frequency appears with its power at exactly that frequency and the mean over the two-sided frequencies (each k and its negative) equals the image's variance about its overall mean. Dividing by the stack size n scales by 1/n^2, rotation equals transposing the image, masked pixels are removed row by row (fully masked rows dropped, rows cut to the shortest), and the input is left unmodified.",
  ["inputs"], "every bounded image and every basis pattern for odd and even widths, every mask up to a size, all n and both orientations",
  "Tests check that some value exceeds 1 for random images.",
  [RO, PL], [("row FFT, half spectrum and frequency axis", RO+":FFT1288/GetFrecs/_row_wise_compress")], ["FFT1288, GetFrecs return values"])
p("C17", "Result XML round-trips without loss",
  "Writing a result dictionary to XML (returned or written to a file) and reading it back, from the file or from the returned text, gives the same sections, quantities (names lower-cased), numbers, missing values and data arrays. A value written with a decimal comma is read as the same number, and unreadable XML gives None instead of an exception.",
  ["inputs"], "every bounded dictionary over sections, quantities, value kinds (integers, floats of all magnitudes, NaN, None) and array data, via file, text and bytes",
  "No test touches the XML functions.",
  [RO, RE], [("writer and reader", RO+":dict_to_xml/xml_to_dict")], ["dict_to_xml/xml_to_dict, Results1288.xml"])
p("C18", "Result comparison says OK exactly when values agree to 7 digits",
  "Comparing two result files reports a line per quantity of every section that shows what each file gives, OK exactly when both give a number and they agree after rounding to seven significant digits, or both give data with the same keys and equally long arrays agreeing element by element; otherwise FAIL. Sections or quantities present in only one file are reported as FAIL, the verdict is symmetric in the two files, and the report written to a file equals the one returned.",
  ["inputs"], "every pair of bounded result files over values straddling the seventh digit, zeros, signs, missing entries, scalar/array mixes and unequal arrays",
  "No test touches the comparison.",
  [RO], [("significant-digit comparison", RO+":compare_xml/round_significant")], ["compare_xml return value and file"])
p("C19", "The result catalogue is complete and correctly labelled",
  "The results mapping contains exactly the quantities documented with result metadata, each with the section, short name, symbol, unit and LaTeX name from its documentation and with the value or data obtained by asking for that quantity directly. Grouping by section loses, duplicates and mislabels nothing, the printed table has one line with short name and value per number under its section, and the documentation parser handles any layout of such blocks (missing section means 'other').",
  ["programs", "inputs"], "every documented quantity on every bounded data set; every bounded class docstring layout for the metadata parser",
  "Tests check membership of a few names only.",
  [RO, RE], [("docstring metadata", RO+":cls_1288_info/obj_to_dict/_sections_first")], ["Results1288.results, results_by_section"])
p("C20", "Results do not depend on what was asked before",
  "Every quantity of a result object has the same value whatever sequence of quantities, plots, reports or XML exports was requested before, however often, and whatever other result objects exist in the process, even if the caller modifies an answer it was given. Computing results never changes the data it was given.",
  ["histories"], "every access sequence up to a length bound over all public quantities, on interleaved result objects, compared with fresh objects",
  "Tests access a handful of properties once in a fixed order.",
  [RE, RO], [("lazy saturation index and in-place histogram scaling", RE+":index_u_ysat, histogram_*")], ["Results1288 public properties; the input dict"],
  [("_index_u_ysat", "lazily cached index", RE)])
p("C21", "Simulated images are valid and follow the camera model",
  "Every grabbed image has the camera's height and width, an unsigned integer type wide enough for the bit depth and values within 0 and 2^bits-1. Given the random draws, each pixel is the rounded and clipped value of gain times full-well-limited electrons (thermal + light*QE*PRNU + dark signal + DSNU) plus black offset and quantization noise, with thermal electrons doubling per doubling temperature and proportional to exposure time, and a temperature or f-number given to the call overriding the environment for that image only.",
  ["configurations", "inputs"], "every combination of bounded camera parameters and every bounded set of random-generator answers (the generator is the environment, enumerated)",
  "Tests compare means of random images for three default configurations.",
  [CA], [("grab signal chain", CA+":Camera.grab/_u_e/_u_therm")], ["Camera.grab return value"])
p("C22", "Camera settings snap to the nearest available value and stay put",
  "After any sequence of setting exposure, gain, black offset, DSNU or environment and grabbing images, the camera reports the last exposure set, the available gain and black offset nearest to the last request (available values being evenly spaced between minimum and maximum), and an image depends only on the current settings and random draws. Grabbing, converting radiance to photons or computing a radiance changes no setting, and cameras never share settings.",
  ["histories"], "every operation sequence up to a depth bound over two cameras, with a reference model of the settings",
  "Tests never change a setting after construction.",
  [CA, CR], [("nearest-value setters", CA+":K/blackoffset/exposure setters"), ("nearest_value", CR+":nearest_value")], ["Camera properties and grabbed images"])
p("C23", "Same seed, same images; nothing else influences them",
  "Two cameras built with the same parameters and seed produce identical image sequences for the same sequence of operations, no matter which other cameras, global random state, or operations on other cameras intervene; different seeds give different images. Consequently a dataset generated twice with the same parameters and seed is identical file by file.",
  ["histories", "configurations"], "every interleaving of bounded operation sequences on two or three cameras including global reseeding",
  "No test uses the seed.",
  [CA, DG], [("per-camera generator", CA+":Camera._rng")], ["images from Camera.grab, files from DatasetGenerator"])
p("C24", "Radiance and photon conversions are exact inverses",
  "Photon count from radiance and radiance from photon count are inverse to each other for every exposure time, pixel area, f-number and wavelength, are linear in radiance, exposure time and pixel area, and follow pi*R*A*t*w^2/(h*c*(1+4f^2)). The radiance a camera gives for a target mean makes light plus thermal electrons times gain average to that mean, at the exposure time asked for (the camera's if none is given), and for the camera's full scale if no mean is given.",
  ["inputs", "configurations"], "every combination of bounded physical parameters, scalar, vector and per-pixel inputs",
  "Tests never call the conversions directly.",
  [CR, CA], [("conversion formulas", CR+":get_photons/get_radiance"), ("camera wrappers", CA+":get_photons/get_radiance_for")], ["return values"])
p("C25", "Pattern, Bayer and QE helpers fill the requested geometry exactly",
  "Tiling a one- or two-dimensional pattern gives the requested height and width with every element equal to the pattern element at its coordinates modulo the pattern size (one row gives a one-dimensional array). A Bayer filter repeats its 2x2 transmissions over any requested size including odd ones, each channel normalised to peak 1 at its wavelength; a QE is refused with ValueError when its dimensions mismatch, a filter multiplies it elementwise without changing the caller's arrays, and the built-in QE is the same for every pixel and never negative.",
  ["inputs"], "all pattern shapes x target shapes up to a bound, all transmissions on a wavelength grid",
  "Tests tile zeros only, so any misplacement is invisible, and use one even-sized Bayer filter.",
  [CR], [("tiling and QE construction", CR+":get_tile/get_bayer_filter/array_tile/Qe")], ["return values"])
p("C26", "Test points span the requested measurement",
  "With no fixed exposure the points are `steps` exposure times evenly spaced from minimum to maximum (rounded to 0.1 ns), each with the saturating radiance of the longest exposure and darkness; with a fixed exposure they are `steps` radiances evenly spaced from the minimum to the maximum radiance, in order, plus darkness, at that exposure. The spatial points are the middle step with its bright and its dark radiance; caller-given exposure limits, radiance limits (with a fixed exposure), gain and black level are used instead of the defaults, also when they are given to the dataset generator.",
  ["configurations"], "every combination of steps, limits, fixed exposure, radiance limits, gain and black level over bounded cameras",
  "Tests use one step count and never pass radiance limits with a fixed exposure.",
  [PG], [("point construction", PG+":PointsGenerator")], ["PointsGenerator.points and camera settings"])
p("C27", "Automatic gain and black level meet the standard and leave the camera as found",
  "When a dataset is generated without a given black offset (gain), the generator uses the first available black offset for which more than 99.5% of dark pixels are non-zero (the first available gain for which the difference of two dark images has a standard deviation above 0.5 DN), or the last available one if none qualifies; a given value is used as given. The search itself restores the setting it varied.",
  ["configurations", "inputs"], "every threshold position over scripted cameras with bounded setting lists, just below, at and just above both limits",
  "Tests always pass K or never look at the chosen values.",
  [DG], [("search loops", DG+":_get_emva_gain/_get_emva_blackoffset")], ["chosen K and blackoffset; camera settings afterwards"])
p("C28", "A generated dataset on disk is exactly what the camera produced",
  "A generated dataset's descriptor declares, for every test point, the exposure time, mean photon count and image files, two per temporal point and L per spatial point, and every file holds exactly the pixel values grabbed for that point at those settings, for every bit depth up to 16 and lossless image format. Parsing and loading the dataset therefore recovers every series with exact sums, and a dataset generated without an output directory disappears with its generator while one with an output directory stays.",
  ["configurations", "histories"], "every combination of bit depth, format, mode, steps, L and image shape within bounds, with every grabbed image recorded and compared with the file",
  "Tests generate 8-bit PNG sets only and never compare pixel values.",
  [DG, PA, LO, RO], [("run_test/save_image", DG), ("load_image", RO)], ["descriptor text, image files, parsed and loaded data"])
p("C29", "The one-call pipeline equals the standard applied to the raw images",
  "Processing a descriptor with the one-call class gives, for every quantity, the value the standard defines on the raw pixel values of the image files, identical to running parser, loader, data and results step by step. The same holds for every image bit depth and shape, for exposure-varying and photon-varying measurements, and the XML output carries those values.",
  ["inputs", "configurations"], "every bounded measurement written to disk by the harness (pixel alphabets, layouts, bit depths), against an independent computation from the raw pixels",
  "Tests never compute any result independently from pixels.",
  [PI, PA, LO, DA, RE], [("Emva1288", PI)], ["Emva1288.xml(), Results1288 values"])
p("C30", "Characterising the simulated camera recovers its parameters",
  "Images simulated by the camera model and characterised by the processing recover the camera's gain, quantum efficiency, responsivity, dark current and temporal dark noise to within the discretisation error, for every gain, black offset, temperature, dark current, dark noise and QE, in exposure-varying and photon-varying measurements. Uniform sensors give zero DSNU and PRNU, and imposed DSNU/PRNU patterns are measured with their actual strength in electrons and percent, attributed to rows, columns or pixels as imposed.",
  ["configurations"], "every bounded camera configuration, with all combinations of the enumerated random-generator answers laid out over the pixels so that moments are exact rather than sampled",
  "Tests check one configuration with tolerances of 10 percent or more.",
  [CA, DG, DA, RE], [("simulator", CA), ("processing chain", RE)], ["Results1288 values against Camera parameters"])
p("C31", "The report shows every operation point's results faithfully",
  "The generated report lists all supplied setup, basic and marketing information and, for every operation point in the order added, its name, camera settings, test parameters and result values equal to the computed results, with '-' for missing or undefined (None or NaN) numbers and information. Each operation point has its own directory with every standard plot, the TeX references only files that exist in the output directory, whatever the platform's text encoding, and extra plots appear exactly when the point is not summary-only.",
  ["inputs", "configurations"], "every combination of supplied/missing information fields, summary flags, pixel areas and result data including NaN and None",
  "The test checks that files exist for one operation point.",
  [RP, TP+'report.tex', TP+'op.tex', TP+'general_info.tex', TP+'op_header.tex', TP+'emvadatasheet.sty'], [("templates and filters", RP+":Report1288.template_renderer/_report")], ["report.tex, emvadatasheet.sty and the output directory"])
p("C32", "Reports are independent of each other and of what the caller reuses",
  "Whatever sequence of creating reports, adding operation points (with own or shared information dictionaries, data or precomputed results) and generating TeX is performed, each report contains exactly its own operation points, numbered in order from 1, each with its own results. Reusing an information dictionary or operation-point dictionary for another point or report neither fails nor changes what other points show, a report can be generated again or into an output directory that already holds one, and the caller's data are not modified.",
  ["histories"], "every operation sequence up to a depth bound over two reports sharing dictionaries, against a reference list model",
  "The test creates one report with one point.",
  [RP], [("operation-point bookkeeping", RP+":Report1288.add/_make_dirs")], ["report.ops and generated files"])
p("C33", "Every plot draws the computed results",
  "Each standard plot shows, for every test plotted, the measured data and the fit, markers and limits taken from that test's results: same abscissae and ordinates, in the units its axes state. Spectrogram plots use the true spatial frequency of each line and are expressed in DN for the dark image and in percent of the signal for the bright image; profiles show the mean, minimum, maximum and middle line of the dark and dark-corrected bright average images.",
  ["inputs"], "every standard plot over bounded data sets (shapes, stack sizes, single and multiple exposures, masked images), line by line against an independent computation",
  "Tests check that PDF files exist.",
  [PL], [("plot classes", PL)], ["matplotlib line data of every plot"])
p("C34", "Plotting several tests shows all of them and changes none",
  "Plotting any number of tests draws every one of them in every requested plot, identifiable by its own id, in the order given, and plotting again or plotting other tests in between draws the same. Only the requested plots are drawn (all standard ones if none is requested), user-written ones on the documented base class included, and plotting never changes a test's data or results.",
  ["histories", "inputs"], "every list of up to four tests (with repetitions, preset and missing ids) x bounded plot selections x repeated calls",
  "No test uses the multi-test plotting class.",
  [PL, PI], [("Plotting1288", PL)], ["figures produced through matplotlib"])
p("C35", "Defective-pixel injection creates exactly the requested defects",
  "Injecting n defective pixels into a camera sets exactly n distinct pixels of its dark non-uniformity to the given fraction of the full-well capacity (the full well by default or when no value is given) and changes no other pixel or camera; asking for more defects than pixels raises ValueError. Each injected pixel is visible in subsequently grabbed images.",
  ["inputs", "histories"], "every n from 0 to beyond the pixel count, every bounded shape and value, every answer of the position draw",
  "No test calls the injection.",
  [BI], [("position draw", BI+":bad_pixel")], ["Camera.DSNU and grabbed images"])
p("C36", "Threads working on their own objects do not disturb each other",
  "Two or three threads that each parse, load, reduce, evaluate, plot, export, report, simulate or generate a dataset with objects and output files of their own get, under every interleaving, exactly the answers and files each gets when it works alone. No interleaving raises an error or leaves the threads waiting for each other.",
  ["schedules"], "every pair (some triples) of operations x every schedule with one preemption per interrupted thread at the lines and instructions of the package",
  "The tests run in one thread; a shared scratch buffer, working directory, template state or random state never shows there.",
  [RO, RE, LO, PL, RP, CA, DG], [("no module-level state; per-instance generator", CA+":Camera.__init__"), ("fresh template environment per report", RP+":Report1288")],
  ["return values, files written, per thread"])
p("C37", "A failed or interrupted operation says so and can simply be repeated",
  "Wherever the user interrupts an operation of the package, whichever file operation fails and wherever a write stops, the failure reaches the caller or the result is complete all the same; it never passes an incomplete result off as success. Afterwards the same operation, on the same objects and in the same output places (except a new dataset directory), gives exactly what it gives when nothing failed, and objects of the caller, camera settings and process-wide settings are as before.",
  ["crash_points", "fault_sequences"], "every operation x an interruption before every source line, every single failing file operation, every size class at which writes stop",
  "No test makes an operation fail half-way and repeats it.",
  [RO, RP, LO, DG, CA, RE], [("copying of the report's files", RP+":Report1288._make_dirs"), ("error handling of the XML functions", RO+":xml_to_dict"), ("operation point appended last", RP+":Report1288.add")],
  ["exceptions raised", "return values and files after repeating"])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, (q['id'], len(q['title']))
            f.write(json.dumps(q) + '\n')
    print(len(P))
