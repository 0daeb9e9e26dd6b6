"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                    'observe_at': observe or []}})


S = 'src/emva1288/'

prop('C01', 'Parsing a descriptor file reproduces the measurement it describes',
     'For every well-formed descriptor file, the parsed description contains exactly the listed image series: each filed as temporal (two images) or spatial (more than two), under its exposure time and photon count (0.0 for dark series), with its image paths complete, in file order and resolved against the descriptor\'s own directory (or the directory given by the caller). '
     'Comments, blank lines, surrounding whitespace, decimal commas, slash or backslash paths, unknown commands, line endings and the order of the series do not change the outcome. '
     'Pixel format (bits, width, height) and version are reported as written.',
     ['inputs'], 'all well-formed descriptor files (any number, order, size and spelling of series), any directory',
     'The tests parse only files written by the bundled generator: one spelling, one order, no comments, no decimal comma, and they look at one temporal and one spatial series.',
     [S + 'process/parser.py'],
     [('line dispatch and series collection', 'parser.ParseEmvaDescriptorFile._fill_info/_get_images_filenames'),
      ('kind classification by image count', 'parser._get_kind'), ('path resolution', 'parser._get_images_filenames')],
     ['ParseEmvaDescriptorFile(...).images / .format / .version'])

prop('C02', 'Malformed descriptor files are refused, never silently misread',
     'A descriptor file that has a series with fewer than two images, two series of one kind for the same exposure and photon count, a second pixel-format line, a format, series or image line with a wrong number of fields, a line of a single word, a field that should be a number (for the pixel format: a whole number) and is none, or bytes that are not text in the file encoding is refused with an error describing the problem (a syntax or value error). '
     'It never yields a parsed description, and the parser never leaves the descriptor file open.',
     ['inputs', 'fault_sequences'], 'every well-formed descriptor with any one such defect injected at any place',
     'There is no test of a malformed descriptor at all (the branches are marked "no cover").',
     [S + 'process/parser.py'],
     [('format checks', 'parser._fill_info, _get_images_filenames, _split_line, _add_pcount'), ('decoding', 'parser._load_file')],
     ['exception raised by ParseEmvaDescriptorFile(...)'])

prop('C03', 'Image series are reduced exactly, in integer arithmetic',
     'For any series of L integer images of any supported depth, the reduction returns the number of images, the exact per-pixel sum, and the exact per-pixel pseudo-variance L*(L*sum of squares - square of sum), with no clipping, overflow or rounding; the reported mean difference is the mean of the last image minus the mean of the first. '
     'The input images are not modified, and sums and pseudo-variances do not depend on the order of the images.',
     ['inputs'], 'all series lengths, image shapes, integer pixel types (8 to 16 bit, masked or not) and pixel values incl. full scale, as long as the result fits 64 bits',
     'No test checks the reduced numbers; they only check that keys exist and shapes match, on 8 bit images with L in {2, 50}.',
     [S + 'process/routines.py'],
     [('64 bit accumulation', 'routines.get_int_imgs')],
     ['routines.get_int_imgs return value', 'LoadImageData(...).data'])

prop('C04', 'Loading keeps every series, exactly once, with its own images',
     'Loading a measurement description reads every listed image file exactly (pixel values and depth preserved; first channel of colour files) and yields, for every kind, exposure and photon count in it and nothing else, the reduction of precisely the images listed there: images for spatial series, totals for temporal series, plus the common image height and width. '
     'The outcome depends only on the description and the current file contents: not on earlier loads, on other loaders, on listing order, or on equal file names in different directories, and the description is not modified.',
     ['inputs', 'histories'], 'all descriptions, file formats (PNG/TIFF/BMP, 8/16 bit, colour), directory layouts, custom image readers, and sequences of loads with files changing in between',
     'The tests load one generated data set and check number of points and shapes, never the pixel sums of the attributed series.',
     [S + 'process/loader.py', S + 'process/routines.py'],
     [('iteration over series', 'loader.LoadImageData._load_data'), ('file reading', 'loader._load_imgs, routines.load_image'),
      ('reduction per kind', 'loader._get_imgs_data')],
     ['LoadImageData(...).data', 'calls of the image reader'])

prop('C05', 'Temporal statistics follow the standard and stay aligned',
     'From reduced image pairs, every bright point gets its mean (half the pair\'s average sum) and its temporal variance (half the mean squared difference minus half the squared mean difference), and every exposure gets the same for dark; photon counts, means, variances, dark means and dark variances come out ordered by exposure and then photon count and describe the same point at the same position. '
     'With a single exposure time, exposure and dark columns are repeated to the number of bright points. '
     'The order in which the points were measured or stored, and the pixel count being given or derived, do not matter, and the input is not modified.',
     ['inputs'], 'all temporal data sets: one exposure with many photon counts, or many exposures with one bright point each; any values, any insertion order',
     'Tests check the lengths and a few exposures of generator output; no variance is ever compared with the definition, and the generator always inserts in sorted order.',
     [S + 'process/data.py'],
     [('mean/variance formulas', 'data.Data1288._get_temporal_data'), ('ordering and repetition', 'data.Data1288._get_temporal')],
     ["Data1288(...).data['temporal']"])

prop('C06', 'Spatial statistics follow the standard for every image stack',
     'From a bright and a dark stack of L images with M rows and N columns, the mean, the sample variance of the averaged image, the mean temporal variance of the stack, and the column-average and row-average spatial variances (each corrected by the residual temporal variance divided by L*M respectively L*N) equal their definitions, separately for bright and dark. '
     'Swapping rows and columns of all images swaps the two averages and nothing else; adding a constant grey value changes only the means; the summed images and the image counts are passed on unchanged.',
     ['inputs'], 'all stacks (L >= 2, any M and N including non-square, any values, bright and dark of different length)',
     'No test compares any spatial statistic with its definition; only key presence and shapes for a single 50x100 stack of L = 50.',
     [S + 'process/data.py'],
     [('spatial formulas eq. 36-41', 'data.Data1288._get_spatial_data'), ('bright/dark separation', 'data.Data1288._get_spatial')],
     ["Data1288(...).data['spatial']"])

prop('C07', 'Incomplete or inconsistent measurements are refused',
     'A measurement in which some exposure lacks its dark series, some exposure has no bright series, images differ in size, a listed image file does not exist, or the spatial part does not consist of exactly one exposure with one dark and one bright point is refused with a value error (an I/O error for a missing file) at the loading or data stage. '
     'The refusal does not depend on where in the measurement the defect sits, and a complete measurement is never refused.',
     ['inputs', 'fault_sequences'], 'every complete measurement with any one such defect injected at any exposure, point or image position',
     'The tests use five hand-written dictionaries with a single exposure each; a defect at a later exposure or image is not tried, nor are size mismatches.',
     [S + 'process/loader.py', S + 'process/data.py'],
     [('completeness checks', 'loader._load_data, data._get_temporal, data._get_spatial'), ('shape and file checks', 'loader._load_imgs')],
     ['exception raised by LoadImageData / Data1288'])

prop('C08', 'Saturation point and fit ranges are selected as the standard says',
     'The saturation index is the position of the variance maximum for every photon-transfer curve with a single peak (dips of one isolated sample are ignored, and the last peak counts), or the index the user forces, including index 0. '
     'The sensitivity fit runs from the first point to the last point not above 70 % of the dark-corrected saturation signal, and the linearity fit from the first point at or above 5 % to the last point not above 95 % of it, both ends included.',
     ['inputs', 'configurations'], 'all photon-transfer curves with a peak at any position (flat tails, zero-variance tails, isolated dips, ties), any number of points, any forced index',
     'Tests only check that the indices are integers within range on one simulated curve.',
     [S + 'process/results.py'],
     [('peak search', 'results.Results1288.index_u_ysat'), ('70 % rule', 'index_sensitivity_max'), ('5 % / 95 % rule', 'index_linearity_min/max')],
     ['Results1288 index properties'])

prop('C09', 'Gain, responsivity, quantum efficiency and dark noise match their definitions',
     'System gain K and responsivity R are the least-squares slopes through the origin of dark-corrected variance against dark-corrected mean, and of dark-corrected mean against photon count, over the sensitivity fit range only; quantum efficiency is 100*R/K percent and the inverse gain 1/K. '
     'Temporal dark noise in DN is the square root of the dark variance of the first exposure when there are at most two different exposure times, otherwise of the zero-exposure intercept of its least-squares line against exposure time, but never below the square root of 0.24; in electrons, the quantisation variance 1/12 is removed before dividing by K.',
     ['inputs'], 'all temporal data sets with at least two points in the fit range, in one- and multi-exposure form, over many orders of magnitude of photons, signal and exposure',
     'Tests compare K, QE and R with simulated parameters within 10-20 % on two data sets; points outside the fit range, the floor and the intercept are not distinguished.',
     [S + 'process/results.py', S + 'process/routines.py'],
     [('fits', 'routines.LinearB0, routines.LinearB'), ('definitions', 'results.R, K, inverse_K, QE, sigma_y_dark, sigma_d')],
     ['Results1288 properties'])

prop('C10', 'Thresholds, saturation capacity, SNR and dynamic range are consistent',
     'The absolute sensitivity threshold is (100/QE)*(sigma_y_dark/K + 1/2) photons, saturation capacity is the photon count at the saturation index, electrons are photons times QE/100, and SNR_max is the square root of the saturation capacity in electrons, given also as 20*log10 dB, log2 bits and 100/x percent. '
     'Dynamic range is saturation capacity divided by sensitivity threshold, also as 20*log10 dB. '
     'Per-area figures are the plain figure divided by the pixel area the user currently has set, and are absent (None) without a pixel area.',
     ['inputs', 'configurations'], 'all temporal data sets (points in any order of light) and pixel areas, including a forced saturation index',
     'Tests check a few of these identities on two simulated data sets; thresholds and their area forms are not compared with definitions.',
     [S + 'process/results.py'],
     [('definitions', 'results.u_p_min ... results.DR_dB')],
     ['Results1288 properties'])

prop('C11', 'Linearity follows the weighted fit of the standard',
     'The linearity line minimises the squared relative deviations (weights 1/signal) over the points from 5 % to 95 % of saturation, deviations are given in percent of the fitted line for every point, and the minimum and maximum linearity errors are the extremes of the deviations inside that range only. '
     'Perfectly affine data have zero error, and rescaling the photon or grey-value axis leaves the errors unchanged and rescales slope and offset accordingly.',
     ['inputs'], 'all temporal data sets with at least two points in the linearity range, including strong outliers outside that range',
     'Tests only check that the two errors are floats.',
     [S + 'process/results.py'],
     [('closed-form weighted fit', 'results.linearity'), ('range', 'index_linearity_min/max'), ('extremes', 'LE_min, LE_max')],
     ['Results1288.linearity(), LE_min, LE_max'])

prop('C12', 'Dark current is the slope against exposure time, or honestly undefined',
     'With at least three different exposure times, the dark current from the mean is the least-squares slope of the dark mean against exposure time in DN per second (exposures are in nanoseconds), and divided by K in electrons per second. '
     'The dark current from the variance is the slope of the dark variance divided by K, and by K squared in electrons per second. '
     'With fewer than three different exposure times both are NaN, the variance form is NaN too when the slope is negative, and otherwise all are finite for finite data.',
     ['inputs'], 'all dark series: any number and spacing of exposure times, repeated times, rising, flat and falling means and variances',
     'One simulated data set is compared within 15-30 %; NaN rules are tried with one two-exposure example.',
     [S + 'process/results.py', S + 'process/routines.py'],
     [('fits', 'routines.LinearB'), ('definitions', 'results.u_I_var_DN, u_I_var, u_I_mean_DN, u_I_mean')],
     ['Results1288 properties'])

prop('C13', 'Nonuniformity splits into row, column and pixel parts without loss',
     'Spatial variance is the measured variance minus the stack\'s temporal variance divided by the number of images, and its row, column and pixel parts obtained from the row and column averages always add up to it, bright and dark; transposing the images swaps row and column parts. '
     'DSNU figures are the square roots of the dark parts divided by K (not divided in the DN form) and NaN exactly when the part is negative. '
     'PRNU figures are 100 times the square root of the bright part minus the dark part, divided by the bright mean minus the dark mean.',
     ['inputs'], 'all spatial data sets: any M and N of at least 3, any L, with row, column and pixel structure of any strength, including negative estimates',
     'Tests recompute total PRNU/DSNU from the implementation\'s own intermediate values for one data set; the decomposition itself is unchecked.',
     [S + 'process/results.py'],
     [('decomposition', 'results.s_2_y, s_2_y_row/col/pixel(_dark)'), ('DSNU/PRNU', 'results.DSNU1288*, PRNU1288*')],
     ['Results1288 properties'])

prop('C14', 'Defect-pixel histograms account for every pixel exactly once',
     'Every histogram puts each (unmasked) pixel into exactly one of equally spaced bins of integer width, as the reference algorithm of the standard does, with no more than the maximum number of bins and bins starting at the smallest value; the model curve is the normal distribution with the data\'s mean and spread, scaled to the same total. '
     'DSNU histograms describe the dark average image around its mean, PRNU histograms the high-pass filtered bright-minus-dark average image (of as many or other numbers of bright and dark images), both in DN. '
     'Accumulated histograms give, for each absolute deviation from the mean, the percentage of pixels deviating at least that much, starting at 100 and never rising.',
     ['inputs'], 'all image stacks (small, large, outlier pixels, wide value range needing bin widths above one, colour masks, bright and dark stacks)',
     'One arange image is tried for the basic histogram; for the four results only key presence and type are checked.',
     [S + 'process/routines.py', S + 'process/results.py'],
     [('binning', 'routines.Histogram1288'), ('scaling and accumulation', 'results.histogram_*')],
     ['routines.Histogram1288, Results1288.histogram_*'])

prop('C15', 'The high-pass filter is the exact box-filter residual',
     'For an image (of a signed or floating pixel type wide enough for the result) and odd size n >= 3 the filter returns, for every pixel whose n by n neighbourhood lies inside the image, exactly n*n times the pixel minus the sum of its neighbourhood, together with the factor n*n; constant and planar images give zero, and the filter is linear. '
     'For colour (masked) images only the unmasked pixels of the neighbourhood count, the factor is their number, the mask is kept, and masked grey values have no influence. '
     'Even sizes and masks without a uniform colour pattern are refused with a value error, and the input is never modified.',
     ['inputs'], 'all image shapes, integer and float pixel types, odd sizes, Bayer-like masks in any phase',
     'One random 1000x1000 image with a loose tolerance of 3 on the mean is tried, with one mask phase.',
     [S + 'process/routines.py'],
     [('kernel and cropping', 'routines.high_pass_filter')],
     ['routines.high_pass_filter'])

prop('C16', 'Spectrograms preserve the noise power and its frequencies',
     'The row spectrogram of an image is the mean over its rows of the power spectrum of the image without its mean value, from zero up to the Nyquist frequency: its properly doubled total equals the image variance times the row length (Parseval), a pure sine of any period appears at the bin whose reported frequency is that period\'s inverse in cycles per pixel, and it scales with the square of the grey value and with 1/n^2 for a sum of n images. '
     'The column spectrogram is the row spectrogram of the transposed image. '
     'For masked images only the unmasked samples of each row are used, fully masked rows are dropped, all rows are truncated to the shortest, and the input is never modified.',
     ['inputs'], 'all image shapes with even and odd row lengths, any frequencies, any masks',
     'Tests check that a few spectra exceed 1 somewhere; scaling, frequency axis and truncation are not checked.',
     [S + 'process/routines.py', S + 'process/plotting.py'],
     [('FFT and halving', 'routines.FFT1288'), ('frequency axis', 'routines.GetFrecs'), ('mask compression', 'routines._row_wise_compress')],
     ['routines.FFT1288, routines.GetFrecs'])

prop('C17', 'Results are complete, repeatable and free of side effects',
     'The results dictionary lists every documented quantity exactly once, with its section, description, unit and symbol, and with the same value as the quantity read individually; grouping by section is a partition of it, and the printed results show every scalar value. '
     'Values do not depend on which quantities were read before, how often, in which order, or on other result objects alive; reading results, histograms, plots or reports never changes the measurement data, and what a caller does with returned data changes no later result.',
     ['histories', 'inputs'], 'all sequences of reads over several interleaved result objects on all data sets',
     'Tests read each quantity once on a fresh object; no test repeats reads, interleaves objects or looks at the input data afterwards.',
     [S + 'process/results.py', S + 'process/routines.py'],
     [('documented-quantity extraction', 'routines.cls_1288_info, obj_to_dict'), ('grouping', 'routines._sections_first'), ('caching', 'results._index_u_ysat')],
     ['Results1288.results, results_by_section, attributes'])

prop('C18', 'Exported XML carries every result without loss',
     'Exporting results as XML, to a file or a string, and reading the XML back (from that file or string) returns every section and quantity with bit-identical scalar values (NaN and absent values included), bit-identical histogram arrays and unchanged descriptive text. '
     'Files written with CamelCase tags and decimal commas, with or without comments, are read to the same values, and text that is not XML is reported and yields nothing.',
     ['inputs'], 'all result sets (extreme magnitudes, negative, NaN, None, integer, long arrays) and foreign result files of the documented format',
     'There is no test of XML export or import.',
     [S + 'process/routines.py', S + 'process/results.py'],
     [('writer', 'routines.dict_to_xml, results.xml'), ('reader', 'routines.xml_to_dict')],
     ['Results1288.xml(), routines.dict_to_xml / xml_to_dict'])

prop('C19', 'XML comparison says OK exactly for results equal to seven digits',
     'Comparing two result files lists every section present in either, and every quantity that either has in a common section, once, and marks a numeric value OK exactly when both values agree after rounding to seven significant digits, and a histogram OK exactly when both have the same arrays element by element to that accuracy. '
     'A quantity or section missing on one side is marked FAIL; values that could not be computed (none, not a number) agree only with one another, so comparing a file with itself marks everything OK; the verdicts do not depend on the order of the two files; the report text returned and the one written to a file are the same.',
     ['inputs'], 'all pairs of result files: identical, perturbed above or below the seventh digit in any position of any quantity, with missing or additional quantities, any magnitudes and signs',
     'There is no test of the comparison (which failed for every non-zero number with the supported numpy versions).',
     [S + 'process/routines.py'],
     [('rounding', 'routines.round_significant'), ('comparison', 'routines.compare_xml')],
     ['routines.compare_xml return value and file'])

prop('C20', 'Simulated images are always valid images of the configured camera',
     'For every camera configuration and light level, a grabbed image has the configured height and width, an integer type wide enough for the bit depth (8 bit up to depth 8, 16 bit up to depth 16), and values between 0 and 2^bits - 1 that never exceed gain times full well plus black offset (to rounding); darkness gives the dark level and overwhelming light gives full scale or the full-well limit. '
     'Increasing light, exposure, black offset or gain never decreases the expected image.',
     ['inputs', 'configurations'], 'all bit depths 1 to 32, image sizes, gains, black offsets, full wells, dark signals up to and above the full well, exposures, temperatures, nonuniformity maps (dark signal also negative) and radiances from zero to far above saturation',
     'The tests grab a handful of 8 bit images with the default configuration and compare shapes or means.',
     [S + 'camera/camera.py'],
     [('signal chain, clipping and type', 'camera.Camera.grab, __init__')],
     ['Camera.grab'])

prop('C21', 'Simulated pixels obey the linear camera model in mean and variance',
     'Below saturation, the mean grey value of each pixel is K times (thermal electrons + light electrons times its PRNU factor + dark signal + its DSNU) plus the black offset, and its temporal variance is K squared times (thermal + light electrons times PRNU + dark signal variance) plus the quantisation noise. '
     'Thermal electrons are the reference dark current times exposure, doubling with every doubling temperature; light electrons are photons times quantum efficiency summed over wavelengths; temperature and f-number passed with a grab apply to that grab only. Outside the linear range the only departures are that a well never holds fewer electrons than none nor more than the full well, and that grey values end at 0 and at full scale.',
     ['inputs', 'configurations'], 'all camera configurations and light levels, with arbitrary nonuniformity maps and quantum-efficiency cubes',
     'Three default-configuration scenes are compared within several DN; variances, temperature, exposure and f-number dependence are not tested.',
     [S + 'camera/camera.py', S + 'camera/routines.py'],
     [('signal chain', 'camera.grab'), ('dark current', 'camera._u_therm, _u_i'), ('light', 'camera._u_e, get_photons')],
     ['Camera.grab statistics over stacks'])

prop('C22', 'Photon and radiance conversions are inverse and hit the requested level',
     'Converting radiance to photons and back (same exposure, pixel area, f-number, wavelength) returns the original value; photons are proportional to radiance, exposure and pixel area, and follow the documented physical formula. '
     'The radiance computed for a grey level (full scale by default), at the camera\'s or at a given exposure, yields exactly the photons whose electrons plus the thermal electrons at that exposure, times K, make that level; explicit exposure and f-number arguments take precedence over the camera\'s without changing it.',
     ['inputs', 'configurations'], 'all exposures, pixel areas, f-numbers, wavelength sets, gains, targets and temperatures',
     'Only monotonicity of one pair of images (dark against near-saturation) is tested.',
     [S + 'camera/routines.py', S + 'camera/camera.py'],
     [('formulas', 'routines.get_photons, routines.get_radiance'), ('target level', 'camera.Camera.get_radiance_for')],
     ['routines.get_photons/get_radiance, Camera.get_photons/get_radiance_for'])

prop('C23', 'Simulation is reproducible from its seed and has no hidden state',
     'Two cameras (or data set generators) built with equal parameters and the same seed and used in the same way produce identical images (and files); different seeds produce different noise, and consecutive images of one camera differ in noise. '
     'Grabbing or converting never changes the camera\'s settings, its nonuniformity or quantum-efficiency maps, or any array the user passed in, and cameras do not influence one another.',
     ['histories', 'configurations'], 'all interleavings of grabs, conversions and setting changes over several cameras alive at once',
     'No test uses the seed or more than one camera at a time, or looks at the state after a grab.',
     [S + 'camera/camera.py', S + 'camera/routines.py', S + 'camera/dataset_generator.py'],
     [('own random generator', 'camera.Camera._rng'), ('copies', 'camera._u_e, routines.Qe')],
     ['Camera.grab sequences, generated files'])

prop('C24', 'Gain and black offset always take the nearest available setting',
     'Whatever gain or black offset is requested, at construction or later, the camera uses a member of its published list of settings and no member is nearer to the request; requests outside the range use the end of the range. '
     'The published lists are evenly spaced from the configured minimum to maximum with the configured number of steps (maximum black offset by default one sixteenth of full scale).',
     ['inputs', 'configurations'], 'all setting ranges, step counts and requested values (inside, outside, exactly between two settings)',
     'No test looks at the discrete settings.',
     [S + 'camera/camera.py', S + 'camera/routines.py'],
     [('nearest value', 'routines.nearest_value'), ('setters', 'camera.K, camera.blackoffset')],
     ['Camera.K, Ks, blackoffset, blackoffsets'])

prop('C25', 'A generated data set holds exactly the images that were captured',
     'Every image the simulated camera captured for a generated data set is stored losslessly once, listed once in the descriptor, in capture order, under the exposure and photon count (rounded to one and three decimals) in force at its capture, two per temporal point and L per spatial point, dark points as dark. '
     'Temporal points cover the whole, or the requested, exposure or light range in equal steps of the requested number with one dark series per exposure, and the spatial pair sits at mid range. '
     'The test runs at the gain and black offset given; where none is given, at the lowest ones that make the dark noise exceed 0.5 DN (difference of two images) and leave at most 0.5 % of dark pixels at zero. '
     'Parsing and loading the descriptor gives the same numbers as reducing the captured images directly. Images deeper than the image format can hold are refused, never cut.',
     ['histories', 'configurations'], 'all generator configurations: one- and multi-exposure, bit depths 1 to 32, image formats, sizes, step counts, stack lengths, output directories',
     'Tests compare one parsed series\' length and photon count; stored pixel values are never compared with captured ones.',
     [S + 'camera/dataset_generator.py', S + 'camera/points_generator.py', S + 'process/loader.py'],
     [('capture and bookkeeping', 'dataset_generator.run_test, save_image, _get_descriptor_line'), ('points', 'points_generator.PointsGenerator')],
     ['Camera.grab calls, files on disk, parsed and loaded data'])

prop('C26', 'Processing recovers the parameters of the simulated camera',
     'Simulating a camera that satisfies the model, generating its data set and processing it end to end returns its system gain, quantum efficiency, dark noise, dark current (multi-exposure), DSNU and PRNU (total, row, column and pixel) and saturation within the statistical uncertainty of the data. '
     'The one-call interface gives the same results as calling parser, loader, data and results one after the other; images grabbed directly, without files, give the same parameters, and the documented example programs run to their end and state these results.',
     ['configurations', 'inputs'], 'all model-conforming cameras with known parameters, in one- and multi-exposure tests at 8 to 16 bit; the saturation is bounded from both sides where the converter saturates before the full well',
     'Two fixed simulated cameras are compared within wide absolute limits; row, column and pixel nonuniformity, dark noise and saturation are not compared with the truth.',
     [S + 'process/__init__.py', S + 'process/parser.py', S + 'process/loader.py', S + 'process/data.py', S + 'process/results.py', S + 'camera/camera.py', S + 'camera/dataset_generator.py'],
     [('whole pipeline', 'process.Emva1288'), ('documented programs', 'doc/examples/*.py')],
     ['Emva1288(...), Results1288(...)'])

prop('C27', 'Every plot shows the measured and fitted curves of every test given',
     'For any number of tests, each standard plot contains for every test, identified by its own id, the data curve with the values that the results hold (dark-corrected signal against photons, photon transfer, SNR, linearity and its deviation, dark signal, spectrograms against frequency, histograms, profiles) and, where it has them, the fit line, fit range and saturation markers computed from that test\'s own results; the units that the axes state are those of the curves, and the axes reach over the data of every test, whatever the order. '
     'Plotting works for one- and multi-exposure tests of any image size and does not change the tests\' data. '
     'Plot classes written by the user, alone or among the standard ones, get a new figure with their title, labels and scales, every test once in the order given and one closing call; plotting again or with other figures open leaves those figures as they were.',
     ['inputs', 'configurations'], 'all data sets, image sizes of at least 8 by 8, any numbers of bright and dark images, any number and order of tests with a saturation above the sensitivity threshold, any subset of plots',
     'The tests only check that a PDF file exists for each plot of a single test.',
     [S + 'process/plotting.py'],
     [('plot classes', 'plotting.Emva1288Plot subclasses'), ('test list', 'plotting.Plotting1288')],
     ['lines of the matplotlib axes'])

prop('C28', 'The report contains every operation point with its own results and plots',
     'The generated report lists every added operation point once, in the order added, under a unique label, with that point\'s name, camera settings, test parameters and own result figures (value at the displayed precision, with its unit; a dash for missing values), includes only plot and logo files that exist in the report directory, and has the extra plots unless a summary is asked for. '
     'Vendor, setup, marketing and cover-page information given by the user appears in it, and building one report does not affect another one or the information objects passed in, which may be used again.',
     ['inputs', 'histories'], 'all sequences of added operation points with different data, with or without pixel area, summaries, optional information and several reports in one process',
     'Tests check the existence of files for one operation point with empty information.',
     [S + 'report/report.py', S + 'report/templates/report.tex', S + 'report/templates/op.tex', S + 'report/templates/op_header.tex', S + 'report/templates/general_info.tex', S + 'report/templates/emvadatasheet.sty'],
     [('collection', 'report.Report1288.add'), ('rendering', 'report.latex, templates'), ('files', 'report._make_dirs, _plots')],
     ['files in the report directory'])

prop('C29', 'Filters, patterns and bad pixels land exactly where they should',
     'Tiling a one- or two-dimensional pattern to any size repeats it periodically from the top-left corner without gaps; a Bayer filter of any size repeats its two-by-two cell with each colour\'s transmission normalised to one at its peak wavelength; a sensor\'s quantum efficiency with a filter is the elementwise product, leaves the given arrays unmodified, and efficiency data of the wrong shape is refused with a value error. '
     'Adding bad pixels changes exactly the requested number of pixels, each to the requested fraction of full well (full well by default), and no other, nor any array of the user or another camera.',
     ['inputs', 'configurations'], 'all pattern and image sizes (also not multiples of one another), wavelength sets, colour cells and bad-pixel counts',
     'Tests tile all-zero patterns only, and look at one Bayer camera through a 10 DN tolerance; bad pixels are never tested.',
     [S + 'camera/routines.py', S + 'camera/bad_images.py'],
     [('tiling', 'routines.get_tile, array_tile'), ('filter', 'routines.get_bayer_filter, Qe'), ('bad pixels', 'bad_images.bad_pixel')],
     ['return values, Camera.DSNU, Qe.qe'])

prop('C30', 'Damaged files and failing writes are never passed over, and nothing stays open',
     'An image file that is cut short at any byte, empty, replaced by something that is no image, or cannot be read, makes loading fail with an error: data are never made from part of a file. A result file cut short yields nothing. '
     'When a file of a generated data set, XML export, comparison text or report cannot be opened or completely written, the operation fails with an error instead of reporting success; repeating it in good conditions gives the normal, complete outcome, also in a report directory left over from a failure or holding other files. '
     'After success or failure no file stays open, any number of images is generated, loaded and processed with a handful of open files, and the memory for loading and generating does not grow with the number of series or images.',
     ['inputs', 'crash_points', 'fault_sequences'], 'all places of a cut in image, descriptor and result files in all formats, all points of failure of a read, open or write, all numbers of images',
     'Tests never damage a file, let a write fail, or count open files or memory.',
     [S + 'process/loader.py', S + 'process/routines.py', S + 'process/parser.py', S + 'camera/dataset_generator.py', S + 'report/report.py'],
     [('reading', 'routines.load_image, LoadImageData._load_imgs'), ('writing', 'DatasetGenerator.run_test, dict_to_xml, compare_xml, Report1288._make_dirs, _write_file')],
     ['exceptions, files on disk, open file descriptors, traced memory'])

prop('C31', 'Measurements handled at the same time do not mix',
     'Parsing, loading, reducing, computing and exporting results, comparing result files, simulating cameras and generating data sets give in several threads at the same time, in any interleaving, exactly what each gives alone; the same holds for threads that read one results object, one measurement or one description together.',
     ['schedules', 'histories'], 'all combinations of independent operations and all thread switches between lines of the package (plots and reports excluded: matplotlib is not made for threads)',
     'Tests run one operation at a time.',
     [S + 'process/parser.py', S + 'process/loader.py', S + 'process/data.py', S + 'process/results.py', S + 'process/routines.py', S + 'camera/camera.py', S + 'camera/routines.py', S + 'camera/dataset_generator.py'],
     [('state of the objects', 'ParseEmvaDescriptorFile, LoadImageData, Data1288, Results1288, Camera, DatasetGenerator')],
     ['return values, files written, recorded thread switches'])

prop('C32', 'Colour cameras are measured by the pixels of one colour',
     'When the loading function masks all pixels but those of one colour of a regular pattern (such as one position of the Bayer cell) and the number of these pixels is given, every temporal statistic, every figure (with row, column and pixel nonuniformity), the DSNU histograms, profiles and spectrograms are those that images made of only these pixels give; PRNU histograms hold each of these pixels with a complete neighbourhood once; profiles show the pixels at their own places. '
     'The grey values of the other colours have no influence on any of them, and processing changes neither images nor masks. With a mask of another form (such as defect pixels), the temporal statistics, the sensitivity, linearity and dark current figures, the means and variances of the images and the DSNU histograms are those of the remaining pixels, and what masked pixels show influences nothing. '
     'For a simulated camera with a filter pattern, every colour gives the camera\'s gain and dark noise and its own quantum efficiency and nonuniformity within the statistical uncertainty.',
     ['inputs', 'configurations'], 'all image sizes, 2x2, 1x2 and 2x1 patterns, all positions, one- and multi-exposure measurements, any content of the other pixels',
     'Tests never process masked images.',
     [S + 'process/data.py', S + 'process/results.py', S + 'process/loader.py', S + 'process/plotting.py', S + 'process/routines.py', S + 'camera/routines.py'],
     [('statistics', 'data.Data1288._get_temporal_data, _get_spatial_data'), ('figures', 'results.Results1288'), ('histograms', 'routines.Histogram1288_data'), ('pattern', 'camera.routines.Qe, get_bayer_filter')],
     ['Data1288.data, Results1288.results, .xml(), plot lines'])

prop('C33', 'Outcomes do not depend on the process they are computed in',
     'Parsing, loading, reduction, figures, XML files, comparisons, printed results, plot curves, simulated images, generated data sets, reports and refusals of the same inputs are the same, to the bit, in every process: whatever its hash seed, locale and default text encoding, time zone, file mask, home directory, plotting backend or interpreter optimisation (-O), whatever global print, error, warning, logging, random and plotting settings its user has made, and in whatever order or how often the operations run.',
     ['configurations', 'histories'], 'all operations in CPython processes on one machine, documentation strings kept (the figures are described by them, so -OO is excluded), file dates and drawn plot files excluded',
     'Tests run in one process with one environment.',
     [S + 'process/parser.py', S + 'process/loader.py', S + 'process/data.py', S + 'process/results.py', S + 'process/routines.py', S + 'process/plotting.py', S + 'camera/camera.py', S + 'camera/routines.py', S + 'camera/dataset_generator.py', S + 'report/report.py'],
     [('text files', 'routines.dict_to_xml, compare_xml, report._write_file, dataset_generator.run_test, parser._load_file'), ('order', 'loader._load_data, compare_xml'), ('random numbers', 'camera.Camera')],
     ['return values, files written, printed text, exceptions'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
