"""Writes /verif/properties.jsonl (kept as code so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
MI="micropolarray/micropol_image.py"; IM="micropolarray/image.py"; PF="micropolarray/polarization_functions.py"
PR="micropolarray/processing/"; UT="micropolarray/utils.py"; CA="micropolarray/cameras.py"
T16="today's tests use one 8x8..40x40 dummy image whose four pixel families are the constants 1..4"

p("C01","Polarization parameters follow from the four orientations",
  "For every even-sided image and every assignment of the orientations 0, 45, -45, 90 to the four superpixel positions, I is half the sum of a superpixel's pixels, Q its 0 minus its 90 pixel, U its 45 minus its -45 pixel, pB = sqrt(Q^2+U^2), AoLP = half the angle of the (Q,U) vector (radians, within [-pi/2, pi/2]) and DoLP = pB/I, with 0 where I is 0; the per-orientation views show exactly the pixels of the position assigned to that orientation. Light of any intensity, degree and angle of polarization seen through ideal polarizers is therefore recovered. The process-wide default assignment applies only to images created without one, and changing it never affects existing images.",
  ["inputs","configurations"],"all even image sizes, pixel types and values, all 24 orientation assignments",
  T16+" and two orientation assignments; a per-pixel, sign, ordering or zero-intensity error on other inputs is invisible.",
  [MI,PF],[("theoretical Stokes computation",MI+":_get_theo_Stokes_vec_components"),("pB/AoLP/DoLP",PF),("default assignment",MI+":set_default_angles")],
  ["MicropolImage.I/Q/U/pB/AoLP/DoLP","MicropolImage.pol0/pol45/pol_45/pol90","set_default_angles"],
  [dict(name="DEFAULT_ANGLES_DIC",meaning="process-wide default orientation assignment",where=MI)])
p("C02","Splitting and merging the pixel mosaic are inverse",
  "Splitting any even-sided array yields the four pixel families in the order (row 0,col 0), (0,1), (1,0), (1,1) of each superpixel, unchanged; merging four equally sized families puts each back at those positions; so split-then-merge and merge-then-split both return the original. An array with an odd side is rejected with ValueError.",
  ["inputs"],"all even and odd array shapes, pixel types, memory layouts and values",
  T16+", all square, float and contiguous.",
  [PR+"demosaic.py"],[("split",PR+"demosaic.py:split_polarizations"),("merge",PR+"demosaic.py:merge_polarizations")],
  ["split_polarizations","merge_polarizations","MicropolImage.single_pol_subimages"])
p("C03","Rebinning sums each pixel family over whole blocks",
  "Rebinning a micropolarizer image by n replaces each n x n block of superpixels by one superpixel whose four pixels are the sums of the same-position pixels of that block; rebinning a plain image by n sums each n x n block of pixels. Only trailing rows and columns that do not fill a block are dropped (also of arrays with odd sides handed to the array functions), so flux is otherwise conserved, rebinning by a then b equals rebinning by a*b when sizes divide, and I, Q, U of the result are the block sums of the original's. A binning of zero or less raises ValueError.",
  ["inputs","configurations"],"all image sizes (including non-square and non-divisible), binnings and values",
  "tests try binnings 2 and 4 on a 16x16 image with constant families, so position, trimming and weight errors cancel out.",
  [PR+"rebin.py",MI,IM],[("micropolarizer rebin",PR+"rebin.py:micropolarray_jitrebin"),("plain rebin",PR+"rebin.py:standard_jitrebin"),("trimming",PR+"rebin.py:trim_to_match_2xbinning, trim_to_match_binning")],
  ["MicropolImage.rebin","Image.rebin","micropolarray_rebin","standard_rebin","trim_to_match_binning"])
p("C04","Shifting moves pixels by the given amount and fills the rest",
  "Shifting a plain image by (y, x) moves every pixel down/right by y and x (up/left when negative), drops what leaves the frame and fills the vacated pixels with the missing value (0 by default); the size is kept and shifts at least as large as the image give only missing values. Shifting a micropolarizer image does the same to each pixel family separately, so pixels never change family and the polarization parameters are those of the shifted data.",
  ["inputs"],"all image sizes and types, all signed shifts including beyond the frame, all missing values",
  "tests shift one 4x4 image by (1,0) and (0,-1).",
  [PR+"shift.py",IM,MI],[("shift",PR+"shift.py:shift"),("per-family shift",PR+"shift.py:shift_micropol")],
  ["Image.shift","MicropolImage.shift"])
p("C05","Demosaicing reconstructs each orientation at full resolution",
  "Demosaicing yields four full-size images, one per pixel family. In 'adjacent' mode the top-left pixel of each superpixel takes that superpixel's family value and the other three the average with the right, lower, and all three neighbouring superpixels' values (edges repeat the last superpixel); in 'mean' mode all four pixels take a quarter of the family value; 'spline' resamples each family linearly to full size. I, Q, U become full-size and are computed from the four images as for superpixels; an unknown mode raises ValueError.",
  ["inputs","configurations"],"all even sizes, values, pixel types and modes",
  T16+", for which any interpolation weights or neighbour choice give the same answer.",
  [PR+"demosaic.py",MI],[("adjacent",PR+"demosaic.py:demosaicadjacent"),("mean",PR+"demosaic.py:demosaicmean"),("dispatch and edge padding",PR+"demosaic.py:demosaic")],
  ["MicropolImage.demosaic","MicropolImage.demosaiced_images","demosaic"])
p("C06","Arbitrary resizing interpolates each family linearly",
  "Resizing an array to any new height and width of at least 2 interpolates linearly on the grid that maps first to first and last to last sample in each direction, so the same size is the identity and linear ramps stay linear. Resizing a micropolarizer image does this to each pixel family at half the new size and reassembles the mosaic, trimming an odd requested size down to even; its I, Q, U, and its demosaiced images if it has any, are the same resampling of the original's.",
  ["inputs"],"all source and target sizes (growing, shrinking, non-square, odd) and values",
  "the only test resizes constant families from 40x40 to 16x16, for which any interpolation is exact.",
  [PR+"congrid.py",MI],[("resampling",PR+"congrid.py:congrid"),("per-family use",MI+":congrid")],
  ["congrid","MicropolImage.congrid"])
p("C07","Rotation turns each pixel family and the parameters together",
  "Rotating a micropolarizer image by an angle turns each pixel family's image, each of I, Q, U, and each demosaiced image if it has any, counter-clockwise by that angle about its centre with nearest-neighbour sampling and zero fill, so no pixel changes family and no value is invented; 0 and 360 leave everything unchanged, 180 (and 90, 270 on square images) is the exact quarter-turn, to single precision. The original image is not changed.",
  ["inputs"],"all image sizes, values and angles",
  "rotation has no test at all.",
  [MI],[("rotation",MI+":rotate")],["MicropolImage.rotate"])
p("C08","Image arithmetic is pixelwise and well defined everywhere",
  "Adding, subtracting, multiplying or dividing an image by another of the same class and size, by a number or by an array gives a new image of that class whose pixels are the pixelwise results; dividing by zero gives 0 there, never arbitrary memory contents. Micropolarizer results keep the first operand's header entries and orientation assignment and carry the polarization parameters of the new data; neither operand changes.",
  ["inputs","configurations"],"all operand kinds, sizes, values (including zero divisors), pixel types and orientation assignments",
  "tests combine two constant images and never divide by zero, combine different headers or use a non-default assignment.",
  [IM,MI],[("operators",IM+":__add__/__sub__/__mul__/__truediv__"),("operators",MI+":__add__/__sub__/__mul__/__truediv__")],
  ["Image + - * /","MicropolImage + - * /"])
p("C09","Dark and flat corrections do the documented pixel arithmetic",
  "Subtracting a dark image gives max(data - dark, 0) at every pixel for any pixel type, including unsigned ones; correcting by a flat divides each pixel by flat/mean(flat), leaving pixels where the flat is zero unchanged, so the flat's overall scale is irrelevant and an image proportional to the flat becomes uniform. Giving dark and flat when creating the image applies the dark first and then the flat; polarization parameters are those of the corrected data and dark and flat are not modified.",
  ["inputs","configurations"],"all images, darks (also brighter than the image) and flats (also with zero pixels), all pixel types and both ways of applying them",
  "tests subtract an image from itself and divide a constant by a constant.",
  [MI],[("dark",MI+":subtract_dark"),("flat",MI+":correct_flat")],["MicropolImage(dark=,flat=)","MicropolImage.subtract_dark","MicropolImage.correct_flat"])
p("C10","Field-of-view correction averages the right superpixels",
  "The instantaneous-field-of-view correction replaces each pixel by the mean of the same-family pixels of its own, upper, left and upper-left superpixels, and sets the first superpixel row and column to zero. The Chen-Wan-Liang calibration multiplies each superpixel's four pixels (row by row), after subtracting the offset image, by that superpixel's stored 4x4 matrix and then applies this correction, giving fractional results for integer images too.",
  ["inputs"],"all even sizes, values, pixel types, calibration matrices and offsets",
  "neither function has a test.",
  [PR+"chen_wan_liang_calibration.py",MI],[("ifov",PR+"chen_wan_liang_calibration.py:_ifov_jitcorrect"),("apply",PR+"chen_wan_liang_calibration.py:chen_wan_liang_calibration")],
  ["MicropolImage.correct_ifov","chen_wan_liang_calibration"])
p("C11","Derived images are independent of their source",
  "Creating an image from an array or another image, and every operation documented to return a copy (rebin, resize, shift, rotate, demodulate, hot-pixel cleaning, arithmetic), leaves the source's pixels, header, orientation assignment, demosaiced images and polarization parameters exactly as they were. A copy made from an image starts equal to it (pixels, header entries, parameters), and later in-place changes of either one (dark, flat, field-of-view, demosaicing, occulter masking, header edits) never show in the other.",
  ["histories","inputs"],"all images, all copy-producing operations, followed by any in-place operation on either side",
  "tests never look at the source after an operation and never modify a copy.",
  [MI,IM],[("copy construction",MI+":_import_image_parameters"),("copy construction",IM+":_init_image_from_image"),("rotation",MI+":rotate"),("masking",MI+":mask_occulter")],
  ["MicropolImage(image)","Image(image)","operations returning copies"],
  [dict(name="Stokes_vec",meaning="polarization parameters stored with the image",where=MI),dict(name="header",meaning="FITS header",where=IM)])
p("C12","Images stay self-consistent through any operation sequence",
  "After any sequence of arithmetic, rebinning, shifting, resampling, rotating, dark and flat correction, field-of-view correction, hot-pixel cleaning, demosaicing, demodulating and copying, the pixels are those obtained by applying the documented operations in order, and I, Q, U, pB, AoLP, DoLP are those of the current pixels: per superpixel, or from the demosaicing of the current pixels once the image has been demosaiced; those of a calibration, or resampled and rotated ones (with the demosaiced images resampled and rotated alike), stay until the pixels change. Height, width and the header's NAXIS1/NAXIS2 always match the current pixels, and the orientation assignment never changes.",
  ["histories"],"all operation sequences and starting images",
  "tests apply single operations to fresh images; stale parameters or sizes only appear after combinations.",
  [MI,IM],[("data setter",IM+":data"),("parameter update",MI+":_update_data_and_Stokes")],["MicropolImage attributes after each operation"],
  [dict(name="_is_demosaiced/demosaiced_images",meaning="demosaiced state carried along",where=MI)])
p("C13","Images survive saving to FITS and loading back",
  "Saving an image as FITS and loading it back returns the same pixel values for every supported pixel type and value (including values from files stored as unsigned integers), the same size and the image's header entries; saving twice to a path keeps only the second image, missing parent directories are created, and a name not ending in .fits raises ValueError and writes nothing. Saving with a [min, max] range stores the values clipped to that range (zero bounds included) without changing the image in memory.",
  ["inputs"],"all image sizes, pixel types, values, header entries, path shapes and clip ranges",
  "one 16x16 float image is written and read back; clipping is never tested.",
  [IM,UT],[("save",IM+":save_as_fits"),("load",IM+":_init_image_from_file"),("clip",UT+":fix_data")],["Image.save_as_fits","MicropolImage.save_as_fits","Image(filename)"])
p("C14","Exported polarization files hold the right planes",
  "Exporting single orientations, demosaiced images, one polarization parameter or all of them writes exactly one FITS file per plane, named after the given file plus _POL<angle> or _<parameter>, next to the requested path; each holds exactly the plane its name and its POL/PARAM/UNITS header entries announce, for every orientation assignment, plus the image's own header entries, and values are clipped when a range is given. Names without a .fits extension and exporting demosaiced images before demosaicing raise ValueError; the image itself is not changed.",
  ["inputs","configurations"],"all images, orientation assignments, parameters, file names and clip ranges",
  "the writing tests never read the files back.",
  [MI],[("exports",MI+":save_single_pol_images, save_param_as_fits, save_all_pol_params_as_fits, save_demosaiced_images_as_fits")],
  ["files on disk"])
p("C15","Loading several files averages or sums them",
  "Loading a list of FITS files gives their pixelwise mean (or their sum when averaging is off), whatever their order, number and pixel types, and records how many files were combined; when the files carry observation dates (ISO date-times or separate date and time entries) the earliest and latest are recorded as start and end. A single file loads its pixels and header unchanged and keeps its name; an empty list or a .raw file raises NameError.",
  ["inputs"],"all numbers, orders, pixel types and contents of files, and date header forms",
  "no test loads more than one file.",
  [IM,MI],[("file loading",IM+":_init_image_from_file")],["Image([...])","MicropolImage([...])","header SUMOF/STRT-OBS/END-OBS"])
p("C16","Raw 16-bit frames convert to FITS without loss",
  "Converting a raw little-endian 16-bit frame gives a FITS file in the same directory with the same base name, whatever dots the path contains, holding every pixel value at its row-major place; the raw file is deleted only when asked, and nothing else is touched. Merging several frames stores their exact sum or mean, saving an image of 12-bit counts as raw and converting it back restores it, and wrong extensions raise ValueError without writing anything.",
  ["inputs"],"all frame sizes, 16-bit values, numbers of frames and path shapes",
  "raw conversion has no test.",
  [PR+"convert.py",IM],[("convert",PR+"convert.py:convert_rawfile_to_fits"),("merge",PR+"convert.py:merge_rawfiles_to_fits, average_rawfiles_to_fits"),("save raw",IM+":save_as_raw")],
  ["convert_rawfile_to_fits","merge_rawfiles_to_fits","average_rawfiles_to_fits","Image.save_as_raw"])
p("C17","Packed 12-bit PolarCam frames decode exactly",
  "Every group of three bytes of a PolarCam binary decodes to two 12-bit numbers: the first from the first byte and the high half of the second, the other from the third byte followed by the low half of the second. Decoding a whole 1952 x 1952 file gives every pixel in order, whatever the values (runs of zeros included), and converting a set of such files stores their mean.",
  ["inputs"],"all byte contents and numbers of files",
  "the decoder has no test.",
  [PR+"convert.py"],[("unpack",PR+"convert.py:three_bytes_to_two_ints"),("file decode",PR+"convert.py:nparr_from_binary"),("set",PR+"convert.py:convert_set")],
  ["three_bytes_to_two_ints","nparr_from_binary","convert_set"])
p("C18","Demodulation applies the tensor of each superpixel",
  "Demodulating an image gives, in every superpixel where the calibration found a fit (everywhere if it carries no such flags), I, Q, U equal to that superpixel's 3x4 matrix times its four pixels taken row by row, and the uncorrected parameters of its pixels elsewhere, also when the image was demosaiced or demodulated before; with demosaicing the same matrices act on the four demosaiced values of each pixel. The pixels, the original image and the calibration stay unchanged, and a calibration of another size raises ValueError.",
  ["inputs","configurations"],"all images, tensors, flag patterns, orientation assignments and both demosaicing choices",
  "tests use spatially constant tensors and images with every flag set and no demosaicing.",
  [MI],[("tensor product",MI+":_get_Stokes_from_demodulator"),("entry",MI+":demodulate")],["MicropolImage.demodulate"])
p("C19","Stored calibrations are read back faithfully",
  "Opening a calibration folder yields the 12 matrices at their (row, column) place regardless of directory order, (digit-free) file name prefix, number format or unrelated files without two-digit numbers, the fit flags if present, and the stored transmittances, efficiencies, phases and covariances; a missing folder, no FITS files, or any missing matrix raises an error instead of leaving zeros. The orientation assignment derived from the phases is the right one for any order of families and phases within 15 degrees of nominal, modulo 180; flipping or rotating the calibration moves matrices and flags together.",
  ["inputs","configurations","fault_sequences"],"all tensor contents, sizes, storage types, missing-file subsets, family orders and phase deviations",
  "tests read two well-formed folders with constant matrices and the default order.",
  [PR+"demodulation.py"],[("reader",PR+"demodulation.py:Demodulator._get_demodulation_tensor"),("orientations",PR+"demodulation.py:Demodulator.angle_dic"),("covariance",PR+"demodulation.py:Demodulator.Cij")],
  ["Demodulator.mij/fit_found_flags/Cij/eff/tk/phi/angle_dic","Demodulator.flip/rot90"])
p("C20","Calibration recovers the polarizer parameters of each pixel",
  "From noise-free images of fully polarized light at known angles, seen through pixels of any transmittance, efficiency and orientation within the fit bounds (15 degrees of nominal), calibration stores each pixel's true transmittance, efficiency and phase in degrees, marks every superpixel as fitted, and stores the pseudo-inverse of the superpixel's modulation matrix. Demodulating with it returns the true I, Q, U of any light seen through those same pixels.",
  ["inputs","configurations"],"all per-pixel parameters, angle sets, signal levels, image sizes and nominal family orders",
  "the test uses one transmittance, one efficiency, zero deviation and one size for all pixels.",
  [PR+"demodulation.py"],[("fit",PR+"demodulation.py:compute_demodulation_by_chunk"),("model",PR+"demodulation.py:Malus")],
  ["calculate_demodulation_tensor output files","Demodulator","MicropolImage.demodulate"])
p("C21","Calibration results do not depend on how the work is arranged",
  "For the same measurements the stored calibration does not depend on the process grid, nor on the order in which (angle, file) pairs, and the normalization images accompanying them, are listed; a grid that cannot cover the image in equal even pieces is rejected with ValueError. Scaling signal and normalization together changes no matrix, a normalization given as number, constant image or stack of constant images is equivalent, binning n equals calibrating the n-rebinned images, and dark and flat corrections with known dark and flat restore the uncorrected result, pixels whose flat is zero being left without a flat correction.",
  ["inputs","configurations","schedules"],"all measurement sets, process grids, list orders, scales, binnings, darks and flats",
  "tests use one grid (2x2) and one order with spatially constant data, so misplaced chunks are invisible.",
  [PR+"demodulation.py"],[("chunking and merging",PR+"demodulation.py:calculate_demodulation_tensor")],["calculate_demodulation_tensor output files"])
p("C22","Unusable superpixels fall back to the theoretical matrix",
  "In a calibration, a superpixel inside the given occulter circle (its centre included) or containing a pixel that is zero in every image, or not a finite number in some image, or transmitting or polarizing so little that its matrix has a coefficient beyond +-100, gets exactly the theoretical demodulation matrix of the nominal orientations and a zero fit flag; every other superpixel is fitted as if those were absent. Demodulating then uses the uncorrected parameters exactly at those superpixels. If 0, 45, 90 and -45 or 135 are not all measured and no normalization is given, calibration refuses with ValueError.",
  ["inputs","configurations"],"all occulter positions and radii, dead-pixel patterns, nominal family orders and angle sets",
  "no test has an occulter or a bad pixel.",
  [PR+"demodulation.py"],[("fallback",PR+"demodulation.py:compute_demodulation_by_chunk"),("occulter flags",PR+"demodulation.py:calculate_demodulation_tensor")],["calculate_demodulation_tensor output files"])
p("C23","Errors propagate by first-order error propagation",
  "The errors on I, Q, U are the square root of the squared demodulation matrix times the squared pixel errors of each superpixel; those on pB, DoLP and AoLP are the first-order propagation of independent errors on I, Q, U through their definitions, finite wherever pB and I are nonzero (Q or U alone may be zero). Errors are never negative and scale linearly with the pixel errors.",
  ["inputs"],"all Stokes vectors with nonzero I and pB, all nonnegative errors and all tensors",
  "error propagation has no test.",
  [PR+"demodulation_errors.py"],[("propagation",PR+"demodulation_errors.py:get_error_on_Stokes, get_error_on_pB, get_error_on_DoLP, get_error_on_AoLP")],["MicropolImageError.sigma_S/sigma_pB/sigma_DoLP/sigma_AoLP"])
p("C24","Polar regions select the right pixels",
  "A polar region of interest keeps the value of each pixel whose distance from the centre is above the lower and at most the upper radius and whose angle (from the horizontal, towards increasing row, in [0, 360)) is at least the lower and below the upper angle, and puts the fill value elsewhere; the boolean form marks the same pixels. In superpixel mode the same rule acts on superpixels with centre and radii halved, so superpixels are kept or dropped whole. By default the centre is the image centre and the radius reaches the nearest far border; the input is not changed and results never depend on earlier calls.",
  ["inputs","histories"],"all images, centres, radii, angles, fill values, modes and call sequences",
  "polar selection has no test.",
  [PR+"nrgf.py"],[("roi",PR+"nrgf.py:roi_from_polar"),("cached polar map",PR+"nrgf.py:map_polar_coordinates")],["roi_from_polar"])
p("C25","Occulter masking blanks pixels and parameters consistently",
  "Masking the occulter sets to the fill value every superpixel within the given radius (plus over-occultation) of the given centre and leaves all others untouched; I, Q, U are set to the fill value at exactly the masked superpixels (pixels, where the parameters have one value per pixel - once demosaiced, resampled or calibrated at full size - and the demosaiced images are masked like the data) and are otherwise unchanged. The camera's region and mask helpers select everything outside its last occulter position, the mask being bounded by the given or nearest-border radius.",
  ["inputs","configurations"],"all images, demosaiced or not, centres, radii, over-occultations and fill values",
  "masking has no test.",
  [MI,CA],[("masking",MI+":mask_occulter"),("camera masks",CA+":Camera.occulter_roi, occulter_mask")],["MicropolImage.mask_occulter","PolarCam().occulter_roi/occulter_mask"])
p("C26","The radial filter standardizes every ring",
  "The normalizing-radial-graded filter replaces each pixel of every ring of the given width around the centre, from the minimum radius out to the last ring that starts within the image, by its deviation from the ring's mean divided by the ring's standard deviation, mean and deviation being taken over the ring's pixels in the given averaging sector (0 where the deviation is 0 or the sector has no pixel in the ring); pixels within the minimum radius or outside the output sector are 0. The result is therefore unchanged when brightness is scaled by a positive factor or offset, and the input is not modified.",
  ["inputs"],"all images, centres, minimum radii, steps and sectors",
  "the filter has no test.",
  [PR+"nrgf.py"],[("filter",PR+"nrgf.py:nrgf")],["nrgf"])
p("C27","The occulter finder locates a dark disk",
  "For an image of a dark disk on a brighter background that crosses the central row and column, the finder returns the disk's edges along the central row and column, as centre (y, x) and mean half-width, to about a pixel, whatever the brightness scale, contrast, image shape and disk position (the Hough variant, for a disk much darker than the background, its centre and radius to a few pixels). Transposing the image swaps y and x, and the threshold method raises ValueError when there is no edge.",
  ["inputs"],"all disk positions, radii, contrasts, scales and image shapes in which the disk crosses the central lines",
  "the finders have no test.",
  [PR+"nrgf.py"],[("edges",PR+"nrgf.py:find_occulter_position"),("hough",PR+"nrgf.py:find_occulter_hough")],["find_occulter_position","find_occulter_hough"])
p("C28","Line profiles sample the line they were asked for",
  "A line profile between two distinct pixels visits the start pixel, then one pixel per step along the longer direction, each within one pixel of the straight line, and ends at the end pixel (within one pixel across the line), returning the image value at every visited position, also when the ends lie on the image border; in the first octant, the Bresenham rasterizer's points are those nearest to the line. A radial profile starts at the lower radius (or centre), runs at the given angle (0 towards increasing column, counter-clockwise with rows drawn downwards) up to the upper radius or image edge, never leaves the image, and returns matching values, positions and pixels-per-element ratio.",
  ["inputs"],"all image shapes, end points in all octants, centres, angles and radius ranges",
  "line selection has no test.",
  [PR+"linear_roi.py"],[("rasterizer",PR+"linear_roi.py:DDA"),("first-octant rasterizer",PR+"linear_roi.py:bresenham"),("line",PR+"linear_roi.py:linear_roi"),("radial line",PR+"linear_roi.py:linear_roi_from_polar")],["linear_roi","linear_roi_from_polar"])
p("C29","Hot-pixel handling touches only flagged pixels",
  "Cleaning replaces exactly the pixels flagged 1 in the map by the median (third smallest of the 2x2 neighbourhood reaching up and left, edges mirrored) of their own family and leaves all others as they were; the polarization parameters follow. Detection flags with 1 exactly the pixels whose contrast (value minus that median, over their sum) exceeds the threshold and gives 0 elsewhere, so an isolated bright pixel on a uniform background is found and removed.",
  ["inputs"],"all images, flag maps and thresholds",
  "hot-pixel functions have no test.",
  [MI,PR+"image_cleaning.py"],[("cleaning",MI+":clean_hot_pixels"),("detection",PR+"image_cleaning.py:get_hot_pixels")],["MicropolImage.clean_hot_pixels","get_hot_pixels"])
p("C30","The automatic threshold minimizes intra-class variance",
  "The automatic threshold is, among its evenly spaced candidates from one above the minimum to the maximum of the median-filtered data, one that minimizes the weighted within-class variance (Otsu's criterion), so it separates two well separated populations. Outlier rejection keeps, in order, exactly the values whose distance from the median is below the given multiple of the (nonzero) median deviation.",
  ["inputs"],"all images with a spread above one count, offsets, and value lists",
  "neither function has a test.",
  [PR+"image_cleaning.py"],[("otsu",PR+"image_cleaning.py:auto_threshold"),("outliers",PR+"image_cleaning.py:reject_outliers")],["auto_threshold","reject_outliers"])
p("C31","Angle normalization maps into a half-turn and keeps directions",
  "Normalizing angles in degrees returns, for a number or a list, a list of the same length and order with every angle in (-90, 90] and differing from the input by a multiple of 180; normalizing an array of radians does the same into (-pi/2, pi/2] with multiples of pi, keeping its shape. Angles already in range are returned unchanged, and normalizing twice equals normalizing once.",
  ["inputs"],"all finite angles and lists or arrays of them, including exact range ends",
  "angle normalization has no test.",
  [UT,PF],[("degrees",UT+":normalize2pi"),("radians",UT+":normalize2piarray")],["normalize2pi","normalize2piarray"])
p("C32","Statistics and unit helpers compute what they name",
  "Mean/median plus/minus n deviations equal the mean -/+ n standard deviations and the median -/+ n median absolute deviations; clipping bounds data to [min, max] and changes nothing inside; the pixel noise is sqrt(gain*DN)/gain with gain 6.93. The solar-brightness factor is transmittance 0.28 times solid angle 1.083e-5 over (exposure time times diffuser signal per second), so it is inversely proportional to the image exposure and diffuser signal and proportional to the diffuser exposure. None of them modifies its input.",
  ["inputs"],"all arrays, multiples, bounds (zero included), signals and exposure times",
  "the helpers have no test.",
  [UT],[("statistics",UT+":mean_minus_std, mean_plus_std, median_minus_std, median_plus_std"),("clip",UT+":fix_data"),("units",UT+":get_Bsun_units, sigma_DN")],["mean_minus_std, mean_plus_std, median_minus_std, median_plus_std","fix_data","get_Bsun_units","sigma_DN"])
p("C33","Header alignment keeps data, families and Sun position in step",
  "Aligning a square image and its header mirrors each pixel family about its anti-diagonal without moving pixels between families, so aligning twice restores the data; the header's NAXIS1/NAXIS2 match the data, CDELT is the plate scale times the binning, DATE-OBS becomes date T time, the coordinate system is helioprojective (HPLN-TAN, HPLT-TAN) in arcsec with value 0 at the reference pixel and -9 degrees rotation whatever the header said before, and the CRPIX keywords point (within a superpixel) at where the pixel at the given Sun centre has moved, positions being scaled from the 1952-pixel detector.",
  ["inputs"],"all square even images, Sun centres, plate scales and binnings",
  "header alignment has no test.",
  [UT],[("alignment",UT+":align_keywords_and_data")],["align_keywords_and_data"])
p("C34","Plots show the actual data and change nothing",
  "Every display function returns figure and axes whose drawn images are exactly the corresponding data or parameter planes in the documented order, honouring explicitly given colour limits (zero included) and taking those not given from that plane alone (its extremes for images and single orientations, mean plus and minus one standard deviation for the others), and histograms count every pixel once, per family when requested. Showing never modifies the image's pixels, header, demosaiced images or polarization parameters.",
  ["inputs","configurations"],"all images (non-square, negative, constant), orientation assignments and display options",
  "tests only check that plotting one dummy image does not raise.",
  [IM,MI,PR+"demodulation.py"],[("display",IM+":show, show_histogram"),("display",MI+":show_*"),("tensor display",PR+"demodulation.py:Demodulator.show")],["matplotlib axes contents"])
p("C35","The Malus normalization tracks the signal level",
  "The normalizing signal estimated from four images at 0, 45, 90 and 135 degrees is a single level slightly above (within a few standard deviations) the most frequent value of half their pixelwise sum; it scales proportionally with the images and does not depend on the order of the images or the position of the pixels. Calibrating without a given normalization uses this level, whatever other angles are present, also when -45 stands in for 135, and also when an orientation was measured repeatedly (its measurements are averaged).",
  ["inputs","configurations"],"all signal levels, noise widths, image orders, pixel arrangements and additional angles",
  "the normalization is never estimated in tests: they always pass it explicitly.",
  [UT,PR+"demodulation.py"],[("estimate",UT+":get_malus_normalization"),("estimate",PR+"demodulation.py:calculate_demodulation_tensor")],["get_malus_normalization","calculate_demodulation_tensor output files"])
p("C36","Calibration stores the covariances and chi-square of each pixel's fit",
  "For every fitted pixel the stored 3x3 covariances are those of the least-squares estimate of (transmittance, efficiency, phase in radians) from counts with Poisson noise of the given gain: the inverse of the sum over the images of the outer product of the Malus-curve derivatives divided by the variance of the normalized signal. They are symmetric, finite, stored at the pixel they belong to, and inversely proportional to the gain and to the exposure; matrices and parameters do not change with either. The stored reduced chi-square of a fitted pixel is the sum over the images of the squared residuals in units of their standard deviations over the number of images minus the three fitted parameters, and zero where nothing was fitted.",
  ["inputs","configurations"],"all per-pixel parameters, angle sets, gains, signal levels, image sizes and process grids",
  "no test looks at the stored covariances.",
  [PR+"demodulation.py"],[("errors and fit",PR+"demodulation.py:calculate_demodulation_tensor, compute_demodulation_by_chunk")],["covariance_tensor/C??.fits","covariance_tensor/reduced_chisquare.fits","Demodulator.Cij"])

p("C37","Files are read or written as asked, and never tie to what is in memory",
  "Loading images, correcting, calibrating, demodulating, computing errors, converting and merging raw frames never change, add or remove any file they read (unless its removal is asked for), whatever is later done in memory to the images and calibrations made from them; saving and exporting touch exactly the output files they name (relative names refer to the present working folder) and leave in them exactly the new contents, whatever was there before. Conversely an image that has been loaded, or a calibration that has been opened, (and any parameter read from it) does not change when its file is afterwards rewritten in place, replaced or deleted, and loading again shows the file's present contents.",
  ["histories","inputs"],"all histories of loading, opening, changing in memory, demodulating, saving and rewriting files, all pixel types and file sizes",
  "tests write files, read them once and delete them; an image that stays mapped to its file or a cache keyed by name shows only when files or images change afterwards.",
  [IM,MI,PR+"demodulation.py",PR+"convert.py"],[("loading",IM+":_data_from_path"),("opening a calibration",PR+"demodulation.py:Demodulator._get_Mij_tensor, _get_covariance"),("calibration",PR+"demodulation.py:calculate_demodulation_tensor"),("conversion",PR+"convert.py")],
  ["directory contents","MicropolImage","Image","Demodulator.mij, fit_found_flags"],
  [dict(name="image and calibration files",meaning="inputs and outputs on disk",where=PR+"demodulation.py, "+IM)])
p("C38","A pixel affects only the results defined from it",
  "Changing one pixel of an image - to any value, NaN and infinities included - changes only those pixels of the result that are defined from it: its own superpixel for the polarization parameters, IFOV-corrected and demodulated images, its block when rebinning, the same position for arithmetic, dark and flat (of an image), cleaning, masking and saving, its neighbours for demosaicing and resampling, its ring for the radial filter, its target for shifting, rotating and aligning. Everything else stays exactly as it was, so one dead or saturated pixel never spreads. A sum that contains a NaN pixel is NaN, never a made-up number.",
  ["inputs"],"all images, positions, operations and pixel values including NaN and infinities",
  "tests contain no NaN, no infinity and no single deviating pixel.",
  [MI,IM,PR+"rebin.py",PR+"demosaic.py",PR+"demodulation.py",PR+"shift.py",PR+"congrid.py",PR+"nrgf.py"],[("parameters",MI+":_get_theo_Stokes_vec_components"),("demodulation",PR+"demodulation.py:demodulate"),("rebinning",PR+"rebin.py"),("demosaicing",PR+"demosaic.py")],
  ["MicropolImage.data and parameters","Image.data","module functions"])
p("C39","The whole processing chain recovers the light that was observed",
  "A camera whose pixels have any transmittance, efficiency and orientation (within the fit bounds), dark level and flat response is calibrated from images taken through a rotated polarizer; raw frames of arbitrary polarized light taken with it, converted to FITS, averaged, dark- and flat-corrected, optionally rebinned, demodulated with that calibration and exported give I, Q, U equal to the light's within the rounding of the frames, and pB, AoLP and DoLP consistent with them.",
  ["inputs","configurations"],"all cameras within the bounds, light states, numbers of frames, angle sets, process grids, file routes, with and without dark, flat and binning",
  "no test goes from files to files, and the parts are tested with constant images.",
  [PR+"demodulation.py",MI,PR+"convert.py",PR+"rebin.py"],[("conversion",PR+"convert.py"),("corrections",MI+":subtract_dark, correct_flat"),("calibration",PR+"demodulation.py:calculate_demodulation_tensor"),("demodulation",PR+"demodulation.py:demodulate"),("export",MI+":save_all_pol_params_as_fits")],
  ["exported FITS files"])
p("C40","Processing different images at the same time gives the same results",
  "Several threads that each process images of their own - creating, correcting, resizing, demosaicing, demodulating, filtering, combining, saving and exporting (also into one folder, which need not exist yet), loading - while sharing calibrations, darks and flats, get exactly what each would get running alone: no call leaves intermediate results where another one sees them.",
  ["schedules","inputs"],"all sets of processing steps on different images and all interleavings of the threads running them",
  "the tests run in one thread.",
  [MI,IM,PR+"demodulation.py",PR+"demosaic.py",PR+"rebin.py"],[("parameters and corrections",MI),("demodulation",PR+"demodulation.py:demodulate"),("compiled functions",PR+"rebin.py, "+PR+"demosaic.py")],
  ["MicropolImage.data and parameters of each thread"])

p("C41","Calls leave their arguments, earlier results and later calls alone",
  "Calling any public function, constructor or method never changes the arguments it was given - arrays, lists, dictionaries, headers, other images, calibrations - except that methods documented to work in place change their own image; nor does it change anything an earlier call returned. What a call returns depends only on its arguments and the files they name (and the default orientation assignment): calling again later, in any order and after everything returned or passed in before has been overwritten, gives the same.",
  ["histories","inputs"],"all sequences of calls of all functions with all argument values, followed by any changes of what they returned",
  "tests call each function once and never look at an argument or an earlier result again.",
  [PR+"demodulation.py",PR+"nrgf.py",PR+"demosaic.py",UT,MI,PR+"congrid.py",PR+"rebin.py"],[("cached coordinates",PR+"nrgf.py:map_polar_coordinates"),("angle and header helpers",UT+":normalize2pi, align_keywords_and_data"),("calibration arguments",PR+"demodulation.py:calculate_demodulation_tensor"),("constructors",MI+":__init__")],
  ["arguments and results of every public function"],
  [dict(name="coordinate cache",meaning="polar coordinates kept between calls",where=PR+"nrgf.py:map_polar_coordinates")])

p("C42","The Chen-Wan-Liang calibration makes every superpixel ideal",
  "Computing the Chen-Wan-Liang calibration stores for each superpixel the average over the images of the 4x4 matrix that takes its four pixels, less their offset, to the response of four ideal polarizers of the given orientations to the light measured there (S0 the sum of its 0 and 90 pixels, S1 and S2 its Stokes differences), and the average offset; matrix and offset of an image are the least-norm solution of pixels = W S + offset. When all images show one pattern, applying the calibration to it therefore gives exactly that ideal response. Images are first dark-subtracted (never below zero, whatever the pixel type) and divided by the flat normalized to its maximum (less the dark, nonpositive pixels counting as 1; 1 inside the camera's occulter unless told otherwise). Dark, flat and occulter are optional, the order in which files are listed does not matter, the output folder is created, and file and orientation lists of different length or without 0, 45, 90 and -45 are refused with ValueError and nothing written.",
  ["inputs","configurations"],"all images and pixel types, angle sets, list orders, nominal orders, darks and flats, output folders",
  "no test computes this calibration.",
  [PR+"chen_wan_liang_calibration.py"],[("calibration",PR+"chen_wan_liang_calibration.py:calculate_chen_wan_lian_calibration"),("measured light",PR+"chen_wan_liang_calibration.py:_build_S_input")],
  ["C00.fits ... C33.fits, d_ij.fits","chen_wan_liang_calibration"])

p("C43","Calls that are refused leave everything as it was",
  "An operation that cannot be done raises an exception and changes nothing: rebinning by 0 or less, an unknown demosaicing mode, demodulating with matrices of another size, a dark, flat or arithmetic operand of another size (also given to the constructor), assigning pixels that are not two-dimensional, saving under a name without the required extension, saving an unknown parameter or demosaiced images before demosaicing, loading absent, empty, unreadable, raw or differently sized files or lists of them, opening an absent, empty or incomplete calibration, converting raw frames that are absent, too short or wrongly named, and computing either calibration (Malus fit or Chen-Wan-Liang) from missing orientations, impossible grids, or absent, unreadable or differently sized files. Afterwards the image (pixels, size, header, orientations, all parameters, demosaiced images), every argument, all files and - except for the folder of a refused calibration - all folders are what they were: no partial output, older outputs and calibrations keep their content, raw frames are not removed. Whatever is done next gives exactly what it gives without the refused calls.",
  ["histories","inputs"],"all histories of valid and refused calls on images, files, calibrations and raw frames",
  "the tests check a few refusals, never what is left behind or what follows.",
  [MI,IM,PR+"convert.py",PR+"demodulation.py",PR+"chen_wan_liang_calibration.py"],[("pixel assignment",IM+":data"),("demodulation size check",MI+":_get_Stokes_from_demodulator"),("conversion",PR+"convert.py:convert_rawfile_to_fits"),("calibration checks",PR+"demodulation.py:calculate_demodulation_tensor")],
  ["exceptions","images, arguments, files and folders after them"])

p("C44","A failed or interrupted write is reported and loses nothing else",
  "When an output cannot be written completely - the disk is full after any number of bytes, a folder or a file is in the way, no more files can be opened - saving and exporting images, converting, summing and averaging raw frames and storing either calibration raise an exception; they never return as if done. Then, and after an interrupt at any point of saving or converting, the image and its header are what they were, the sources and every file other than the named outputs have their content, nothing is left beside the outputs, a folder in the way keeps what is in it, and a raw frame whose removal was asked for is gone only if its FITS file is complete. Repeating the call once the cause is gone gives exactly the outputs of an undisturbed call. Likewise a file cut at any byte, or that cannot be opened, is refused on loading (image, list of images, calibration, raw frame) unless all its pixels are there: what is loaded is never part of a file, and no file is skipped.",
  ["faults","crash points","inputs"],"all numbers of bytes that fit, obstacles at every output, interrupts at every line, cuts at every byte, all image sizes and types",
  "the tests never run into a failing disk, an unreadable file or an interrupt.",
  [IM,MI,PR+"convert.py",PR+"demodulation.py",PR+"chen_wan_liang_calibration.py"],[("saving",IM+":save_as_fits, save_as_raw"),("exports",MI+":save_single_pol_images, save_param_as_fits, save_all_pol_params_as_fits, save_demosaiced_images_as_fits"),("conversion",PR+"convert.py:convert_rawfile_to_fits, merge_rawfiles_to_fits"),("stored calibrations",PR+"demodulation.py:calculate_demodulation_tensor, Demodulator._get_demodulation_tensor")],
  ["exceptions","directory contents","MicropolImage and header"])

p("C45","An image is its pixels, orientations and planes, however it was obtained",
  "Two images with the same pixel values, orientation assignment and demosaiced or calibrated planes give the same results in every operation, analysis, use as dark, flat or operand, save and export, to rounding, however they were obtained: from an array of any memory layout (C or Fortran order, strided, reversed, transposed), byte order, numerical type that holds the values, writable or not, memory-mapped or another ndarray subclass; from a FITS file, a list of one, files that sum up or average to it, raw frames converted or merged, or its own saved file; by copying, splitting and merging, pickling, deep copies, or neutral operations (+0, *1, /1, binning by 1, shift by 0, an empty hot-pixel map, a dark that was added before). The same holds of a stored calibration, however it is opened: again, from a relative or dotted folder name or one ending in a slash, moved to another folder, pickled or deeply copied.",
  ["inputs","histories"],"all routes, types, layouts, sizes, assignments and chains of operations",
  "the tests use arrays of doubles in C order.",
  [IM,MI,PR],[("construction",IM+":Image.__init__"),("construction",MI+":MicropolImage.__init__"),("operations",MI),("conversion",PR+"convert.py")],
  ["Image, MicropolImage constructors and methods","files written"])

p("C46","Results follow what objects and files hold at the time of the call",
  "Every result depends on the values that the image, second operand, dark, flat, hot-pixel map, array, calibration, camera or file it is asked of hold when it is asked, and on nothing asked before: after pixels were corrected, masked or overwritten in place, a calibration was turned or flipped, a file or a calibration folder was rewritten under the same name, or an earlier result was overwritten by its receiver, asking the same objects the same operation, analysis, export or load again gives what new objects with those values give. Exports to the same place hold the new values. The order in which things are asked, how often, and with which other arguments in between makes no difference.",
  ["histories"],"all sequences of operations, changes and repetitions, all sizes, assignments and arguments",
  "the tests ask every object once.",
  [IM,MI,PR,"micropolarray/cameras.py","micropolarray/utils.py"],[("operations",MI),("plain operations",IM),("analyses",PR),("calibrations",PR+"demodulation.py:Demodulator")],
  ["results of all operations","files written"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
