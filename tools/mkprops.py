#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the
checks that queries.py defines."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import queries

P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


p("C01", "Geometric transforms move every pixel to its exact place",
  "fcv_flip_x/y, fcv_transpose, fcv_transverse and the three rotations return a new RGBA image in which every source pixel appears at the position the transform prescribes, with all four bytes unaltered and the size swapped where it has to be. The input is left alone and empty or missing images are rejected with NULL.",
  ["inputs"], "every RGBA image", "Tests look at a few pictures; a wrong index only shows for particular aspect ratios or positions.",
  ["src/flip.c", "src/rotate.c"], [("index maps", "src/flip.c:fcv_flip_x, fcv_flip_y, fcv_transpose, fcv_transverse"), ("rotation index maps", "src/rotate.c:fcv_rotate_90_cw, fcv_rotate_180, fcv_rotate_270_cw")])
p("C02", "Crop returns exactly the requested rectangle or nothing",
  "fcv_crop returns the requested rectangle byte for byte for every channel count when it lies inside the image, and NULL for every rectangle that does not, including ones whose coordinates wrap around 32 bits. It never reads outside the source or changes it.",
  ["inputs"], "every image, channel count and quadruple of 32-bit crop parameters", "The parameter space is 2^128; wrap-around and edge-touching rectangles are not sampled.",
  ["src/crop.c"], [("bounds checks and row copy", "src/crop.c:fcv_crop")])
p("C03", "A border frames the image without touching it",
  "fcv_add_border returns an image whose sides grow by twice the border width, which carries the source unaltered in the centre and exactly the given colour (opaque, or its luma for one channel) everywhere else. A zero width, a missing argument or a size that does not fit 32 bits is rejected.",
  ["inputs"], "every image with 1, 3 or 4 channels, colour and border width", "Offsets of border and centre interact with channel count and aspect ratio.",
  ["src/draw.c"], [("fill and centre copy", "src/draw.c:fcv_add_border")])
p("C04", "Trim removes exactly the uniform outer lines",
  "fcv_trim removes outer columns and rows whose pixels are all equal, repeated until no further line can go, and returns the remaining rectangle unaltered with the updated size. At least one pixel remains and invalid arguments return NULL with the size untouched.",
  ["inputs"], "every image and channel count", "Which lines are removable depends on all pixels jointly, in an order the samples do not exercise.",
  ["src/trim.c"], [("border search", "src/trim.c:fcv_trim"), ("copy of the rectangle", "src/crop.c:fcv_crop")])
p("C05", "Trim with a threshold honours the tolerance exactly",
  "fcv_trim_threshold treats pixels as equal when every channel differs from the line's first pixel by at most the given percentage of 255 (clamped to 0-100), and otherwise behaves like fcv_trim. Non-finite percentages are rejected.",
  ["inputs"], "every image and percentage", "Off-by-one tolerances need a pixel exactly on the limit.",
  ["src/trim.c"], [("tolerance and border search", "src/trim.c:fcv_trim_threshold, pixels_match_threshold")])
p("C06", "Grayscale is the documented weighted sum",
  "fcv_grayscale and fcv_rgba_to_grayscale compute floor((76R+150G+30B)/256) for every pixel, the former replicated to R, G and B with opaque alpha, and thus agree with each other. The input is unchanged and empty images are rejected.",
  ["inputs"], "every RGBA image", "2^24 colours; rounding and channel order errors are invisible on most of them.",
  ["src/conversion.c", "src/rgba_to_grayscale.c"], [("weights", "src/conversion.c:fcv_grayscale"), ("weights", "src/rgba_to_grayscale.c:fcv_rgba_to_grayscale")])
p("C07", "Contrast stretching preserves order and stays in range",
  "fcv_grayscale_stretch returns an opaque grey image in which a pixel with a larger luma never becomes darker than one with a smaller luma and pixels of equal luma stay equal. A non-constant small image is stretched so that its darkest pixel becomes 0 and its brightest 255; no pixel value wraps around.",
  ["inputs"], "every RGBA image", "The percentile cut-offs depend on the whole histogram.",
  ["src/conversion.c"], [("percentiles and scaling", "src/conversion.c:fcv_grayscale_stretch")])
p("C08", "Global threshold maps each byte to exactly 0 or 255",
  "fcv_apply_global_threshold sets each of the first n bytes to 255 exactly if it was above the threshold and to 0 otherwise. Bytes past n are untouched.",
  ["inputs"], "every buffer, length and threshold", "The comparison boundary needs a byte equal to the threshold.",
  ["src/conversion.c"], [("threshold loop", "src/conversion.c:fcv_apply_global_threshold")])
p("C09", "Otsu thresholding yields a monotone black and white image",
  "fcv_otsu_threshold_rgba returns an opaque grey image that is monotone in the luma of the input, consists of 0 and 255 only unless double thresholding is requested, and separates two clearly distinct levels. It neither fails nor leaves the range for constant images.",
  ["inputs"], "every RGBA image", "The threshold is a function of the whole histogram computed in floating point.",
  ["src/conversion.c"], [("histogram and threshold", "src/conversion.c:fcv_otsu_threshold_rgba, apply_double_threshold")])
p("C10", "Smart black and white output is well formed for every image",
  "fcv_bw_smart returns, for images of up to 10^8 pixels, an opaque grey image of the input's size, with only 0 and 255 unless double thresholding is requested, and never reads or writes outside its buffers. Constant images come out uniform.",
  ["inputs"], "every RGBA image", "The pipeline combines blur, difference and threshold; clamping errors need extreme contrasts.",
  ["src/conversion.c"], [("pipeline", "src/conversion.c:fcv_bw_smart")])
p("C11", "Gaussian blur averages only the pixels around it",
  "fcv_apply_gaussian_blur returns an opaque image in which every sample lies within the range of the source samples of the same channel at most the radius away in each direction; a uniform image stays as it is. A radius of 0, or one too small to form a kernel, copies the image, and negative, non-finite or excessive radii are rejected.",
  ["inputs"], "every RGBA image and radius", "Range and locality are statements about all pixels at once.",
  ["src/conversion.c"], [("separable convolution", "src/conversion.c:fcv_apply_gaussian_blur")])
p("C12", "Resize has the requested size and stays within the source range",
  "fcv_resize by NW/W and NH/H returns exactly NW x NH opaque pixels, each sample of which is the average of the samples of its own channel that its footprint covers, weighted by overlap, or, when neither side shrinks, their bilinear interpolation, to within one level. Factor 1 is the identity; factors that are not positive and finite, and empty or oversized results, are rejected.",
  ["inputs"], "every RGBA image and pair of factors", "Rounding of factor times size depends on the particular numbers; window errors appear at some phase only.",
  ["src/conversion.c"], [("size computation, box filter, interpolation", "src/conversion.c:fcv_resize")])
p("C13", "Colour binarisation marks exactly the foreground colour",
  "fcv_convert_to_binary returns 255 for exactly the pixels whose R, G and B equal the foreground colour and 0 for all others, whatever their alpha. Invalid arguments are rejected.",
  ["inputs"], "every RGBA image and pair of colours", "2^48 combinations of pixel and colour.",
  ["src/convert_to_binary.c", "src/parse_hex_color.c"], [("comparison", "src/convert_to_binary.c:fcv_convert_to_binary")])
p("C14", "Hex colours parse exactly and never read past the string",
  "fcv_parse_hex_color yields the three bytes of a six-digit colour with or without '#', in either case of letters, and black for strings of any other length or NULL. It never reads beyond the terminator.",
  ["inputs"], "every string", "All digit combinations, lengths and malformed strings.",
  ["src/parse_hex_color.c"], [("parser", "src/parse_hex_color.c:fcv_parse_hex_color")])
p("C15", "Expanding one channel to RGBA is exact and reversible",
  "fcv_single_to_multichannel replicates every byte to R, G and B with opaque alpha, so that taking the luma gives the byte back. Empty or missing images are rejected.",
  ["inputs"], "every single-channel image", "The round trip has to hold for every byte value at every position.",
  ["src/single_to_multichannel.c"], [("expansion", "src/single_to_multichannel.c:fcv_single_to_multichannel")])
p("C16", "Circles and disks are drawn in place, clipped and in one colour",
  "fcv_draw_circle and fcv_draw_disk change only pixels within 1.5 pixels of the ideal shape around the truncated centre, draw its extreme points without gaps (and fill the disk), and set them to exactly the given colour with opaque alpha. Parts outside the image are clipped, and negative, non-finite or unrepresentable parameters draw nothing.",
  ["inputs"], "every image, radius and centre, inside or outside the image", "Clipping errors need shapes overlapping a particular border.",
  ["src/draw.c"], [("Bresenham loops and clipping", "src/draw.c:fcv_draw_circle, fcv_draw_disk, fcv_set_circle_pixel")])
p("C17", "The histogram counts every pixel and draws within its image",
  "fcv_generate_histogram returns an opaque image of fixed width and height in which the bar of each brightness value is proportional to its number of pixels, the tallest filling the plot. It never writes outside its image, for 1, 3 and 4 channels alike.",
  ["inputs"], "every image and channel count", "Bar positions depend on the counts of all 256 values.",
  ["src/histogram.c"], [("counting and drawing", "src/histogram.c:fcv_generate_histogram")])
p("C18", "Sobel edges order pixels by gradient, alike for all channel counts",
  "fcv_sobel_edge_detection returns one byte per pixel, ordered like the Sobel gradient magnitude of the luma with replicated borders: the largest maps to 255, the smallest to 0, and constant images to 0 everywhere. RGB and RGBA input give the result of their luma image, and alpha has no influence.",
  ["inputs"], "every image with 1, 3 or 4 channels", "Normalisation couples all pixels; border handling and channel strides are only visible for some contents.",
  ["src/sobel_edge_detection.c"], [("kernels and normalisation", "src/sobel_edge_detection.c:fcv_sobel_edge_detection")])
p("C19", "Binary morphology is exact for the disk it is given",
  "Dilation, erosion, closing and opening equal their set definitions for the disk of all offsets no longer than radius + 0.5, with black outside of the image (replicated for the erosion of a closing). Closing therefore never removes and opening never adds a white pixel; only bytes of 255 count as white and negative radii are rejected.",
  ["inputs"], "every binary or grey image and radius", "2^(W*H) images; border and disk-shape errors are invisible on most.",
  ["src/binary_closing_disk.c"], [("structuring element and border modes", "src/binary_closing_disk.c:fcv_binary_dilation_disk, binary_erosion_disk_internal")])
p("C20", "Watershed regions grow connectedly from their markers",
  "fcv_watershed_segmentation gives every marker its own colour and every other coloured pixel the colour of a 4-neighbour, so regions are connected to their marker; without boundaries no pixel stays unlabelled, and with them an unlabelled pixel separates regions. Markers outside the image or not finite are rejected.",
  ["inputs"], "every elevation map and marker set", "Flooding order depends on the whole elevation map.",
  ["src/watershed_segmentation.c"], [("level-wise flooding", "src/watershed_segmentation.c:fcv_watershed_segmentation"), ("queue", "src/watershed_segmentation.c:enqueue, dequeue")])
p("C21", "Corner peaks are separated local maxima above the thresholds",
  "fcv_corner_peaks returns only inner pixels that are local maxima above both thresholds, pairwise at least the minimum distance apart, and omits such a pixel only if another one at least as strong lies closer than that distance. Results are sound for images of any size, including ones without inner pixels.",
  ["inputs"], "every response image, distance and threshold", "Suppression is order dependent and a function of all candidates.",
  ["src/corner_peaks.c"], [("local maxima and suppression", "src/corner_peaks.c:fcv_corner_peaks, is_local_maximum")])
p("C22", "The Foerstner response stays inside its buffers",
  "fcv_foerstner_corner returns two bytes per pixel for every image size and finite smoothing parameter, however small the image is relative to the kernel, and gives zero for constant images. It reads and writes only inside its buffers and rejects sizes and parameters it cannot represent.",
  ["inputs"], "every grey image, size and sigma", "Kernel, border and image size interact; only tiny or large images go out of bounds.",
  ["src/foerstner_corner.c"], [("gradients, smoothing, response", "src/foerstner_corner.c:fcv_foerstner_corner")])
p("C23", "The perspective transform maps the four corners onto each other",
  "fcv_calculate_perspective_transform returns a finite matrix that maps each destination corner to its source corner, and the identity when the corners do not determine one. It never divides by a vanishing pivot.",
  ["inputs"], "every pair of quadrilaterals", "Elimination order and pivoting depend on the particular corners.",
  ["src/perspectivetransform.c"], [("Gaussian elimination", "src/perspectivetransform.c:fcv_calculate_perspective_transform")])
p("C24", "Failing allocations are reported, never used or leaked",
  "Whichever allocation of an operation fails, the operation returns NULL (or leaves its result empty) without touching the missing memory. It frees what it had acquired and leaves the input unchanged.",
  ["fault_sequences"], "every operation and every subset of failing allocations", "Tests do not inject allocation failures.",
  ["src/conversion.c", "src/sobel_edge_detection.c", "src/watershed_segmentation.c", "src/foerstner_corner.c", "src/corner_peaks.c", "src/trim.c", "src/binary_closing_disk.c"],
  [("error paths", "src/*.c: every malloc/calloc")])
p("C25", "Warping reads only inside the source image, for every matrix",
  "fcv_apply_matrix_3x3 returns an image of the requested size in which every pixel is either blank or a blend of source pixels, for any matrix including degenerate and non-finite ones, without reading outside the source. The identity copies the image and integer translations shift it.",
  ["inputs"], "every matrix of doubles and image", "Out-of-range coordinates need particular matrices.",
  ["src/perspectivetransform.c"], [("inverse mapping and interpolation", "src/perspectivetransform.c:fcv_apply_matrix_3x3")])
p("C26", "Corner sorting assigns each corner once, in clockwise order",
  "sort_corners returns four of the given corners, each once and scaled to the output size, ordered top-left, top-right, bottom-right, bottom-left for every convex quadrilateral regardless of the order of the input. Fewer corners or missing arguments give the documented defaults and never an out-of-bounds access.",
  ["inputs"], "every set of corners and sizes", "24 orders times all geometries; ties depend on equal angles.",
  ["src/sort_corners.c"], [("sorting", "src/sort_corners.c:sort_corners")])
p("C27", "Command-line pipelines parse without overflow and in order",
  "The command line interface splits the pipeline into its operations with their parameters in order, for any arguments, and never writes past its fixed-size buffers however long parameters or pipelines are. Malformed geometry strings are rejected.",
  ["inputs"], "every argument vector", "Buffer limits need unusually long or many arguments.",
  ["src/cli.c"], [("pipeline and parameter parsing", "src/cli.c:parse_pipeline, add_operation")])
p("C28", "EXIF orientation is 1-8 for every file content",
  "fcv_get_exif_orientation returns the orientation tag of a well-formed JPEG in either byte order, and 1 for every other file, including truncated, missing and malicious ones. It terminates, reads only inside its buffers and closes the file.",
  ["inputs"], "every file content", "Malformed offsets, lengths and byte orders are not in the test pictures.",
  ["src/exif.c"], [("segment and IFD walk", "src/exif.c:fcv_get_exif_orientation, read_u16, read_u32")])
p("C29", "Command-line operations apply the library function they name",
  "Each operation name of the command line interface calls its library function with the image and parameters given, updates width and height when the operation changes them, and reports an error without touching the image for invalid parameters.",
  ["inputs"], "every operation and parameter", "Dispatch mistakes such as swapped sizes show for non-square images and rarely used operations only.",
  ["src/cli.c"], [("dispatch", "src/cli.c:apply_operation")])
p("C30", "No allocation size wraps around, for images of any 32-bit size",
  "For every width and height, an operation either rejects the image or requests at least as many bytes as its result needs; the request never wraps around in 32- or 64-bit arithmetic. When the request fails the operation returns NULL.",
  ["inputs"], "every pair of 32-bit dimensions", "Images with more than 2^32 bytes cannot be used in tests.",
  ["src/conversion.c", "src/flip.c", "src/rotate.c", "src/crop.c", "src/draw.c", "src/sobel_edge_detection.c", "src/foerstner_corner.c", "src/watershed_segmentation.c", "src/perspectivetransform.c"],
  [("overflow checks before malloc", "src/*.c: every SIZE_MAX guard")])
p("C31", "Document extraction warps the detected quadrilateral to the output",
  "fcv_extract_document maps the detected corners onto the corners of an output of exactly the requested size, and fcv_extract_document_auto onto one of the size of the detected quadrilateral, which it reports. Failures of any stage give NULL without leaks, and empty images are rejected.",
  ["inputs"], "every set of detected corners and output size", "The detector finds only a few different quadrilaterals on test pictures.",
  ["src/extract_document.c"], [("target corners and size", "src/extract_document.c:fcv_extract_document, fcv_extract_document_auto")])
p("C32", "Corner detection copes with any number of peaks",
  "fcv_detect_corners returns four finite corners whatever number of peaks, including none, its detector reports, scaled from the working size to the image size. It releases its intermediate images and never reads past the peaks it was given.",
  ["inputs"], "every number and position of peaks", "Test pictures always give four or more peaks.",
  ["src/corner_detection.c"], [("peak selection and scaling", "src/corner_detection.c:fcv_detect_corners")])
p("C33", "A decoded image survives being written and read again",
  "Saving an image as PNG and loading it gives the same pixels, and loading arbitrary files never corrupts memory.",
  ["inputs"], "every image and file", "Codec state space.", ["include/stb_image.h", "include/stb_image_write.h"], [("third-party codecs", "include/stb_image.h")])
p("C34", "Detected corners lie close to those of the photographed document",
  "For a photograph of a document fcv_detect_corners returns points close to its true corners.",
  ["inputs"], "every photograph", "A few sample photographs cannot represent all.", ["src/corner_detection.c"], [("whole detection pipeline", "src/corner_detection.c")])

NA = {
    "C33": "the deflate/inflate and JPEG code of stb_image(_write).h (third-party, ~9000 lines with data-dependent loops over bit streams) cannot be unrolled to a useful bound by the solver; no encoding within reach",
    "C34": "end-to-end accuracy has no formal specification independent of the pictures, and its encoding (Gaussian blur, Otsu, watershed and Foerstner over 256x256 doubles) is far beyond what a SAT/SMT solver can discharge; its parts are decided by C09-C12, C18-C23 and C32",
}
LEVELNOTE = "bounded: every input within the stated sizes is decided by the solver, images beyond them are not"


def main():
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    checks, na = [], []
    for x in P:
        i = x["id"]
        if i in queries.PROPS:
            checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                               evidence_file="evidence/%s.json" % i,
                               technique="CBMC bounded symbolic execution of the real C sources, SAT/SMT verdict over all inputs within the bounds, counterexamples replayed natively under ASan/UBSan",
                               level="model_checking", level_note=LEVELNOTE))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
             notes="See DESIGN.md. known_findings.txt lists repaired and known defects.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
