"""Source of properties.jsonl (written by tools/gen.py)."""
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

P("C01", "Matrix archives and packets are lossless and reject damaged files",
  "Reading a matrix back from a binary, plain text or structured archive gives exactly the matrix last written there (same type, dimensions and values, whatever the output matrix held before), and packing several matrices into one and unpacking them gives the same matrices back. A binary archive cut anywhere, a plain text archive with values missing, an archive whose header contradicts itself, a missing file and a packet layout of the wrong size are rejected with an exception, never accepted or answered with a memory error.",
  ["inputs", "crash_points", "fault_sequences"], "all matrix types, dimensions and values; all output matrices; every truncation point and header corruption",
  "The tests write a couple of fixed matrices and read them back into empty outputs; they never cut or damage a file.",
  ["modules/utils/src/opencv.cpp", "modules/utils/include/litiv/utils/opencv.hpp"],
  [("lv::write / lv::read", "modules/utils/src/opencv.cpp"), ("lv::packData / lv::unpackData", "modules/utils/src/opencv.cpp")])
P("C02", "Auto-allocated buffers behave like a resizable array under any history",
  "After any sequence of constructions, resizes, element writes, copies, moves and assignments, a small-buffer-optimised buffer holds exactly the elements a plain resizable array would hold (existing elements survive a resize up to the smaller size), independently of every other buffer, whether its storage is on the stack or on the heap. Memory obtained from the aligned allocators and aligned vectors is aligned as requested and never overlaps or leaks element values.",
  ["histories", "inputs"], "all operation sequences over several buffers, sizes around and beyond the static capacity",
  "The tests exercise a few fixed construct/resize/copy calls and never chains of moves and copies between buffers of different storage.",
  ["modules/utils/include/litiv/utils/cxx.hpp", "modules/utils/include/litiv/utils/platform.hpp"],
  [("lv::AutoBuffer", "modules/utils/include/litiv/utils/cxx.hpp"), ("lv::AlignedMemAllocator", "modules/utils/include/litiv/utils/platform.hpp")])
P("C03", "Distance, bit-count and SIMD kernels equal their scalar definitions",
  "For all vectors, pixels and bit strings, the L1, squared L2, L2, colour, mixed colour, Hamming, gradient, population-count, histogram (earth mover, circular or not) distances and the RootSIFT normalisation return the value of their mathematical definition, in every overload (scalar, array, vector, matrix, channel-count and mask variants). The vectorised helpers (sums, minima, maxima, unpacking, products, comparisons) return for every lane content what a plain loop over the lanes returns.",
  ["inputs"], "all operand values, lengths, channel counts, masks and element types",
  "The tests compare a handful of fixed vectors and random 8-bit triplets; extreme values, lane boundaries, masks and overload agreement are not covered.",
  ["modules/utils/include/litiv/utils/math.hpp", "modules/utils/include/litiv/utils/simd.hpp"],
  [("L1dist, L2sqrdist, L2dist, cdist, cmixdist, hdist, gdist, popcount", "modules/utils/include/litiv/utils/math.hpp"), ("hsum/hmin/hmax/unpack/mult helpers", "modules/utils/include/litiv/utils/simd.hpp")])
P("C05", "Image geometry and pixel utilities match their per-pixel definitions",
  "Shifting an image, sampling it between pixels, joining and squeezing images, extracting sub-arrays, copying valid pixels, filtering keypoints and building log-polar masks give for every pixel the value of the documented formula, and never read or write outside of the images involved. Random sampling and neighbour positions always fall inside the image minus the requested border and within the sampling pattern, with its distribution; aligned matrices have every row aligned and none overlapping.",
  ["inputs", "configurations"], "all image sizes, types, layouts (contiguous or views), offsets, borders and fill modes",
  "The tests use a few fixed images and offsets; views, one-pixel images, negative and fractional offsets and mixed borders are not swept.",
  ["modules/utils/include/litiv/utils/opencv.hpp", "modules/utils/src/opencv.cpp"],
  [("lv::shift, lv::getSubPix, lv::squeeze, lv::concat, lv::getSubMat, lv::copyValidPixelsTo", "modules/utils/src/opencv.cpp"), ("lv::clampImageCoords, lv::getSamplePosition, lv::getNeighborPosition", "modules/utils/include/litiv/utils/opencv.hpp")])
P("C06", "Worker pools run every queued task exactly once, whatever the schedule",
  "Every task queued on a worker pool runs exactly once on one of its threads, its result or exception reaches the caller through the returned future, queueing from several threads at once loses nothing, and destroying the pool first completes what was queued. A single worker takes the tasks of one caller in order, and a pool of n workers runs n tasks at once. A counting semaphore never lets more holders through than were released and never loses a release.",
  ["schedules", "histories"], "all interleavings of queueing threads, workers and destruction",
  "The tests queue a few tasks from one thread under one schedule.",
  ["modules/utils/include/litiv/utils/cxx.hpp", "modules/utils/include/litiv/utils/platform.hpp", "modules/utils/src/platform.cpp"],
  [("lv::WorkerPool", "modules/utils/include/litiv/utils/platform.hpp"), ("lv::Semaphore", "modules/utils/include/litiv/utils/cxx.hpp")])
P("C07", "Text and file-system helpers do what they say for every string and tree",
  "Splitting, clamping, formatting and token filtering of strings follow their documented rules for every input, losing no character. Listing a directory returns exactly its files (or sub-directories), sorted as documented and with full paths, and creating or querying a path reports the truth. Preallocated files keep what they held and have the requested size, messages logged from several threads stay whole, and failed assertions carry their text verbatim.",
  ["inputs", "configurations"], "all strings, token lists and directory trees",
  "The tests use fixed strings and no generated directory trees.",
  ["modules/utils/include/litiv/utils/cxx.hpp", "modules/utils/src/cxx.cpp", "modules/utils/src/platform.cpp"],
  [("lv::split, lv::clampString, lv::putf", "modules/utils/include/litiv/utils/cxx.hpp"), ("lv::getFilesFromDir, lv::getSubDirsFromDir, lv::filterFilePaths, lv::createDirIfNotExist", "modules/utils/src/platform.cpp")])
P("C08", "Numeric helpers equal their mathematical definitions",
  "Linear spacing, one-dimensional interpolation, lookup tables, nearest-index search, sorting and uniqueness indices, digit counting and bit expansion return for every valid input the value of their definition. Determinants, inverses and linear system tools of small matrices satisfy the algebraic laws that define them up to rounding.",
  ["inputs"], "all valid inputs, sizes and element types",
  "The tests check fixed examples.",
  ["modules/utils/include/litiv/utils/math.hpp", "modules/utils/include/litiv/utils/cxx.hpp"],
  [("lv::linspace, lv::interp1, lv::LUT, lv::find_nn_index", "modules/utils/include/litiv/utils/math.hpp"), ("lv::sort_indices, lv::unique_indices, lv::digit_count, lv::expand_bits", "modules/utils/include/litiv/utils/cxx.hpp")])
P("C09", "Colour conversions and image comparisons agree with their definitions",
  "Colour space conversions map every pixel by their documented formula and, where an inverse exists, converting forth and back restores the image within rounding. Exact and tolerant matrix comparisons answer true exactly when all elements agree (within the tolerance), label-to-colour mapping gives one distinct colour per distinct label, flow colour maps show direction as hue and relative magnitude as intensity, and printed matrices show the value of every element.",
  ["inputs"], "all pixel values, image sizes, types and layouts",
  "The tests check a few images; they do not sweep the colour cube, non-contiguous layouts or single-element differences.",
  ["modules/utils/src/opencv.cpp", "modules/utils/include/litiv/utils/opencv.hpp"],
  [("HSL / packed YCbCr conversion, unique colour maps", "modules/utils/src/opencv.cpp"), ("lv::isEqual, lv::isNearlyEqual", "modules/utils/include/litiv/utils/opencv.hpp")])
P("C10", "Binary similarity descriptors equal their per-neighbour definition",
  "For every image, reference image and threshold, each bit of the dense, keypoint and single-pixel binary similarity descriptors is set exactly when the corresponding neighbour differs from the reference intensity by more than the (absolute or relative) threshold, on every channel; pixels too close to the border are left out. Descriptor difference maps, distances and reshaping report exactly the Hamming distances of the descriptors involved.",
  ["inputs", "configurations"], "all images (1 and 3 channels), reference images, thresholds and keypoints",
  "The tests compare one photograph against stored descriptors.",
  ["modules/features2d/include/litiv/features2d/LBSP.hpp", "modules/features2d/src/LBSP.cpp"],
  [("LBSP::compute, LBSP::compute2, LBSP::computeDescriptor", "modules/features2d/src/LBSP.cpp"), ("LBSP::calcDescImgDiff, LBSP::calcDistances, LBSP::reshapeDesc", "modules/features2d/src/LBSP.cpp")])
P("C11", "Dense self-correlation descriptors are valid, reproducible and stateless",
  "For every image and configuration the dense adaptive self-correlation descriptor is finite, non-negative, of unit norm (or zero) at every pixel, and its keypoint form equals its dense form at the same pixels. The result depends only on the image and the configuration: not on the images processed before, on the output buffer given or on the memory layout of the input.",
  ["inputs", "histories", "configurations"], "all images, filter configurations and call histories",
  "The tests compare one image per filter against stored descriptors.",
  ["modules/features2d/include/litiv/features2d/DASC.hpp", "modules/features2d/src/DASC.cpp"],
  [("DASC::compute, DASC::compute2, DASC::dasc_rf_impl, DASC::dasc_gf_impl", "modules/features2d/src/DASC.cpp")])
P("C12", "Local self-similarity descriptors equal their log-polar definition",
  "For every image and configuration each bin of the local self-similarity descriptor is the strongest patch similarity found in its log-polar region, computed from sums of squared differences around the pixel, and the descriptor is finite and normalised as documented; pixels too close to the border give no keypoint descriptor. Dense, keypoint and repeated computations agree and depend only on the image and the configuration.",
  ["inputs", "histories", "configurations"], "all images, patch and window configurations, keypoint sets and call histories",
  "The tests compare one image against stored descriptors.",
  ["modules/features2d/include/litiv/features2d/LSS.hpp", "modules/features2d/src/LSS.cpp"],
  [("LSS::ssdescs_impl, LSS::compute, LSS::compute2", "modules/features2d/src/LSS.cpp")])
P("C13", "Shape contexts count contour points in their log-polar bins",
  "For every contour image or keypoint set, a shape context descriptor counts, per log-polar bin around the point, the contour points falling in that bin (normalised when asked), with radii absolute or relative to the mean point distance and angles optionally relative to the local tangent. Dense and keypoint computations agree and depend only on the inputs and the configuration, not on earlier calls.",
  ["inputs", "histories", "configurations"], "all contour images, keypoint sets, bin configurations and call histories",
  "The tests use a few fixed contours.",
  ["modules/features2d/include/litiv/features2d/SC.hpp", "modules/features2d/src/SC.cpp"],
  [("ShapeContext::scdesc_fill_desc, ShapeContext::compute2, ShapeContext::scdesc_fill_maps", "modules/features2d/src/SC.cpp")])
P("C14", "Mutual information scores equal the definition over joint histograms",
  "For every pair of equally-sized patches the mutual information equals the entropy-based sum over the joint histogram of (quantised) intensities, is non-negative and symmetric, is normalised to at most one when asked, and is the same with sparse or dense histograms and with or without reuse of earlier buffers. Joint histograms count every pixel pair exactly once in the right bin.",
  ["inputs", "configurations", "histories"], "all patch pairs, quantisation steps, colour or grey-level inputs",
  "The tests compare a few fixed patches.",
  ["modules/features2d/include/litiv/features2d/MI.hpp", "modules/features2d/src/MI.cpp", "modules/features2d/include/litiv/features2d.hpp"],
  [("lv::calcMutualInfo, lv::calcJointProbHist", "modules/features2d/include/litiv/features2d.hpp"), ("MutualInfo::compute", "modules/features2d/src/MI.cpp")])
P("C15", "Masked and binary rank filters equal their window definitions",
  "For every image, mask and window size, masked median blurs, binary median and consensus filters, integral images and masked median values equal the value computed by sorting or counting the valid pixels of each clipped window; windows without a valid pixel take the documented default. Inputs and masks are never modified and nothing outside of the image is read.",
  ["inputs", "configurations"], "all images, masks, kernel sizes and thresholds",
  "The tests use fixed images and square windows fully inside them.",
  ["modules/imgproc/include/litiv/imgproc.hpp", "modules/imgproc/src/imgproc.cpp"],
  [("lv::medianBlur, lv::binaryMedianBlur, lv::binaryConsensus, lv::integral", "modules/imgproc/src/imgproc.cpp"), ("lv::calcMedianValue", "modules/utils/include/litiv/utils/opencv.hpp")])
P("C16", "Affinity maps hold the best match cost of every pixel and offset",
  "For every pair of images or descriptor maps, region masks, patch size and offset list, each cell of the affinity map holds the requested distance between the patch around the pixel and the patch displaced by the offset (for descriptor maps, the mean over the valid pixel pairs of the clipped patch), and the documented invalid value where no valid pair falls inside of the image or region. The result is the same for every equivalent way to request it and does not depend on earlier calls.",
  ["inputs", "configurations", "histories"], "all image pairs, masks, patch sizes, offset lists and distance types",
  "The tests compare two fixed stereo pairs against stored maps.",
  ["modules/imgproc/src/imgproc.cpp", "modules/imgproc/include/litiv/imgproc.hpp"],
  [("lv::computeImageAffinity, lv::computeDescriptorAffinity", "modules/imgproc/src/imgproc.cpp")])
P("C17", "Non-maximum suppression and thinning keep exactly the right pixels",
  "Non-maximum suppression keeps only pixels that are maximal in their neighbourhood (and every strict local maximum), inside the mask. Thinning removes pixels only, in the way the chosen published algorithm prescribes, and reaches a result that thinning again does not change; in the Lam-Lee-Suen mode the number of connected shapes and holes stays exactly the same.",
  ["inputs"], "all images, masks and window sizes",
  "The tests use one or two fixed images.",
  ["modules/imgproc/src/imgproc.cpp", "modules/imgproc/include/litiv/imgproc.hpp"],
  [("lv::thinning (ZhangSuen, LamLeeSuen)", "modules/imgproc/src/imgproc.cpp"), ("lv::nonMaxSuppression", "modules/imgproc/include/litiv/imgproc.hpp")])
P("C18", "Warping and offset remapping move every pixel where they should",
  "Remapping by an offset map samples each output pixel at its displaced position with the requested border rule; a warp sends its control points to their targets, leaves the image alone when sources equal targets or the ratio is zero, and resists degenerate layouts. Temporal differences compare each pixel with its flow-displaced counterpart.",
  ["inputs", "configurations"], "all images, offset maps, control point sets and border modes",
  "The tests check one or two fixed warps.",
  ["modules/imgproc/src/imgproc.cpp", "modules/imgproc/src/imwarp.cpp"],
  [("lv::remap_offset, lv::computeTemporalAbsDiff", "modules/imgproc/src/imgproc.cpp"), ("ImageWarper", "modules/imgproc/src/imwarp.cpp")])
P("C19", "Edge detectors give well-formed, repeatable and stateless masks",
  "Every edge detector returns a single-channel mask of the input's size, containing only 0 and 255 when thresholded, that depends only on the image, the threshold and the configuration, never on images processed before or on the given output matrix; the input is left as it was. The LBSP detector's mask is the one of its pipeline (pyramid of averaged patterns, weakest gradient over the levels, non-maximum suppression across the edge, hysteresis between the low and the high threshold) at the edge's own position, raising its threshold never adds edges, and the Canny detector's is the Canny mask of the smoothed image. The confidence maps add up the thresholded masks. A uniform image has no edge.",
  ["inputs", "histories", "configurations"], "all images of 1 to 4 channels and any size, thresholds, levels and call histories",
  "No test runs the edge detectors at all.",
  ["modules/imgproc/src/EdgeDetectorLBSP.cpp", "modules/imgproc/src/EdgeDetectorCanny.cpp", "modules/imgproc/src/EdgeDetectionUtils.cpp"],
  [("EdgeDetectorLBSP::apply_internal", "modules/imgproc/src/EdgeDetectorLBSP.cpp"), ("EdgeDetectorCanny::apply_threshold", "modules/imgproc/src/EdgeDetectorCanny.cpp")])
P("C20", "Classification counters count every evaluated pixel in the right class",
  "For every segmentation mask, ground truth and region of interest, each pixel is counted exactly once as true/false positive/negative or do-not-care according to the documented label values, pixels outside of the region or of unknown label never count, and shadow errors are a subset of false positives. Accumulating several masks equals the sum of their counters in any order, and the coloured evaluation mask paints every pixel with the colour of its class.",
  ["inputs", "histories"], "all masks, ground truth labels, regions of interest and accumulation orders",
  "The tests evaluate small fixed masks.",
  ["modules/datasets/src/metrics.cpp", "modules/datasets/include/litiv/datasets/metrics.hpp"],
  [("BinClassif::accumulate, BinClassif::getColoredMask", "modules/datasets/src/metrics.cpp"), ("BinClassifMetricsAccumulator", "modules/datasets/src/metrics.cpp")])
P("C21", "Metric formulas and their aggregation equal their definitions",
  "Recall, specificity, rates, precision, percentage of bad classifications, F-measure and Matthews correlation equal their textbook formulas for all counter values (zero when undefined), and stay in their documented ranges. Aggregating work batches by summing counters, or by averaging metrics with weights, gives the same result in every grouping and order, and equals evaluating everything at once where the definition says so.",
  ["inputs", "histories"], "all counter values up to full-dataset sizes, all groupings",
  "The tests check a few fixed counter values.",
  ["modules/datasets/include/litiv/datasets/metrics.hpp", "modules/datasets/src/metrics.cpp"],
  [("BinClassifMetrics, BinClassifMetricsCalculator", "modules/datasets/src/metrics.cpp"), ("IMetricsCalculator::accumulate", "modules/datasets/include/litiv/datasets/metrics.hpp")])
P("C22", "Stereo disparity errors are measured on valid pixels only, and exactly",
  "For every pair of disparity maps, ground truth maps and regions, the recorded errors are the absolute differences over exactly the pixels whose ground truth is valid and which lie in the region, for every element type, and the others are counted as do-not-care. Bad-pixel percentages, average and root-mean-square errors and their aggregation equal their definitions, and coloured error maps are hotter exactly where the error around a pixel is larger.",
  ["inputs", "histories"], "all maps, element types, regions, error margins and accumulation orders",
  "No test covers generated maps, mixed types or multiple streams.",
  ["modules/datasets/src/metrics.cpp", "modules/datasets/include/litiv/datasets/metrics.hpp"],
  [("StereoDispErrors::accumulate, StereoDispErrorMetrics", "modules/datasets/src/metrics.cpp")])
P("C23", "Precaching returns the same packets as loading them directly",
  "For every sequence of requests (forward, backward, repeated, beyond the end), with precaching running or not, with any cache size, started and stopped at any point, a packet request returns exactly what the loader returns for that index. Loader failures surface to the caller instead of hanging or crashing, and stopping always terminates.",
  ["schedules", "histories", "fault_sequences"], "all request histories, packet sizes, cache sizes and thread schedules",
  "The tests request packets in order with one size.",
  ["modules/datasets/src/utils.cpp", "modules/datasets/include/litiv/datasets/utils.hpp"],
  [("DataPrecacher::getPacket, DataPrecacher::entry", "modules/datasets/src/utils.cpp")])
P("C24", "Asynchronous writers lose, duplicate and alter no accepted packet",
  "Every packet accepted by a data writer reaches the write callback exactly once with the content it had when queued (the newest one when a pending index is queued again), even if the caller reuses its buffer, for any number of workers and any schedule; packets refused when dropping is enabled are reported as such. Stopping writes everything still queued, the queue never exceeds its limits, and callback failures reach the caller.",
  ["schedules", "histories", "fault_sequences"], "all queueing histories, worker counts, queue limits, callback failures and thread schedules",
  "The tests write in order with one worker.",
  ["modules/datasets/src/utils.cpp", "modules/datasets/include/litiv/datasets/utils.hpp"],
  [("DataWriter::queue, DataWriter::entry, DataWriter::stopAsyncWriting", "modules/datasets/src/utils.cpp")])
P("C25", "Datasets expose every image, store every output and count everything once",
  "For every tree of listed folders, a dataset exposes each work batch exactly once and in it each decodable image file of that folder exactly once, in sorted order and with the file's contents (scaled or padded as configured); groups and the dataset add up to their batches, and folders matching a skip token or not listed do not appear. A missing root, a batch without images and a scale that is not positive are refused. Outputs and features pushed through it, single or as arrays of streams, are saved, counted once per index and read back unchanged, evaluated against the ground truth and region of interest of their own index, and reported per batch and averaged per group; processing can be restarted, and precaching or stopping at any point changes none of this.",
  ["configurations", "histories", "inputs"], "all directory trees, image sets, options and push orders",
  "The tests use one custom dataset layout.",
  ["modules/datasets/src/utils.cpp", "modules/datasets/include/litiv/datasets/utils.hpp", "modules/datasets/include/litiv/datasets/impl/CDnet.hpp"],
  [("DatasetHandler, DataGroupHandler, IIDataLoader, IDataArchiver, IDataCounter", "modules/datasets/src/utils.cpp")])
P("C26", "Boundary evaluation matches boundaries one-to-one within tolerance",
  "For every boundary map and set of human annotations (BSDS500), each threshold's detection is the thinned set of pixels at or above it, and its counts come from a one-to-one matching between detected and annotated boundary pixels within the distance tolerance (0.75% of the diagonal), done separately for every annotation: never more pairs than a maximum matching, exactly as many for small maps, and all but a few percent otherwise (the solver's outlier connections are random). Scores, best points and curves follow from the counts by their definitions, stay within zero and one, and reach the report files; coloured masks show each pixel's share of hits, false alarms and misses; annotations are read, rescaled and stacked per image. The assignment solver underneath returns a cheapest perfect assignment and random subsets are valid and uniform.",
  ["inputs"], "all boundary maps, annotation sets, thresholds and dataset layouts",
  "No test covers the boundary evaluation at all.",
  ["modules/datasets/src/impl/BSDS500.cpp", "modules/datasets/include/litiv/datasets/impl/BSDS500.hpp", "3rdparty/bsds500"],
  [("BSDS500 metrics accumulator and calculator", "modules/datasets/src/impl/BSDS500.cpp"), ("assignment solver and subsets", "3rdparty/bsds500")])
P("C27", "ViBe and LOBSTER background models classify and update by their published rule",
  "For every frame sequence, ViBe (grey and colour) and LOBSTER label a pixel foreground exactly when fewer than the required number of its background samples match it (by colour distance and, for LOBSTER, texture descriptors with its relative threshold table). Models are filled from the pixels around each position; after that only pixels seen as background update the model, each overwriting at most one of its own samples and at most one sample of an adjacent pixel with its current observation, at the requested rate; no other sample ever changes, and with updates off the model stays frozen. The background image is the average of the samples, and unusable parameters and images are refused.",
  ["inputs", "histories", "configurations"], "all frame sequences, thresholds, sample counts and random choices",
  "The video module has no tests.",
  ["modules/video/src/BackgroundSubtractorViBe.cpp", "modules/video/src/BackgroundSubtractorLOBSTER.cpp", "modules/video/include/litiv/video"],
  [("ViBe 1ch/3ch apply", "modules/video/src"), ("LOBSTER apply", "modules/video/src")])
P("C28", "Every background subtractor yields sound masks for any frame history",
  "For every frame sequence each background subtractor (ViBe, PBAS, LOBSTER, SuBSENSE, PAWCS) outputs a mask of the frame's size with only 0 and 255 and never labels a pixel outside of its region of interest as foreground before mask filtering; the filtered mask is the documented post-processing of that raw mask. PBAS and SuBSENSE label a pixel foreground exactly when fewer than the required number of its samples match under its current thresholds, and samples only change to values observed at or next to their pixel, learnt from pixels labelled background (or right after a model reset). PAWCS dictionaries never share words between pixels, and words only take colours and textures observed nearby. A uniform scene that never changes yields no foreground and a large uniform change of brightness is detected. The same frames and random seed from the same start give the same masks, re-initialising gives the behaviour of a new object, refused frames leave no trace, and internal thresholds, rates and averages stay in their documented ranges.",
  ["histories", "inputs", "configurations"], "all frame sequences, regions of interest, learning rates and re-initialisation points",
  "The video module has no tests.",
  ["modules/video/src", "modules/video/include/litiv/video"],
  [("IBackgroundSubtractor and implementations", "modules/video/src")])
P("C29", "Colour mixture models fit, score and classify pixels consistently",
  "For every sample set, colour Gaussian mixture models built from it have weights summing to one (zero for a component or model without samples), means and covariances equal to those of the pixels assigned to each component, and likelihoods equal to the mixture density. Every pixel is assigned to its most likely component, and the result depends only on the image, the mask and the starting assignment.",
  ["inputs", "histories"], "all images, masks, component counts",
  "The tests compare one image with stored models.",
  ["modules/utils/include/litiv/utils/math.hpp", "modules/imgproc/include/litiv/imgproc.hpp", "modules/imgproc/src/imgproc.cpp"],
  [("lv::GMM, lv::initGaussianMixtureParams, lv::assignGaussianMixtureComponents, lv::learnGaussianMixtureParams", "modules/imgproc/include/litiv/imgproc.hpp")])
P("C30", "Pan-tilt-zoom geometry, camera state and tracking scores are consistent",
  "For every camera orientation, field of view and resolution, converting an image point to pan/tilt angles gives the direction of its viewing ray (within the documented angle ranges) and converting back returns the same pixel; the image centre maps to the view direction, any direction in front of the camera maps to its perspective projection rounded to the nearest pixel, and directions behind the camera are rejected. Ground truth points and boxes are translated with the same mapping. A camera keeps valid angles over any history of moves and settings, shows at every pixel the panorama in that pixel's viewing direction, advances frames by the motion and communication delays, and refuses invalid values without changing; the evaluator hands out the right frames once each and its reported errors, offsets, overlaps, ratios and averages equal their definitions over the history of results.",
  ["inputs", "configurations", "histories"], "all orientations, fields of view, resolutions and points; all histories of camera operations and evaluated sequences",
  "The camera emulation module has no tests.",
  ["modules/vptz/src", "modules/vptz/include/litiv/vptz"],
  [("vptz::PTZPointXYtoHV / PTZPointHVtoXY, vptz::GTTranslator, vptz::Camera, vptz::Evaluator", "modules/vptz/src/virtualptz.cpp")])
P("C31", "Optical flow is finite, complete, stateless and zero without motion",
  "For every image pair and preset the dense flow field has the input's size, holds only finite values, is (nearly) zero everywhere for identical images, and recovers a global translation of a textured image inside of it. The result depends only on the images and parameters, never on earlier calls, output buffers or memory layout, and pairs of different sizes or types are refused.",
  ["inputs", "histories", "configurations"], "all image pairs, sizes, channel kinds, parameter presets and call histories",
  "The tests compare one image pair against a stored flow map.",
  ["3rdparty/ofdis", "modules/imgproc/include/litiv/imgproc.hpp"],
  [("ofdis::computeFlow", "3rdparty/ofdis")])
P("C32", "Dataset layouts are read exactly as they lie on disk",
  "For every tree in a supported layout (video files, Wallflower, PETS2001, LITIV-Bilodeau 2014, VAP trimodal 2016) the opened dataset has exactly the sequences, frames, streams and ground truth of that tree: frame i is image i whatever the order of access and with or without precaching, ground truth belongs to the frame its file names, masks are binary, regions of interest, subsets, disparity offsets, scaling, undistortion, rectification and 4-byte alignment are applied to every stream alike, declared sizes and types are those of what is served, trees with missing or bad files are refused, and a dataset may be destroyed at any time.",
  ["inputs", "histories", "configurations"], "all directory trees in these layouts, loading parameters, access orders and precaching histories",
  "No test opens any of these layouts: real datasets cannot be shipped with the repository.",
  ["modules/datasets/include/litiv/datasets/impl/Wallflower.hpp", "modules/datasets/include/litiv/datasets/impl/PETS2001.hpp", "modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp", "modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp", "modules/datasets/src/utils.cpp"],
  [("lv::IDataProducer_<DatasetSource_Video>::getRawInput", "modules/datasets/src/utils.cpp"), ("DataProducer_<eDatasetTask,DatasetSource_VideoArray,Dataset_VAP_trimod2016>::parseData", "modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp")])
