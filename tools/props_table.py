"""Single source of properties.jsonl and MANIFEST.json (run tools/build_docs.py).
Each entry: id, title, statement, quantifier(over, text), why, files, mech,
observe, technique, note."""
POST = "discorpy/post/postprocessing.py"
PROC = "discorpy/proc/processing.py"
PREP = "discorpy/prep/preprocessing.py"
LINE = "discorpy/prep/linepattern.py"
UTIL = "discorpy/util/utility.py"
LOSA = "discorpy/losa/loadersaver.py"

T_REF = "runtime monitor: online comparison of every observed call with an independent reference model"
T_GT = "runtime monitor: observed results judged against generated ground truth"
T_META = "runtime monitor: metamorphic relations between observed executions"
T_HIST = "runtime monitor: operation histories with injected faults, checked online against a state model"

P = []


def add(id, title, statement, over, text, why, files, mech, observe, tech,
        note):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  observe=observe, tech=tech, note=note))


add("C01", "Unwarped image samples every pixel where the backward model says",
    "For every image, centre and polynomial backward model, each pixel (y, x) "
    "of the unwarped image equals the input image interpolated (given spline "
    "order, boundary mode) at centre + F(r)*(offset from the centre), clipped "
    "to the frame, with r the distance to the centre and F the polynomial "
    "with coefficients in increasing powers. Shape and dtype of the image are "
    "kept, the identity model returns the input unchanged, and any memory "
    "layout or coefficient container gives the same answer.",
    ["inputs", "configurations"],
    "all images (size, dtype, layout), centres inside and outside the frame, "
    "polynomial degrees, strengths, spline orders and boundary modes",
    "the tests compare two or three images against coarse residual thresholds "
    "with one model, order and mode",
    [POST], [("unwarp_image_backward", POST)],
    ["return value of unwarp_image_backward", "find_point_to_point"], T_REF,
    "pixel-by-pixel agreement with a float64 reference within float32 "
    "coordinate rounding")
add("C02", "Unwarped slices and chunks are rows of the unwarped projections",
    "For every 3D dataset (array, memory map or HDF5 dataset), unwarping "
    "slice i gives row i of every unwarped projection, and unwarping a chunk "
    "start..stop gives exactly the rows start to stop inclusive (stop=-1 "
    "means up to the last row), in order. Data that are not 3D and chunk "
    "indices outside the frame raise ValueError.",
    ["inputs", "configurations"],
    "all dataset shapes (also more than 32767 rows or columns), containers, "
    "dtypes, centres, models, row indices and index ranges",
    "the tests take one slice and one chunk of one small random stack",
    [POST], [("unwarp_slice_backward / unwarp_chunk_slices_backward: only "
              "the needed band of rows is read", POST)],
    ["return values", "ValueError"], T_REF,
    "every row compared with the reference model")
add("C03", "Unwarping points: forward model applied, backward model inverted",
    "For every list of lines of points, the forward unwarping moves each "
    "point p to centre + F(|p-centre|)*(p-centre), and the backward "
    "unwarping returns the point u for which centre + F(|u-centre|)*"
    "(u-centre) = p. Number, order and line structure of the points are "
    "kept whatever the numeric type of the coordinates, and the "
    "point-to-point function evaluates the same model with (row, column) in "
    "and xy or yx out.",
    ["inputs"],
    "all point sets (float, integer or single precision, ragged lines, the "
    "centre itself), centres and monotone models",
    "the tests check a mean residual of one grid",
    [POST, UTIL], [("unwarp_line_forward, unwarp_line_backward", POST),
                   ("find_point_to_point", UTIL)],
    ["returned points"], T_REF,
    "independent root finding for the backward model")
add("C04", "Colour, padded and OpenCV unwarping agree with the plain one",
    "Unwarping a grey or colour image with padding equals unwarping, channel "
    "by channel, the image padded by (top, bottom, left, right) about the "
    "centre shifted by the left and top pads; integer, 4-item and boolean "
    "pads are accepted, pad=True keeps the corners of the original view in "
    "the result (to a couple of pixels, for moderate distortion), pad=False/0 adds nothing and any other pad raises "
    "ValueError. The OpenCV image and video versions produce the same "
    "geometry as the SciPy one, and the OpenCV mapping function honours the "
    "interpolation method and border rule it is given (constant by default).",
    ["inputs", "configurations"],
    "all images (2D, 3D with any channel count, dtypes), pads, pad modes, "
    "interpolation orders, centres and models; frame sequences for video",
    "the tests check output shapes for a few pads; the OpenCV functions have "
    "no test",
    [UTIL], [("_calc_pad, unwarp_color_image_backward, "
              "unwarp_image_backward_cv2, unwarp_video_cv2", UTIL)],
    ["returned images", "frames handed to the display"], T_REF,
    "reference model per channel; OpenCV compared within its 1/32 pixel "
    "interpolation grid")
add("C05", "Forward image unwarping scatters every input pixel",
    "Forward unwarping puts the value of each input pixel at the rounded, "
    "clipped position the forward model gives for it: every output pixel "
    "that receives at least one input pixel holds the value of one of those "
    "pixels, and every other output pixel is zero. Shape and dtype are kept.",
    ["inputs"],
    "all images, dtypes, centres and forward models",
    "the tests look at the mean of one image",
    [POST], [("unwarp_image_forward", POST)], ["returned image"], T_REF,
    "set-valued reference: collisions accept any colliding source")
add("C06", "Backward and forward models convert into each other",
    "Converting the coefficients of a radial model between backward and "
    "forward mapping gives a model that undoes the original over the "
    "reference region (default radius about 1400 pixels, or the reference "
    "points given), for both directions, with as many coefficients as were "
    "given. Fewer reference points than coefficients raise ValueError.",
    ["inputs", "configurations"],
    "all physically sensible models (2-6 coefficients, relative distortion "
    "up to several percent), both directions, default and custom reference "
    "points",
    "the tests convert one model and compare to 2 decimals",
    [PROC], [("transform_coef_backward_and_forward", PROC)],
    ["returned coefficients"], T_REF,
    "composition error bounded by the best polynomial fit an independent "
    "solver reaches")
add("C07", "Calibration recovers the radial distortion of a grid",
    "Given the points of any grid seen through a radial distortion and the "
    "true centre, the backward, forward and backward-from-forward "
    "coefficient estimators return models that straighten and equalise the "
    "grid: the recovered mapping agrees with the true one up to a global "
    "scale and rotation to about a pixel. This holds also when a grid line passes through "
    "the centre, for even or odd numbers of lines and with optimisation on "
    "(which never worsens the fit of the line distances); missing lines "
    "raise a UserWarning.",
    ["inputs", "configurations"],
    "all grids (frame, pitch, offset, rotation within a few degrees, centre "
    "anywhere near the middle), barrel and pincushion distortion, number of "
    "coefficients",
    "the tests use one grid whose lines never cross the centre",
    [PROC], [("calc_coef_backward, calc_coef_forward, "
              "calc_coef_backward_from_forward, _calc_undistor_intercept",
              PROC)],
    ["returned coefficients", "UserWarning"], T_GT,
    "synthetic grids with known distortion; tolerance calibrated on "
    "thousands of cases")
add("C08", "Centre-of-distortion estimators find the true centre",
    "Given grid lines seen through a radial distortion, the coarse estimate "
    "is within about one grid pitch of the true centre, the fine search "
    "improves it to a few pixels, Bailey's method and the vanishing-point "
    "methods find it to a few pixels, all in (x, y) order, also for grids "
    "aligned with the image axes. Translating the points translates the "
    "estimate by the same amount (the coarse one: to a fraction of a pitch).",
    ["inputs"],
    "all grids, rotations within a few degrees, centres, distortion signs "
    "and strengths",
    "the tests use one centre and one grid",
    [PROC], [("find_cod_coarse, find_cod_fine, find_cod_bailey, "
              "find_center_based_vanishing_points(_iteration)", PROC)],
    ["returned centre"], T_GT, "synthetic grids with known centre")
add("C09", "Perspective coefficients map the given points exactly",
    "From four or more exact correspondences the 8 coefficients reproduce "
    "the projective map: forward coefficients send source points to target "
    "points, backward coefficients the reverse, and each is the inverse of "
    "the other. Correcting lines applies the map to every point; correcting "
    "an image samples it at the mapped, frame-clipped position of each "
    "pixel, directly or through a given map index; other than 8 "
    "coefficients raises ValueError.",
    ["inputs", "configurations"],
    "all projective maps without a horizon in the frame, point sets of 4 or "
    "more in any order, images, orders and boundary modes",
    "the tests use one map and one set of points",
    [PROC, POST], [("calc_perspective_coefficients", PROC),
                   ("correct_perspective_line, correct_perspective_image",
                    POST)],
    ["returned coefficients, points, images"], T_REF,
    "independent homography algebra and pixel reference")
add("C10", "Perspective target generation yields a matching square lattice",
    "From lines seen in perspective, the generated target points form a "
    "rectangular lattice (right angles, equal spacing along rows and along "
    "columns; the same spacing in both when equal distance is asked), in "
    "one-to-one order with the source points, which are the intersections "
    "of the given lines; the scale option sets the spacing as documented. "
    "The four-point version does this for any input order of the corners "
    "and raises ValueError unless exactly four points are given.",
    ["inputs", "configurations"],
    "all perspective views of grids, equal_dist / scale / optimizing "
    "options, permutations and coordinate orders of four corners",
    "the tests check one grid and one quadrilateral to one decimal",
    [PROC], [("generate_undistorted_perspective_lines, "
              "generate_source_target_perspective_points, "
              "generate_4_source_target_perspective_points", PROC)],
    ["returned points"], T_GT,
    "lattice invariants and ground-truth homographies; one known finding")
add("C11", "Grid regeneration and perspective-effect correction",
    "Regenerated grid points are the intersections of the fitted horizontal "
    "and vertical lines (straight or parabolic), arranged so that point "
    "[i, j] of the horizontal lines is point [j, i] of the vertical lines. "
    "Correcting the perspective effect of a distorted grid applies one "
    "projective map to all points and makes the two families of lines "
    "parallel and perpendicular; it raises ValueError if a direction lacks "
    "lines of both curvatures; updating the centre translates all points by it.",
    ["inputs", "configurations"],
    "all grids of straight or parabolic lines, perspective tilts, and "
    "representative-line methods",
    "the tests check shapes and one grid",
    [PROC], [("regenerate_grid_points_linear, "
              "regenerate_grid_points_parabola, correct_perspective_effect, "
              "update_center", PROC)],
    ["returned points", "ValueError"], T_GT,
    "exact intersections and planar-geometry invariants")
add("C12", "Every dot of a dot pattern is found once, at its centre",
    "For any dot-pattern image (bright or dark dots, noise and background "
    "within reason) binarisation returns a 0/1 image with one component per "
    "dot that does not touch the border, and the extracted points are one per "
    "dot, at the dot centre to a fraction of a pixel. Dot size and distance "
    "are the medians over the central region, and the dot count check "
    "reports insufficiency exactly below 25 dots.",
    ["inputs", "configurations"],
    "all dot patterns: pitch, dot radius, offset, rotation, contrast, "
    "polarity, dtype, noise level, dots cut by the frame",
    "the tests use one centred pattern and count dots with tolerance",
    [PREP], [("binarization, get_points_dot_pattern, calc_size_distance, "
              "check_num_dots", PREP)],
    ["binary image", "points", "size and distance"], T_GT,
    "rendered dots with known sub-pixel centres")
add("C13", "Dot filters keep exactly the dots that satisfy the criterion",
    "Selecting dots by size, by axes ratio or by distance returns a binary "
    "image made only of input dots, each kept whole or dropped whole: kept "
    "are exactly those with area within ratio of the dot size, with fitted "
    "ellipse axes ratio within the threshold, or with at least one of the "
    "three nearest neighbours at a multiple of the dot distance within "
    "ratio. A clean lattice passes through unchanged.",
    ["inputs", "configurations"],
    "all binary dot images and thresholds, also at the boundary of the "
    "accepted range",
    "the tests remove one oversized or misplaced dot",
    [PREP], [("select_dots_based_size, select_dots_based_ratio, "
              "select_dots_based_distance", PREP)],
    ["filtered image"], T_REF, "component-wise reference predicate")
add("C14", "Grouping puts the points of each grid line into one line",
    "Grouping the points of a grid (image or coordinates, in any order, "
    "with some points missing or spurious) gives one line per grid row or "
    "column, ordered across the grid and along the line, made only of input "
    "points, none used twice, and complete for regular grids; this holds "
    "for both grouping methods and both directions, and always terminates. "
    "Removing residual dots keeps exactly the points within the residual of "
    "the fitted parabola.",
    ["inputs", "configurations", "histories"],
    "all grids: rotation, pitch, curvature, missing and extra points, "
    "permutations of the input",
    "the tests count lines of one tilted grid",
    [PREP], [("group_dots_hor_lines/ver_lines(_based_polyfit), "
              "remove_residual_dots_hor/ver", PREP)],
    ["returned lines", "termination (loop-step monitor)"], T_GT,
    "conservation and order checks against the labelled generating grid")
add("C15", "Slopes and pitch of patterns are measured with their signs",
    "For any dot, line or chessboard pattern rotated by a moderate angle, "
    "the horizontal and vertical slope estimates equal the tangent of the "
    "angle with the documented sign convention and the line distance equals "
    "the pitch, whether lines are dark or bright; slopes from a dot "
    "pattern and from a line pattern of the same grid agree.",
    ["inputs", "configurations"],
    "all patterns: angle, pitch, offset, polarity, frame shape, line width",
    "the tests use one angle",
    [PREP, LINE], [("calc_hor_slope, calc_ver_slope", PREP),
                   ("calc_slope_distance_hor_lines, "
                    "calc_slope_distance_ver_lines", LINE)],
    ["returned slope and distance"], T_GT, "rendered patterns of known angle")
add("C16", "Cross points of line and chessboard patterns lie on the lines",
    "The cross points found on a line-pattern or chessboard image lie on the "
    "drawn lines to sub-pixel accuracy, inside the frame (to a pixel), with every line "
    "crossed by every probing profile represented, whether the lines are "
    "dark or bright and for both directions. Converting a chessboard gives "
    "an image whose lines run along the cell edges.",
    ["inputs", "configurations"],
    "all patterns: tilt, pitch, line width, polarity, offset and probing "
    "density",
    "the tests count points of one image",
    [LINE], [("get_cross_points_hor_lines, get_cross_points_ver_lines, "
              "convert_chessboard_to_linepattern", LINE)],
    ["returned points", "converted image"], T_GT,
    "distance of every point to the nearest drawn line")
add("C17", "Profiles, extrema and sub-pixel positions of 1D signals",
    "A tilted profile lists the points of the line that starts at the given "
    "index and runs at the given angle (counter-clockwise positive) clipped "
    "to the frame, and the image interpolated there; indices outside the "
    "allowed range raise ValueError. Local extrema are exactly the points "
    "that are extremal within the radius with sufficient contrast, refined "
    "by the parabola through three points; minima of a signal are maxima of "
    "its mirror image. The sliding-window slope is the absolute "
    "least-squares slope of each window, for any numeric type.",
    ["inputs", "configurations"],
    "all 1D signals and images, radii, sensitivities, angles, directions, "
    "numeric types",
    "the tests use one sinusoid and one image",
    [LINE], [("get_tilted_profile, get_local_extrema_points, "
              "locate_subpixel_point, sliding_window_slope, "
              "select_good_peaks", LINE)],
    ["returned positions and values"], T_REF, "independent re-evaluation")
add("C18", "What is saved can be loaded back unchanged",
    "Calibration metadata (text or JSON), Python lists, HDF datasets, HDF "
    "streams and TIFF images come back with the same values, order, shape "
    "and precision they were saved with; images saved in an 8-bit format "
    "come back as the input rescaled linearly to 0-255. The saver returns "
    "the path of the file it wrote, with the right extension added when "
    "missing and missing folders created. Loading a file that does not exist "
    "raises ValueError.",
    ["inputs", "configurations"],
    "all values (any magnitude, sign, numpy or Python numbers), dtypes, "
    "shapes and file names",
    "the tests round-trip one sample per format",
    [LOSA], [("save_*/load_*, open_hdf_stream", LOSA)],
    ["files on disk", "loaded values"], T_HIST,
    "bit-exact round trips; 8-bit within one grey level")
add("C19", "With overwrite=False no existing file is ever lost",
    "In any sequence of saves, a save with overwrite=False never changes or "
    "removes an existing file: it writes a new file next to it and returns "
    "that new path, whose content is what was saved; with overwrite=True "
    "exactly the requested path changes. A save that cannot write raises "
    "and leaves other files untouched.",
    ["histories", "fault_sequences"],
    "all interleavings of saves of every kind, names, extensions, existing "
    "numbered files, gaps, unwritable folders and missing parents",
    "the tests save twice",
    [LOSA], [("_create_file_name, _create_folder, save_*", LOSA)],
    ["directory contents before and after every operation"], T_HIST,
    "directory snapshots around every operation")
add("C20", "HDF loading selects exactly the requested data",
    "Loading from an HDF file returns the dataset, or the slices selected by "
    "an index, range or increasing list along the given axis, in order and with the "
    "other axes untouched (a single slice as a 2D image); listing and searching "
    "return every dataset with its true shape and type and only keys that "
    "match. Missing files, keys, empty selections and unsupported "
    "dimensions raise ValueError; finding files returns the sorted matches.",
    ["inputs", "configurations"],
    "all file layouts (groups, depths, empty groups), dataset shapes, axes, "
    "indices (int, numpy int, negative, pairs, triples, lists)",
    "the tests use one 3D dataset",
    [LOSA], [("load_hdf_file, load_hdf_object, get_hdf_information, "
              "find_hdf_key, find_file", LOSA)],
    ["returned arrays and keys"], T_REF, "numpy indexing of the source array")
add("C21", "Functions are pure: inputs untouched, results repeatable",
    "No processing function modifies the arrays, lists or dictionaries it is "
    "given, and each returns the same result for the same arguments however "
    "often it is called, in whatever order relative to other calls, and from "
    "concurrent threads, without disturbing NumPy's global random numbers.",
    ["inputs", "histories", "schedules"],
    "all public processing functions, all call histories and thread "
    "interleavings",
    "the tests call each function once in isolation",
    [POST, PROC, PREP, LINE, UTIL], [("no module-level state; copies before "
                                      "in-place work", PREP)],
    ["arguments before/after", "results across histories and threads"],
    "runtime monitor: argument snapshots, replayed histories and "
    "thread-interleaving stress with switch interval 1 us",
    "digests of arguments and results")
add("C22", "Plot savers draw the data and leave matplotlib as it was",
    "Saving a plot of lines, points or residuals leaves matplotlib's global "
    "settings and open figures exactly as before, also when drawing or saving fails, "
    "and the image written has the requested size, with every point drawn "
    "in the requested colour at its (x, y) position in image orientation "
    "(top row up).",
    ["inputs", "histories", "fault_sequences"],
    "all point sets, frame sizes, dpi, user settings of matplotlib, failing "
    "paths and sequences of plots",
    "the tests only check that a file appears",
    [LOSA], [("save_plot_image, save_plot_points, save_residual_plot", LOSA)],
    ["rcParams, figure numbers, pixels of the saved image"], T_HIST,
    "state snapshots and pixel detection")
add("C23", "Masks and point-set operations keep exactly the right points",
    "The parabolic mask is 1 exactly inside the four parabolas and margins "
    "(rotated as asked) and invalid margins raise ValueError; masking points "
    "keeps exactly those whose pixel is inside, in order, and drops points "
    "outside the frame. Rotating points turns them by the angle about the "
    "origin, counter-clockwise positive in the (x, y) plane, and is undone by the opposite "
    "angle; removing a subset removes exactly those points.",
    ["inputs", "configurations"],
    "all frame sizes, margins (scalar or pair), curvatures, angles and point "
    "sets",
    "the tests compare sums of one mask",
    [PREP], [("make_parabola_mask, remove_points_using_parabola_mask, "
              "rotate_points, remove_subset_points", PREP)],
    ["returned masks and points"], T_REF, "direct evaluation of the geometry")
add("C24", "Residuals measure distance to the fitted line; verdict at 15%",
    "The residual table has one row per point: its distance to the centre "
    "and its perpendicular distance to the least-squares line of its own "
    "grid line, sorted by radius, for horizontal and vertical lines alike. "
    "Distortion is reported exactly when more than 15% of the residuals "
    "exceed one pixel.",
    ["inputs"],
    "all line sets, centres and residual tables, also exactly at the "
    "threshold",
    "the tests look at one grid's mean",
    [POST], [("calc_residual_hor, calc_residual_ver, check_distortion",
              POST)],
    ["returned table and verdict"], T_REF, "independent least squares")
add("C25", "Background normalisation and threshold behave linearly",
    "Background normalisation (median or Fourier) always returns a finite "
    "image of the same shape, equal to the image times the mean background "
    "over the local background (a pixel whose background is zero is left as "
    "it is), leaves a constant image unchanged and commutes with scaling the "
    "intensities. The threshold lies snr/2 times the fitted noise span beyond "
    "the fitted end of the background: it is equivariant under affine "
    "intensity changes, dual between bright and dark background, moves away "
    "from the background with the snr parameter, and lies between background "
    "and features of a pattern with clear contrast.",
    ["inputs", "configurations"],
    "all images (also with zero regions), dtypes, filter sizes, paddings and "
    "snr values",
    "the tests check one image and mean values",
    [PREP], [("normalization, normalization_fft, calculate_threshold",
              PREP)],
    ["returned image and threshold"], T_META,
    "reference filter plus metamorphic relations")
add("C26", "Complete calibration pipelines straighten distorted images",
    "Starting only from the image of a dot, line or chessboard target seen "
    "through a radial distortion (optionally with perspective), the "
    "documented pipelines produce a centre and coefficients with which the "
    "unwarped points are straight and equally spaced to about a pixel, and "
    "the unwarped image shows the undistorted target.",
    ["inputs", "programs"],
    "all targets: frame, pitch, rotation, distortion, noise; every "
    "documented sequence of calls",
    "the tests exercise the steps separately",
    [PREP, LINE, PROC, POST], [("the chain prep -> proc -> post", PROC)],
    ["end results of the chain"], T_GT,
    "rendered targets with known distortion")
add("C27", "Synthetic targets have exactly the requested geometry",
    "Generated dot, line and chessboard patterns have the requested frame "
    "size and value range, features exactly at the requested pitch, size "
    "and margin (scalar or per-direction), and the circle mask is 1 exactly "
    "within its radius; a dot size above the dot distance raises ValueError.",
    ["inputs", "configurations"],
    "all sizes, pitches, feature sizes, margins and grey levels",
    "the tests check the shape of the default patterns",
    [UTIL], [("make_circle_mask, make_dot_pattern, make_line_pattern, "
              "make_chessboard", UTIL)],
    ["returned images"], T_REF, "closed-form geometry of the pattern")
