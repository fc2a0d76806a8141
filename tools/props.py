"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py to rewrite both)."""

ALL = []


def P(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    ALL.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant),
        why_tests_cant=why,
        anchors=dict(
            files=["openptv_python/" + f for f in files],
            state=[dict(name=n, meaning=m, where="openptv_python/" + w) for n, m, w in state],
            mechanism=[dict(name=n, where="openptv_python/" + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))


# ---------------------------------------------------------------- persistence
P("C01", "Detected image targets survive being saved and loaded",
  "Writing any list of detected targets for any camera and any positive frame number and reading it back with the same name and "
  "frame number gives the same targets in the same order: integers exactly, positions to the four decimals the file "
  "keeps. Saving one camera or frame never changes what another one reads back, and an empty list is a valid list.",
  ["inputs", "histories"],
  "all target lists of length 0..3 over boundary field values, all frame numbers around every digit-count boundary, all "
  "styles of base name, and all short sequences of writes to several cameras/frames",
  "The tests write one two-target file under one name; frame numbering, empty lists, wide values and interference "
  "between files are functions of inputs they never vary.",
  ["tracking_frame_buf.py"],
  [("read_targets / write_targets", "tracking_frame_buf.py"), ("Target", "tracking_frame_buf.py")],
  [("<base><frame>_targets", "one text file per camera and frame", "tracking_frame_buf.py:write_targets")],
  ["read_targets()", "the files on disk"])

P("C02", "Frame results survive being saved and loaded",
  "Writing a frame (3D positions, correspondences, links, priorities, and the targets of every camera) and reading it back "
  "gives the same particles in the same order, positions to three decimals and everything else exactly; reading without "
  "links gives unlinked particles. This holds for any number of particles and cameras, whatever larger capacity "
  "was allocated for the frame, and with or without the optional priority file.",
  ["inputs", "histories"],
  "all frames of 0..3 particles over boundary link/correspondence/position values, 1..4 cameras, all capacities, prio file on/off, "
  "and all write/read sequences over two frame numbers",
  "The tests read one stored frame; they never write a frame they built, nor one with spare capacity, no particles, or no priority file.",
  ["tracking_frame_buf.py"],
  [("read_path_frame / write_path_frame", "tracking_frame_buf.py"), ("Frame.read / Frame.write", "tracking_frame_buf.py")],
  [("rt_is / ptv_is / added files", "positions+correspondences / links / links with priority", "tracking_frame_buf.py:write_path_frame")],
  ["Frame.read()", "read_path_frame()"])

P("C03", "A camera calibration survives being saved and loaded",
  "Writing a camera's calibration, with or without the distortion file, and loading it back gives the same position, angles, "
  "principal point, glass vector and distortion to the precision kept in the files, and a rotation matrix that belongs to the loaded angles. "
  "Saving what was loaded and loading it again changes nothing, a successful save is not reported as a failure, and comparison of "
  "calibrations tells equal ones from ones differing in any parameter.",
  ["inputs"],
  "every calibration with each parameter at each value of a boundary alphabet, in all pairs, with and without distortion file, through every read and write entry point",
  "The tests load fixed files from one rig and save one of them; a field-specific loss shows only for values the fixtures do not have.",
  ["calibration.py"],
  [("write_ori / read_ori / Calibration.from_file / Calibration.write", "calibration.py"), ("compare_calibration", "calibration.py")],
  [(".ori / .addpar", "exterior+interior+glass / distortion text files", "calibration.py:write_ori")],
  ["Calibration getters", "files on disk"])

P("C04", "Experiment parameters survive their files and dictionaries",
  "Every experiment parameter set (control, volume, sequence, tracking, detection, calibration, orientation and the other GUI sets) that is written to any supported "
  "form (legacy text file, YAML, dictionary) and read back is equal to the original in every field, for 1 to 4 cameras. Reading never alters the source it was given, "
  "and equality distinguishes objects that differ in any field.",
  ["inputs", "configurations"],
  "every parameter class, every field at each value of its alphabet (one and two at a time), 1..4 cameras, every serialised form the class supports",
  "The tests read one fixture per class; a field that is dropped, swapped or misread only for other values or camera counts passes them.",
  ["parameters.py"],
  [("from_file / to_yaml / from_yaml / to_dict / from_dict", "parameters.py")],
  [(".par / YAML files", "text parameter sets", "parameters.py")],
  ["field values of the loaded objects"])

P("C05", "Interrupted or damaged result files are never taken for good ones",
  "If saving targets, a frame or a calibration is cut short by an I/O error at any point (full disk, missing directory), the save does not report success. "
  "If a target or frame file ends early at any line or field, or a required file of the frame is missing, loading does not silently return a wrong frame: it fails instead of "
  "returning data that differ from what was saved.",
  ["crash_points", "fault_sequences"],
  "every byte offset at which the file system can stop accepting data in every output file of a small frame, every missing-directory choice, and every line-truncation point of every input file",
  "No test injects an I/O fault or a truncated file at all.",
  ["tracking_frame_buf.py", "calibration.py"],
  [("write_targets / write_path_frame / Frame.write", "tracking_frame_buf.py"), ("read_targets / read_path_frame / Frame.read", "tracking_frame_buf.py"), ("write_ori", "calibration.py")],
  [], ["return values and exceptions", "files on disk"])

# ---------------------------------------------------------------- tracking
P("C06", "The frame buffer is a faithful sliding window over the sequence",
  "After any history of advancing, stepping back, loading at the end and saving from the start, each slot of the buffer holds exactly the frame that history put there, and nothing else; "
  "loading a frame with or without links gives that frame's data on disk, saving writes exactly the first slot, and stepping forward then back restores the order. As a bounded queue it "
  "accepts and returns frames first-in first-out and refuses when full or empty.",
  ["histories"],
  "all operation histories up to a depth over the buffer's operations, buffer lengths 1..4, with disk contents tracked by a reference model",
  "Nothing in the suite exercises the buffer's operations beyond one tracking run; correctness depends on the history.",
  ["tracking_frame_buf.py"],
  [("FrameBuf / FrameBufBase", "tracking_frame_buf.py")],
  [("buffer slots", "window of consecutive frames", "tracking_frame_buf.py:FrameBufBase")],
  ["buffer contents", "files on disk"])

P("C07", "Tracking produces a consistent one-to-one link graph",
  "After tracking any sequence of frames, links are mutual between consecutive frames (if a particle's successor is q then q's predecessor is that particle, and conversely), every link points to an existing "
  "particle, and so no particle has two successors or two predecessors; the first frame has no predecessors and the last no successors, with particle adding on or off. "
  "A particle's successor is its best rated candidate, competing particles yield to the better rated one, and the reported totals of particles and links agree with the files.",
  ["inputs", "histories"],
  "all small histories: up to 2-3 particles per frame placed on every combination of positions of a coarse lattice over 3..6 frames, tracked from disk to disk on a real multi-camera rig, adding off and on",
  "The tests check one or two totals on fixed cavity/burgers data; conflicts between competing candidates arise only for particular configurations.",
  ["track.py", "tracking_run.py", "tracking_frame_buf.py"],
  [("trackcorr_c_loop / trackcorr_c_finish", "track.py"), ("TrackingRun", "tracking_run.py")],
  [("prev/next links", "link graph on disk", "tracking_frame_buf.py:Pathinfo")],
  ["linkage, prio and correspondence files after the run"])

P("C08", "Tracking recovers well-separated smooth trajectories",
  "Particles that move at nearly constant velocity within the limits (or rest) for at least three frames, far apart compared to their displacement and visible in all cameras, are all linked from their first to their last frame, "
  "in whatever order they are listed in each frame and wherever in the volume and sequence they appear. No link joins two different trajectories.",
  ["inputs", "histories"],
  "all listing orders of up to 3 particles per frame, all appearance/disappearance intervals, and all velocity directions of a lattice, over 4..7 frames",
  "The tests track three fixed synthetic data sets and compare totals; order and interval combinations are never varied.",
  ["track.py"],
  [("trackcorr_c_loop", "track.py"), ("predict / search_volume_center_moving / angle_acc", "track.py")],
  [], ["linkage files after the run"])

P("C09", "Backward tracking only fills gaps",
  "A backward tracking pass over any tracked sequence keeps every existing link, every particle position and every correspondence of every frame, and only adds links where both ends were free; "
  "the resulting link graph is again mutual and one-to-one. Missing links of a smooth isolated trajectory before its last existing link (not ending in the last frame) are restored.",
  ["histories", "inputs"],
  "all small tracked histories (as for forward tracking), with every pattern of broken links on one to three trajectories over 4..7 frames",
  "One test checks totals after one backward pass; corruption of single frames or links leaves totals intact.",
  ["track.py"],
  [("trackback_c", "track.py")],
  [], ["all result files before and after the pass"])

P("C10", "Tracking does not alter the measured data; adding only appends",
  "Without particle adding, forward tracking leaves every frame's positions, correspondences and targets' image data as they were. With adding, existing particles keep index, position and correspondences, "
  "and each added particle lies in the volume where its image targets see it, refers only to targets that no other particle of that frame uses, and those targets name that particle; no other target changes owner. "
  "A particle of a smooth path that all cameras see but the 3D list of one frame misses is added back once.",
  ["inputs", "histories"],
  "all small histories with gaps: each particle missing from the 3D list in each subset of frames while its image targets stay visible in each subset of cameras, adding on and off",
  "The one test with adding compares totals; a wrong owner index or altered correspondence is invisible to it.",
  ["track.py", "tracking_frame_buf.py"],
  [("add_particle / assess_new_position", "track.py")],
  [], ["result files before and after tracking"])

P("C11", "Image search returns the nearest targets of the window",
  "Searching an image for candidates around a point returns the (at most four) nearest eligible targets strictly inside the given window and the image, nearest first and padded with the unused mark, for any target list sorted by image row, "
  "any search centre (none for one outside the image) and any window. The variant that looks for leftover targets considers exactly the targets not yet owned by a particle, and the ordinary one exactly those that are.",
  ["inputs"],
  "all target lists up to a bound on a small integer lattice (sizes 0..N incl. sizes around powers of two), all ownership patterns, all search centres and windows of the lattice",
  "The tests try a handful of points; window cuts and the bisection start depend on list size and position.",
  ["track.py"],
  [("candsearch_in_pix / candsearch_in_pix_rest", "track.py")],
  [], ["returned candidate indices"])

P("C12", "Candidates seen by several cameras are merged by number of sightings",
  "Merging per-camera candidate lists yields each particle seen by several cameras exactly once, with the exact set of cameras that saw it and their count, ordered by descending count; "
  "unused entries never become candidates, and one seen by a single camera at most when there is no better one. The registered candidate for a camera is the owner of the target found there.",
  ["inputs"],
  "all candidate tables of 2..4 cameras with up to 4 slots over a small particle alphabet",
  "The test merges one table; duplicates and orderings need particular tables.",
  ["track.py"],
  [("sort_candidates_by_freq / register_closest_neighbs / sorted_candidates_in_volume", "track.py")],
  [], ["merged candidate list"])

P("C13", "Motion prediction and limits follow their definitions",
  "Linear prediction, the moving search centre, velocity-limit and volume tests and the angle/acceleration measures agree with their geometric definitions for every input, are symmetric where the definition is, and do not modify their arguments. "
  "The image search box around a point encloses the projections of every corner of the 3D search volume, and stays within the image.",
  ["inputs"],
  "all combinations of points of a lattice including coincident, antiparallel and boundary cases; all box corners for lattice points in several rigs",
  "Tests check single points; boundary equality, degenerate vectors and sign combinations are unsampled.",
  ["track.py"],
  [("predict / search_volume_center_moving / pos3d_in_bounds / angle_acc / searchquader", "track.py")],
  [], ["returned values"])

# ---------------------------------------------------------------- correspondences
P("C14", "Multi-camera matching finds exactly the consistent groups",
  "Given pairwise candidate lists between cameras, the four-, three- and two-camera matchers report exactly the groups whose every pair is a listed candidate pair, that use only still-free targets and whose quality passes the threshold, "
  "each once and with the quality given by the definition; nothing absent from the lists is ever reported.",
  ["inputs"],
  "all pairwise candidate graphs over up to 2-3 targets per camera for 2, 3 and 4 cameras, with all patterns of already used targets",
  "Tests feed one ideal configuration; spurious or missed groups depend on the graph.",
  ["correspondences.py"],
  [("four_camera_matching / three_camera_matching / consistent_pair_matching / match_pairs", "correspondences.py")],
  [], ["returned groups"])

P("C15", "Accepted correspondences are disjoint and chosen best first",
  "Choosing among groups takes them in order of decreasing quality and accepts a group exactly when none of its targets is already taken, so each target ends up in at most one group; "
  "blank or leftover entries are never accepted and the reported count is the number accepted.",
  ["inputs"],
  "all group lists up to a bound over a small target alphabet, with all qualities including ties, all initial use patterns and any amount of unused space behind the list",
  "Two tests with one list each; conflicts and leftover scratch entries need particular lists.",
  ["correspondences.py"],
  [("take_best_candidates", "correspondences.py"), ("correspondences", "correspondences.py")],
  [], ["accepted groups and use marks"])

P("C16", "Correspondence recovers every particle of an ideal scene",
  "For 2, 3 or 4 calibrated cameras and well-separated particles, each seen by any set of at least two cameras, the full correspondence procedure returns for each particle exactly one group made of its own targets, "
  "listed under the number of cameras that saw it, whatever the order of the targets; per-size counts add up, no target is used twice, and each target ends up numbered with its group.",
  ["inputs", "configurations"],
  "all visibility patterns of up to 3 particles over 2..4 cameras, all target listing orders for small cases, several rigs",
  "The tests run a 16-particle scene on four cameras with all or fixed visibility.",
  ["correspondences.py", "epi.py", "find_candidate.py"],
  [("correspondences / py_correspondences / match_pairs", "correspondences.py"), ("find_candidate", "find_candidate.py"), ("epi_mm", "epi.py")],
  [], ["returned groups, counts and target numbers"])

P("C17", "Epipolar candidate search equals exhaustive search",
  "The search for candidates along an epipolar segment returns exactly the targets within the tolerance band of the segment, inside the sensor and passing the size/brightness ratio limits (up to the documented capacity), "
  "with their distance and quality, for any x-sorted list and any segment direction; the bisection start never skips a candidate.",
  ["inputs"],
  "all x-sorted lists on a small lattice of all sizes up to a bound and around powers of two, all segment end points of the lattice including vertical, reversed and degenerate ones",
  "Two fixed lists are tested; off-by-one cuts depend on list size and segment position.",
  ["find_candidate.py"],
  [("find_candidate / find_start_point_binary / quality_ratio", "find_candidate.py")],
  [], ["returned candidates"])

P("C18", "The epipolar line passes through the matching image point",
  "For any 3D point inside the measurement volume and any pair of cameras, the epipolar segment computed from its image in one camera runs through its image in the other, "
  "within the accuracy of the refraction solution; the epipolar curve starts and ends on the volume limits, and its points all lie on it in order.",
  ["inputs", "configurations"],
  "all lattice points of the volume, all ordered camera pairs, rigs with and without refraction, tilted glass and layer bounds",
  "The tests check one pair of perpendicular cameras and fixed curve values.",
  ["epi.py"],
  [("epi_mm / epi_mm_2D / epipolar_curve", "epi.py")],
  [], ["segment end points"])

# ---------------------------------------------------------------- geometry
P("C19", "Projection and ray tracing are inverse and obey Snell's law",
  "The ray traced from the image of any 3D point in view passes through that point, and the image of any point on a traced ray is the pixel it came from, with or without refracting layers, for tilted glass and any camera orientation. "
  "At each interface the traced ray stays in the plane of incidence and satisfies the law of refraction, and equal refractive indices give straight pinhole rays. Lists of points project like the points one by one, and rows that are not 3D points are refused.",
  ["inputs", "configurations"],
  "all lattice points/pixels times all rigs of a configuration alphabet (positions, angles, glass vectors, thicknesses, indices, distortions)",
  "Tests compare stored numbers for a few configurations; projection and tracing are only checked separately.",
  ["ray_tracing.py", "imgcoord.py", "multimed.py"],
  [("ray_tracing", "ray_tracing.py"), ("img_coord / flat_image_coord", "imgcoord.py"), ("trans_cam_point / multimed_nlay / back_trans_point", "multimed.py")],
  [], ["projections and rays"])

P("C20", "Pixel, metric and distortion conversions are mutually inverse",
  "Pixel to metric and back, and distorting then correcting, return the original point for every sensor geometry and every realistic distortion; the array versions agree with the scalar ones row by row, "
  "for any number of points, and no conversion modifies its input.",
  ["inputs", "configurations"],
  "all pixel positions of a lattice (incl. sensor corners and exact centre) for all sensor sizes/pixel pitches and all distortion vectors of an alphabet",
  "Tests sample a few points with one or two distortion terms on.",
  ["trafo.py"],
  [("pixel_to_metric / metric_to_pixel / distort_brown_affine / correct_brown_affine / flat_to_dist / dist_to_flat", "trafo.py"),
   ("arr_pixel_to_metric / arr_metric_to_pixel / fast_arr_metric_to_pixel", "trafo.py")],
  [], ["converted coordinates"])

P("C21", "The refraction lookup table never changes the answer",
  "For every point, the radial shift read from a camera's lookup table agrees with direct computation within the interpolation error (micrometres), or the table declines and the direct value is used; points on or beyond every edge of the table included. "
  "Rebuilding the table after the camera, medium or volume changed gives the table of the new configuration.",
  ["inputs", "histories"],
  "all lattice points inside, on the edges and around the table for all rigs, and all short histories of table (re)builds and parameter changes",
  "Tests look up a handful of interior points in one table.",
  ["multimed.py"],
  [("init_mmlut / get_mmf_from_mmlut / multimed_r_nlay", "multimed.py")],
  [], ["radial shift values"])

P("C22", "The computed volume extent encloses what the cameras can see",
  "The horizontal extent computed for the measurement volume is the bounding box of all cameras' image-corner rays at the lowest and highest depth, joined with the extent given as input; the depth range is that of the volume parameters.",
  ["inputs", "configurations"],
  "all rigs of a configuration alphabet with 1..4 cameras, all orders of volume layers, all initial extents",
  "One test compares one rig's numbers.",
  ["multimed.py"],
  [("volumedimension", "multimed.py"), ("move_along_ray", "multimed.py")],
  [], ["returned extents"])

P("C23", "Triangulation returns the point the cameras see",
  "From the images of a 3D point in any two or more of the cameras, triangulation returns that point with a ray-closeness measure near zero, independently of camera order and of cameras marked as not seeing it; "
  "for many points each row gets its own point and its own measure. A point seen by fewer than two cameras does not produce a made-up position.",
  ["inputs", "configurations"],
  "all lattice points, all camera subsets of 1..4-camera rigs, with and without refraction, all batches up to 3 points",
  "Tests triangulate fixed points with all cameras and look at a single point at a time.",
  ["orientation.py"],
  [("point_position / multi_cam_point_positions / skew_midpoint / weighted_dumbbell_precision", "orientation.py")],
  [], ["positions and measures"])

# ---------------------------------------------------------------- calibration
P("C24", "Full calibration recovers the camera and touches only what it may",
  "Starting near the truth with exact observations, full calibration succeeds and reprojects the observations to a fraction of a pixel for each selection of free parameters that includes the deviating ones; parameters not selected keep their exact values, "
  "and the residuals belong to the points reported as used. When it does not converge the failure is reported and the camera is left exactly as it was. External (raw) calibration changes only the pose, resetting the distortion.",
  ["inputs", "configurations"],
  "all single and pairwise perturbations of the camera parameters with all matching selections of free parameters, several rigs, and all short/failing inputs",
  "The tests calibrate one camera with one or two flag settings.",
  ["orientation.py"],
  [("orient / full_calibration / external_calibration / raw_orient", "orientation.py")],
  [], ["the calibration object before and after", "returned residuals"])

P("C25", "Calibration objects stay consistent and independent",
  "After any history of setter, increment, load, numerical-derivative and copy operations, getters return what was last set, the rotation matrix is the proper rotation of the angles it was last computed for, and operating on one camera or parameter object "
  "never changes another, nor do arrays handed in or out stay tied to it. Malformed arrays are rejected without effect, and computing numerical derivatives leaves the camera unchanged.",
  ["histories"],
  "all operation histories up to a depth over two calibration objects and the full setter alphabet, compared with a plain record model after every step",
  "Tests set single values once; aliasing and stale derived state need sequences over more than one object.",
  ["calibration.py", "orientation.py", "parameters.py"],
  [("Calibration setters/getters, rotation_matrix", "calibration.py"), ("num_deriv_exterior", "orientation.py")],
  [], ["getters of all live objects"])

P("C26", "Each grid point gets its nearest detection or none",
  "Matching detections to a known calibration grid assigns to each projected grid point the nearest detection within the search window (of the given half-width), carrying that detection's image data and the grid point's number, and marks the point unmatched otherwise; "
  "the result has one entry per grid point, independent of the order of detections, and the given detections are not altered.",
  ["inputs"],
  "all small sets of detections on a lattice around the projections of up to 3 grid points (incl. shared and out-of-image ones), all radii and orders",
  "Tests use one image of 13 grid points and two radii.",
  ["sortgrid.py"],
  [("sortgrid / nearest_neighbour_pix", "sortgrid.py")],
  [], ["returned list", "the input list"])

# ---------------------------------------------------------------- images
P("C27", "Segmentation reports exactly the particles that satisfy the rules",
  "Target recognition returns exactly the bright connected blobs that grow from a local maximum above the threshold under the discontinuity rule and satisfy the size and brightness limits, each with its exact pixel count, extent, grey sum "
  "above the threshold and grey-weighted centroid, numbered consecutively. The image is not modified and repeating the call gives the same result.",
  ["inputs"],
  "all images on a small pixel grid over a small grey alphabet, times all threshold/size/discontinuity settings of an alphabet",
  "Tests use a few hand-drawn images with one or two targets.",
  ["segmentation.py"],
  [("targ_rec / target_recognition", "segmentation.py")],
  [], ["returned targets"])

P("C28", "Segmentation is local and position independent",
  "Shifting an isolated blob shifts its target by the same amount and changes nothing else, at any position of the image interior and for any image size and aspect; a search region that cuts through no blob returns exactly the "
  "targets of the whole image that lie in it. Results for a blob do not depend on other blobs that do not touch it, on the camera's neighbours' settings, or on earlier calls.",
  ["inputs", "configurations"],
  "all blobs of a small grid placed at all positions of images of all small sizes and aspects, all sub-regions, and all pairs of blobs at all offsets",
  "Tests use one image size and whole-image regions.",
  ["segmentation.py"],
  [("targ_rec sub-window handling", "segmentation.py")],
  [], ["returned targets"])

P("C29", "Image preprocessing keeps shape and values in range",
  "Every preprocessing step returns an image of the same shape and grey type and leaves its input unmodified; low-pass and box filters equal the average of their neighbourhood (zero outside the image) to one grey level, user filters equal the given kernel's convolution clipped to the grey range, "
  "masks zero exactly the masked pixels, and subtracting images clips at zero instead of wrapping around. The result at a pixel depends only on pixels within the filter's reach.",
  ["inputs", "configurations"],
  "all small images over a small grey alphabet incl. 0 and 255, all filter sizes, masks and modes",
  "Tests check shapes or a single image.",
  ["image_processing.py"],
  [("preprocess_image / prepare_image / lowpass_3 / filter_3 / fast_box_blur / subtract_img / subtract_mask", "image_processing.py")],
  [], ["returned images"])

# ---------------------------------------------------------------- the pieces together
P("C30", "Images in, the scene's positions and trajectories out",
  "Taking image sequences of well separated particles through the whole chain - preparation, recognition, flat coordinates, correspondence, positions, frame files, forward and backward tracking - leaves frame files that hold each particle of the scene exactly once "
  "per frame it is in, at its true position to a fraction of a pixel's size, attached to its own image in each camera, and linked to itself in the frames before and after and to nothing else.",
  ["histories", "configurations"],
  "all rendered image sequences of a lattice of particles with their velocities and appearance intervals, times 2-4 cameras, rigs with and without water, tilted glass and distortion",
  "Tests exercise single stages with data prepared by the tests; no test follows a known scene from its images to its trajectories.",
  ["segmentation.py", "tracking_frame_buf.py", "correspondences.py", "orientation.py", "track.py", "tracking_run.py"],
  [("target_recognition, match_coords, py_correspondences, point_positions, Frame.write, trackcorr_c_loop, trackback_c", "track.py")],
  [("frame files", "correspondences, links and targets of each frame on disk", "tracking_frame_buf.py:Frame.write")], ["the saved frame files"])

P("C31", "Coordinate lists and frame accessors name what they hold",
  "The flat coordinates of a target list hold each target exactly once under its own number, sorted by x, and map back through the camera to that target's pixel; reading them by number returns the coordinates of exactly the numbers asked for, in that order. "
  "Sorting targets or groups loses, duplicates or mixes nothing for any length and ties. A frame's positions and per-camera target positions are those of its particles (no-target as NaN), as independent copies; matching detections to reference points puts each detection at its point and leaves the others unmatched.",
  ["inputs"],
  "all small target lists over lattice places in every order and numbering for several cameras; all sort inputs of a few keys and sizes around the buffer limits; all correspondence patterns of small frames; all subsets of a reference grid",
  "Tests use one short list each and check single entries.",
  ["tracking_frame_buf.py", "orientation.py", "trafo.py"],
  [("match_coords / matched_coords_as_arrays / get_by_pnrs / sort_target_y / quicksort_n_tupel / Frame.positions / Frame.target_positions_for_camera", "tracking_frame_buf.py"), ("match_detection_to_ref", "orientation.py")],
  [], ["returned lists and arrays, the given lists afterwards"])

P("C32", "One camera places targets on the middle plane of the volume",
  "With a single camera, the position given for a target is the point on its line of sight - refracted at the glass - halfway between the depth limits of the volume, for each target on its own and in the order given, with ray convergence zero; without any camera the request is refused. Nothing given is altered.",
  ["inputs", "configurations"],
  "lattices of points and batches over single-camera rigs in air, behind flat and tilted glass and with distortion, with level and sloping depth limits",
  "Tests cover two points of one camera.",
  ["orientation.py", "epi.py"],
  [("single_cam_point_positions / point_positions", "orientation.py"), ("epi_mm_2D", "epi.py")],
  [], ["returned positions"])

P("C33", "Setup files give exactly the settings and points they state",
  "Calibration block files of 'id x y z' lines give each point under its own number in file order whatever the spacing, number style, blank lines or end of file; the manual orientation selects exactly the four points with the ids stated for the camera, in that order, and refuses unknown ids. "
  "The grid search window is the number in its file, or the default without one. A tracking run set up from parameter files holds exactly their sequence, limits, optics, volume criteria, cameras, buffers and tolerance, with the largest displacement the diagonal of the velocity limits.",
  ["inputs", "configurations"],
  "all generated files of an alphabet of id sets, number styles, separators and endings, all choices of four points, and all combinations of tracking settings",
  "Tests read one committed file each.",
  ["sortgrid.py", "orientation.py", "tracking_run.py", "parameters.py"],
  [("read_calblock / read_sortgrid_par", "sortgrid.py"), ("read_man_ori_fix / read_calblock", "orientation.py"), ("tr_new / TrackingRun", "tracking_run.py")],
  [], ["returned points and settings"])

P("C34", "Records hold what was last set and compare equal only if alike",
  "Every setter of the parameter, target and path records changes exactly the fields it names, on that object alone, and every getter returns what was last set, over any history of calls; contradictory layer lists are refused; a calibration made from some of its parts has those and the defaults for the others. "
  "The comparison functions and == call two records equal exactly when every field (including each element of lists) is equal, in both directions. Link candidates registered with a particle are kept in order, and resetting links clears the links and nothing else.",
  ["histories", "inputs"],
  "all setter histories up to a depth over two objects of each record class, and all changes of one and of two fields in comparisons",
  "Tests call a few setters once and compare one pair of objects per class.",
  ["parameters.py", "tracking_frame_buf.py"],
  [("TrackPar / VolumePar / ControlPar / MultimediaPar / SequencePar / TargetPar and compare_*", "parameters.py"), ("Target / Pathinfo / compare_targets / compare_corres / compare_path_info", "tracking_frame_buf.py")],
  [("record fields", "the settings or the particle data an object holds", "parameters.py")], ["fields, getters and comparisons after each history"])

P("C35", "Numerical helpers compute what they are named for",
  "For all vectors: sum, difference, products, norms and the unit vector equal their definitions and alter no argument; comparing vectors within a tolerance (a millionth if none is given) depends on the difference alone, at any magnitude; the point on a ray at a given height lies on the ray at that height; "
  "the matrix product equals its definition whatever the buffer held; exactly the singular matrices are called singular; sorting coordinates orders them and keeps every point whole.",
  ["inputs"],
  "all pairs of vectors over a component alphabet spanning magnitudes and signs, all small matrices over small alphabets, all short lists with ties",
  "Tests check one pair of vectors each.",
  ["vec_utils.py", "ray_tracing.py", "multimed.py", "orientation.py", "epi.py"],
  [("vec_* / norm / unit_vector", "vec_utils.py"), ("matmul_numba_optimized", "ray_tracing.py"), ("move_along_ray", "multimed.py"), ("is_singular", "orientation.py"), ("sort_coord2d_x / sort_coord2d_y", "epi.py")],
  [], ["returned values, arguments afterwards"])

P("C36", "What a call returns depends on its arguments alone",
  "Projection, refraction, epipolar search, correspondence, positioning, calibration, segmentation, preprocessing, tracking and file operations are functions of what they are given: after any history of other calls, on other scenes or on the same one, "
  "each returns what it returns on fresh objects, leaves what it was given unchanged (where it is not documented to fill it), and returns no memory that was never filled in. A result once handed out is not changed by later calls, and overwriting it changes no later result and none of the inputs.",
  ["histories", "configurations"],
  "all ordered pairs (thorough: across scenes, and all triples on one scene) of forty operations over three scenes of different cameras, optics and sizes",
  "Tests run each operation once on freshly built data and compare single values.",
  ["calibration.py", "imgcoord.py", "multimed.py", "ray_tracing.py", "epi.py", "correspondences.py", "orientation.py", "sortgrid.py", "segmentation.py", "image_processing.py", "track.py", "tracking_frame_buf.py", "trafo.py", "parameters.py"],
  [("module-level defaults and tables", "calibration.py"), ("py_correspondences / match_pairs buffers", "correspondences.py"), ("full_calibration / orient work arrays", "orientation.py"), ("init_mmlut", "multimed.py"), ("TrackingRun / FrameBuf", "tracking_run.py")],
  [("scene", "three scenes of cameras, optics, targets, images and settings", "calibration.py")], ["results of every call", "the scene after every history"])

P("C37", "Results are the same wherever, in whatever order and whenever it is done",
  "Turning the whole experiment about the depth axis (cameras, glass, particles or calibration points; quarter turns with the velocity limits turned along where tracking is concerned), shifting it in space together with the glass and the observed volume, listing targets or particles in another order, "
  "or starting at another frame number changes nothing but exactly that: the same particles are grouped, lie at the same places of the scene, get the same links and additions, crowded scenes included, and the calibrated cameras see and stand alike. So does naming the cameras in another order, for positions, links and groups of scenes in which no foreign image lies near an epipolar line.",
  ["configurations", "histories"],
  "crowded scenes of 3-6 particles with all velocities of an alphabet, gaps, all choices from a lattice of places, each processed as it stands and moved; all quarter turns, shifts, camera orders, frame numbers of an alphabet",
  "Tests run one experiment in one place and have no expected result for crowded scenes.",
  ["track.py", "correspondences.py", "orientation.py", "epi.py", "multimed.py", "imgcoord.py", "ray_tracing.py", "tracking_frame_buf.py"],
  [("trackcorr_c_loop / trackback_c / candsearch_in_pix / searchquader", "track.py"), ("py_correspondences", "correspondences.py"), ("full_calibration / point_positions", "orientation.py"), ("epi_mm", "epi.py"), ("multimed_nlay / trans_cam_point", "multimed.py")],
  [("scene", "cameras, glass, particles and their targets", "calibration.py")], ["groups, positions, link files and calibrated cameras"])

P("C38", "A calibration from images of a known body measures that body",
  "From images of a body of known marks, its block file, four marks pointed at by hand and a rough first guess, each camera of any rig (air, behind level or tilted glass, turned, distorted) gets a calibration: recognition finds the marks, the rough orientation and the sorting attach every mark in the image to its number and no other, "
  "the adjustment uses exactly those and leaves residuals of the image noise, and the cameras read back from the files written see points where the true ones do and measure the marks where they are.",
  ["inputs", "configurations"],
  "six rigs, 2-4 cameras, four choices of hand-picked marks, five first guesses, three selections of free parameters and five sets of hidden marks, from rendered images to measured marks",
  "Tests calibrate one camera from stored detections and check that errors got smaller.",
  ["orientation.py", "sortgrid.py", "segmentation.py", "calibration.py", "imgcoord.py", "multimed.py", "trafo.py"],
  [("external_calibration / raw_orient / match_detection_to_ref / full_calibration / orient / read_man_ori_fix", "orientation.py"), ("sortgrid", "sortgrid.py"), ("target_recognition", "segmentation.py"), ("Calibration.write / from_file", "calibration.py")],
  [("calibration files", "pose, interior, glass and distortion of each camera on disk", "calibration.py:Calibration.write")], ["matches, residuals, calibration files, measured marks"])

P("C39", "Tracking decides by the stated criterion, step by step",
  "In every scene, crowded or incomplete, forward tracking links each particle to the cheapest of its candidates: those seen around the predicted place within the velocity limits (by several cameras, else the nearest of the first camera that shows one), continued over two frames (or towards a leftover image point, or, lacking both, over one) "
  "within the velocity, acceleration and angle limits, at the cost (mean path over the diagonal of the limits + acceleration and turn over their limits) divided by the cameras seeing them; of two claims to one particle the cheaper wins and the other stays open. With addition on, leftover image points of two or more cameras at the predicted place inside the volume, ahead of a candidate or instead of candidates that fail, become particles owning these points. "
  "The way back links open beginnings by the same criterion, and joins them to a track's open end only if that stays smooth.",
  ["histories", "configurations"],
  "three crossing particles with all velocities of an alphabet under 24 settings of limits; all pairs of gaps with and without addition; partly hidden particles; crowds, particles entering and leaving the images, refraction; each step of the model replayed by the tracker on disk",
  "Tests count links of two stored sequences; which of several candidates is chosen in ambiguous places has no expected value there.",
  ["track.py", "tracking_run.py", "tracking_frame_buf.py"],
  [("trackcorr_c_loop / trackback_c / sorted_candidates_in_volume / assess_new_position / add_particle / angle_acc / predict / searchquader", "track.py"), ("Pathinfo.register_link_candidate / FrameBuf", "tracking_frame_buf.py"), ("TrackingRun", "tracking_run.py")],
  [("frame buffer", "particles, links, targets and owners of four frames", "tracking_frame_buf.py:FrameBuf"), ("link files", "links and added particles on disk", "tracking_frame_buf.py:Frame.write")],
  ["link, position and target files", "reported totals"])
