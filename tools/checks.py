NOTES = "Each check is ./check ID: it drives the real code of /repo (fresh numba cache), enumerates a bounded space completely, and writes evidence/ID.json. A violation leaves out/ID-n.json; ./check ID --replay FILE runs that case again."
ESS = "explicit-state enumeration of operation histories on the real code against a reference model"
BEE = "bounded-exhaustive enumeration of inputs, real code against a reference model"
SCN = "bounded-exhaustive enumeration of scenes/configurations through the real pipeline against an independent reference"
CHECKS = {
    "C01": (ESS, "model_checking", "All target lists, names, frame numbers and write histories of the stated alphabets; nothing outside them. Trusts the local file system."),
    "C02": (ESS, "model_checking", "All frames of 0..3 particles over the alphabets, 1..4 cameras, capacities, and all write/read/copy histories to the stated depth."),
    "C03": (BEE, "exploration", "Complete product of boundary values of all calibration parts through every writer and reader; comparison functions for every parameter."),
    "C04": (BEE, "exploration", "Every parameter class and form, every pair of fields over its alphabets, 1..4 cameras."),
    "C05": ("exhaustive enumeration of fault points (every byte limit, missing directory, truncation point) on the real code", "fault_enumeration", "Every byte offset for small files, block boundaries for large ones, each line/field truncation; disk-full is modelled by a file size limit."),
    "C06": (ESS, "model_checking", "Breadth-first over model states of the buffer; every operation in every reachable state up to the depth, replayed on fresh real buffers."),
    "C07": (SCN.replace("scenes/configurations", "tracking histories"), "model_checking", "All small histories of the stated lattices tracked from disk to disk; larger groups are thinned in quick. Candidate ratings are read from the run's own state."),
    "C08": (SCN.replace("scenes/configurations", "tracking histories"), "model_checking", "All listing orders, appearance intervals, directions and speeds of the alphabets against the known trajectories."),
    "C09": (SCN.replace("scenes/configurations", "tracking histories"), "model_checking", "All patterns of kept and missing links over 1-3 trajectories, crowded lattice arrangements; sequences of at least four frames."),
    "C10": (SCN.replace("scenes/configurations", "tracking histories"), "model_checking", "All patterns of listed, absent and left-over particles per frame and camera set, 1-2 particles, 2-4 cameras."),
    "C11": (BEE, "exploration", "All small target lists on a lattice with every ownership pattern, centre and window; every list size to 69 and sizes around powers of two."),
    "C12": (BEE, "exploration", "All well-formed candidate tables for 2-4 cameras over small particle sets, and all small 3D scenes through the real search."),
    "C13": (BEE, "exploration", "Complete lattices of points, motions, limits and boxes over several rigs, against definitions computed independently."),
    "C14": (BEE, "exploration", "All candidate graphs over 1-3 targets per camera with list orders, stale tails, used targets, exact thresholds and small result buffers."),
    "C15": (BEE, "exploration", "All ordered lists of up to three groups with qualities, ties and use marks; whole procedure on lattice scenes with ambiguities, each stage against the real candidate lists."),
    "C16": (SCN, "model_checking", "All assignments of seeing cameras to 1-3 particles for 2-4 cameras, target orders, four rigs; scenes where a foreign target lies near an epipolar segment are left out and counted."),
    "C17": (BEE, "exploration", "All small point sets x segments of every direction, all ratio limits, list lengths to 69 and around powers of two, capacity and sensor edges; points within 1e-8 mm of the band's edge are not judged."),
    "C18": (SCN, "exploration", "Lattice of points x camera pairs x depth limits x six rigs against independent reference optics; refraction is solved to a tolerance, so differences below 2e-4 mm on the sensor are not judged."),
    "C19": (BEE, "exploration", "Lattice of points x camera positions x glass tilts and thicknesses x indices x distortions x orientations of the whole scene; differences below 1e-4 mm on the sensor (solver tolerance) are not judged."),
    "C20": (BEE, "exploration", "Pixel lattices incl. corners for all sensor geometries; all combinations of distortion terms of a few percent. The default stopping rule of the iterative correction is granted 3e-4 mm."),
    "C21": (ESS, "exploration", "Points on, inside and around every edge of the tables of all rigs; all rebuild histories of the alphabet to the stated depth. The table's line next to the axis is a known finding."),
    "C22": (BEE, "exploration", "All rigs, camera subsets and orders, layer orders and given extents of the alphabets against corner rays traced independently."),
    "C23": (BEE, "exploration", "All camera subsets and orders of the rigs over a lattice of points, batches up to 3 points with every visibility pattern."),
    "C24": (BEE, "exploration", "All single and paired deviations with their selections of free parameters, over several rigs; all selections (thorough). Inner parameters are judged by reprojection, since the adjustment ties them to their start values."),
    "C25": (ESS, "model_checking", "All operation sequences of length 3 over two objects and 37 operations, model compared with the objects after each step; parameter classes likewise."),
    "C26": (BEE, "exploration", "All pairs and ordered triples of detection offsets around up to three grid points, image borders, full shuffled grids; detections within 1e-3 pixel of the window edge are not judged."),
    "C27": (BEE, "exploration", "All 3x3 patterns over four grey levels and all 4x4/2x6/2x5/1x8 patterns over two to four, with thresholds and discontinuities at the level differences; all limits alone and in pairs; a set of large shapes."),
    "C28": (BEE, "exploration", "Ten blobs at all positions of several image sizes, all search regions of five scenes, all blob pairs at all offsets, all sequences of four calls."),
    "C29": (BEE, "exploration", "Small images over grey alphabets through every step; locality by changing every pixel; all masks of nine pixels; all pairs of grey values subtracted. fast_box_blur_numba and peak_fit are unreachable from the library's steps and not covered."),
    "C30": (SCN.replace("scenes/configurations", "rendered image sequences"), "model_checking", "All particles, velocities, appearance intervals and rigs of the alphabets, followed from the images to the saved links; spots are separated, positions judged to 0.12 mm (0.7 pixel)."),
    "C31": (BEE, "exploration", "All ordered lists of up to three targets over six image places with four numberings and four cameras; all sort inputs of five keys and lengths to 129; all correspondence patterns of two particles; all subsets of six reference points."),
    "C32": (BEE, "exploration", "Nine places x six depth ranges x layers x poses x four rigs in single and joint batches; sloping depth limits judge only the line of sight and the range."),
    "C33": (BEE, "exploration", "All generated block files, all ordered choices of four points per camera in both layouts of the file, all windows to 129, a third (thorough: all) of the setting combinations of a tracking run."),
    "C34": (ESS, "model_checking", "All setter histories of length 3 (thorough 4 where the alphabet allows) over two objects of seven classes against a plain model; all single and paired field changes in every comparison function."),
    "C35": (BEE, "exploration", "All pairs of vectors with components from six values, tolerances at large magnitudes, matrices up to 3x3 over small alphabets, coordinate lists up to length 4."),
    "C36": (ESS, "model_checking", "All ordered pairs of forty operations on each of three scenes and all scene changes for each operation, inputs and earlier results compared after every history; thorough: pairs across scenes and all triples on one scene. Operations documented to fill what they are given get copies."),
    "C37": (SCN.replace("scenes/configurations", "scenes, each as it stands and moved"), "model_checking", "All velocities of three particles (a sixth of four; thorough all) with rotating moves, all pairs of gaps with additions, choices of 3-4 (thorough 6) of nine places; thorough: every move on every tenth tracking scene. Results are compared with each other, not with the truth (C16, C23, C30 do that)."),
    "C38": (SCN.replace("scenes/configurations", "calibration runs"), "model_checking", "A tenth (thorough: all) of the combinations of rig, cameras, hand-picked marks, first guess, selection and hidden marks; residuals judged to 0.15 pixel, marks to 0.15 mm, both ten times wider where distortion exists but is not selected."),
    "C39": ("explicit-state model of the tracker's decisions (model_track.py), every model step replayed on the real tracker from disk to disk", "model_checking", "All velocities of three particles (quick: a fifth of the settings for each, half of the pairs of gaps), all pairs of gaps, and so on as stated; scenes in which a decision hangs on less than 1e-6 (refraction: 0.002 px) are left out and counted. The frame that the library still holds beyond the end of the sequence must not matter: scenes where it would are left out and counted."),
}
NOT_APPLICABLE = {}
