#!/usr/bin/python3
"""The source of properties.jsonl: run it to regenerate that file"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe,
                               hook_needed=None)))

prop("C01", "Projection implements the documented lens model equations",
 "For every supported lens model (pinhole, stereographic, lonlat, latlon, OpenCV 4/5/8/12, CAHVOR, CAHVORE, splined stereographic) and every valid intrinsics vector, mrcal.project(), the project_pinhole/stereographic/lonlat/latlon() functions and the C function mrcal_project() return for every 3D point, including points behind the camera where the model defines them, the pixel that the documented equations of that model give. The result does not depend on the length of the (nonzero) observation vector except for CAHVORE's noncentral behaviour, and is the same whether points are passed one at a time or as a batch of any size.",
 ["inputs", "configurations"], "all lens models x all intrinsics in the usable range x all points in the model's domain x all batch sizes and shapes",
 "test-projections.py compares a handful of stored points per model against stored numbers; it cannot reach all parameter values, knot cells of a splined model, spline orders, near-axis points or batch sizes.",
 ["mrcal.c", "opencv.c", "cahvore.cc", "mrcal/projections.py", "mrcal-genpywrap.py"],
 [("per-model projection", "mrcal.c:_project_point, project_opencv/…"), ("batched entry points", "mrcal.c:mrcal_project, _mrcal_project_internal*"), ("B-spline surface", "mrcal.c:sample_bspline_surface_*"), ("CAHVORE solve", "cahvore.cc")],
 ["mrcal.project", "mrcal.project_*", "mrcal_project()"])

prop("C02", "Unprojection is the inverse of projection",
 "For every supported lens model and valid intrinsics, unproject() of a pixel inside the model's valid domain gives a vector that project() maps back to that pixel (to numerical precision), and unproject() of a projected point gives a vector parallel to that point on the same side; with normalize=True the vector has length 1. The same holds for the pinhole/stereographic/lonlat/latlon function pairs, with and without get_gradients and for any broadcasting shape, and a pixel that cannot be unprojected is reported as nan and never as a wrong finite vector.",
 ["inputs", "configurations"], "all lens models x intrinsics x pixels/points in the domain",
 "The unit tests round-trip a few fixed points for fixed intrinsics; the inverse is computed by a numerical solve seeded by a simple model, whose failures depend on where in parameter/pixel space one looks.",
 ["mrcal.c", "mrcal/projections.py", "mrcal-genpywrap.py"],
 [("numerical inverse", "mrcal.c:_mrcal_unproject_internal"), ("closed form inverses", "mrcal.c:mrcal_unproject_pinhole, _stereographic, _lonlat, _latlon"), ("python gradient path", "mrcal/projections.py:unproject")],
 ["mrcal.unproject", "mrcal.unproject_*"])

prop("C03", "Projection gradients are the derivatives of the projection",
 "With get_gradients=True, project(), unproject() and the simple pinhole/stereographic/lonlat/latlon (un)project functions return the same value as without gradients, and each returned gradient (with respect to the point or pixel, and to every intrinsics parameter) equals the true derivative of that function, for every lens model and every input at which it is differentiable. The same is true of the C function mrcal_project() for any number of points per call and any choice of which gradients are requested.",
 ["inputs", "configurations"], "all lens models x intrinsics x points x requested outputs",
 "Tests difference a few fixed points; sparse gradients of splined models depend on the knot cell, and per-call bookkeeping depends on the number of points and on which outputs are asked for.",
 ["mrcal.c", "opencv.c", "cahvore.cc", "mrcal/projections.py"],
 [("analytic gradients", "mrcal.c:_project_point, opencv.c, cahvore.cc"), ("chain rule in python", "mrcal/projections.py:unproject")],
 ["mrcal.project", "mrcal.unproject", "mrcal_project()"])

prop("C04", "Lens model names, configurations and metadata are consistent",
 "A lens model name parses iff it names a supported model with exactly its required configuration values; the C functions name->model and model->name are inverses of each other, and malformed or incomplete names are rejected (never accepted with made-up configuration). lensmodel_num_params(), lensmodel_metadata_and_config() and knots_for_splined_models() agree with the configuration in the name: the parameter count is the one project() accepts, and the knots are the Nx x Ny evenly spaced grid that covers the requested horizontal field of view.",
 ["inputs", "configurations"], "all strings, and all configurations of every model",
 "The string tests list ~20 names; the space of configurations and of malformed names is unbounded.",
 ["mrcal.c", "mrcal-pywrap.c", "mrcal.h"],
 [("parsing", "mrcal.c:mrcal_lensmodel_from_name"), ("printing", "mrcal.c:mrcal_lensmodel_name"), ("knots", "mrcal.c:mrcal_knots_for_splined_models")],
 ["mrcal.lensmodel_num_params", "mrcal.lensmodel_metadata_and_config", "mrcal.knots_for_splined_models"])

prop("C05", "Pose transformation functions form a consistent group of rigid motions",
 "For all rotations and translations (including zero, tiny, near-180-degree and beyond-180-degree Rodrigues vectors), all representations (R, r, Rt, rt, quaternion) describe the same motion: conversions between them are mutually inverse, compose_*() with any number of arguments equals applying the transforms in sequence, invert_*() gives the inverse, and inverted/inverted0/inverted1 flags equal explicit inversion. Every produced R is a proper rotation, rotate_point_*/transform_point_*() agree with the matrix definition, and the results are numerically accurate everywhere.",
 ["inputs"], "all rotations/translations, all flags and arities",
 "test-poseutils checks a fixed list of poses; accuracy near the special points (0, pi, composition that wraps) is a statement about a continuum.",
 ["poseutils.c", "poseutils-uses-autodiff.cc", "mrcal/poseutils.py", "poseutils-genpywrap.py", "mrcal/_poseutils_scipy.py"],
 [("rotation conversions", "poseutils.c:mrcal_R_from_r_full, poseutils-uses-autodiff.cc:mrcal_r_from_R_full"), ("composition", "poseutils-uses-autodiff.cc:mrcal_compose_r_full, poseutils.c:mrcal_compose_Rt_full")],
 ["mrcal.compose_*", "mrcal.invert_*", "mrcal.*_from_*", "mrcal.transform_point_*"])

prop("C06", "Pose transformation gradients are true derivatives",
 "Every gradient returned by the pose functions (rotate_point_*, transform_point_*, compose_r, compose_rt, invert_rt, r_from_R, R_from_r, rt_from_Rt, Rt_from_rt, with any inverted flags, and the compose_*_tiny*_gradient* functions) equals the derivative of the corresponding value with respect to the corresponding input, for all poses including small rotations; and asking for gradients does not change the returned value.",
 ["inputs"], "all poses and points, all functions with gradients, all flags",
 "Tests difference a few poses; branch points at small angle and wrapped composition are isolated regions of a continuum.",
 ["poseutils.c", "poseutils-uses-autodiff.cc", "mrcal/poseutils.py", "_autodiff.hh"],
 [("autodiff", "_autodiff.hh, poseutils-uses-autodiff.cc"), ("hand-written gradients", "poseutils.c")],
 ["mrcal.*(get_gradients=True)"])

prop("C07", "Results do not depend on memory layout, broadcasting or output location",
 "For every vectorised function (pose functions, project/unproject, triangulation, apply_homography, ...), passing inputs as non-contiguous/strided/transposed/read-only views, with broadcast leading dimensions, or asking for the result in a given out= array (contiguous or strided), gives element by element the same values as separate calls on contiguous inputs. The inputs are left unmodified, and the pose functions documented to work in place give the same result when the output overlaps the input exactly.",
 ["inputs", "configurations"], "all functions x strides/broadcast shapes/out layouts",
 "Tests use a few layouts per function; the strided paths and contiguous fast paths are separate code and the combinations of layouts multiply.",
 ["_strides.h", "poseutils.c", "poseutils-genpywrap.py", "mrcal-genpywrap.py", "triangulation-genpywrap.py"],
 [("strided accessors", "_strides.h"), ("contiguity validation", "*-genpywrap.py:Ccode_validate"), ("in-place logic", "poseutils.c")],
 ["mrcal.*"])

prop("C08", "Procrustes alignment finds the optimal proper rigid transform",
 "align_procrustes_points_Rt01() and align_procrustes_vectors_R01() return the proper rotation (det=+1, also for noisy, planar or mirrored data) and translation that minimise the squared error documented for them (of the residuals scaled by the given weights): exact data is recovered exactly, no other proper rigid transform has a smaller error, and degenerate input is reported by returning all zeros. R_aligned_to_vector(v) returns a proper rotation that maps v to the z axis.",
 ["inputs"], "all point sets/weights/rotations",
 "Optimality is a statement over all competing transforms and data sets; tests verify a handful of data sets.",
 ["poseutils.c", "mrcal/utils.py", "poseutils-genpywrap.py"],
 [("SVD solve", "poseutils.c:_align_procrustes_*"), ("python wrapper", "mrcal/utils.py")],
 ["mrcal.align_procrustes_points_Rt01", "mrcal.align_procrustes_vectors_R01", "mrcal.R_aligned_to_vector"])

prop("C09", "The optimization state vector layout is consistent everywhere",
 "For every problem (any counts of cameras, frames, points, fixed points, lens model and do_optimize_* flags) the state_index_*()/num_states_*() functions describe disjoint contiguous blocks that tile the state vector exactly, in order, with None/absent blocks exactly where nothing is optimized. optimizer_callback()'s b and J, pack_state()/unpack_state() (exact mutual inverses, scaling each element by a positive constant) and ingest_packed_state() all use this same layout: perturbing the variables named by an index changes exactly these elements, and ingesting a packed state and asking for the state again reproduces it.",
 ["configurations", "inputs"], "all problem configurations x all state vectors",
 "The layout code branches on many flags; tests fix a few configurations.",
 ["mrcal.c", "mrcal-pywrap.c", "mrcal/utils.py"],
 [("layout", "mrcal.c:mrcal_state_index_*, mrcal_num_states_*"), ("packing", "mrcal.c:pack_solver_state, unpack_solver_state"), ("python ingest", "mrcal/utils.py:ingest_packed_state")],
 ["mrcal.state_index_*", "mrcal.num_states*", "mrcal.pack_state", "mrcal.unpack_state", "mrcal.ingest_packed_state"])

prop("C10", "The optimizer's cost terms are the documented reprojection errors",
 "For every problem, the measurement vector from optimizer_callback() is laid out as measurement_index_*()/num_measurements*() say, and each element has the documented value: weight*(projection - observation) for every board corner (with board shape, spacing, warp, frame pose and camera pose applied) and point, the triangulation error for pairs of triangulated-point observations, and the regularization terms. Observations with a negative weight are outliers and contribute exactly 0; reordering cameras or frames consistently, or moving all the geometry rigidly together where the reference is free, only permutes or leaves the residuals.",
 ["configurations", "inputs"], "all problem configurations x poses x observations x weights",
 "test-optimizer-callback.py compares against stored arrays for 6 configurations; the mapping from observations to residuals has many index paths.",
 ["mrcal.c", "mrcal-pywrap.c", "mrcal/utils.py"],
 [("residuals", "mrcal.c:optimizer_callback"), ("board projection", "mrcal.c:project"), ("layout", "mrcal.c:mrcal_measurement_index_*")],
 ["mrcal.optimizer_callback", "mrcal.measurements_board", "mrcal.measurements_point", "mrcal.measurement_index_*"])

prop("C11", "The optimizer Jacobian is the derivative of its cost vector",
 "For every problem configuration and state, the sparse J from optimizer_callback() is the derivative of the measurement vector x with respect to the packed state vector, with all structural zeros being true zeros and every row of an outlier measurement being 0; and x and b are the same whether or not the Jacobian and factorization are requested.",
 ["configurations", "inputs"], "all problem configurations x states",
 "test-gradients/test-optimizer-callback run a fixed list of configurations; each combination of flags, lens models and camera-at-reference cases has its own index arithmetic.",
 ["mrcal.c", "triangulation.cc", "mrcal-pywrap.c"],
 [("J assembly", "mrcal.c:optimizer_callback (STORE_JACOBIAN)"), ("chain rule", "mrcal.c:propagate_extrinsics…")],
 ["mrcal.optimizer_callback"])

prop("C12", "optimize() returns a consistent, no-worse, converged solution",
 "For every well-posed problem, optimize() updates the given arrays in place such that the state it returns in b_packed, the residuals in x and the reported rms are exactly those of the updated arrays evaluated by optimizer_callback(); the cost is never greater than at the starting point, quantities not selected for optimization are bit-for-bit unchanged, and optimizing again from the result does not move it. Starting near the truth with noise-free observations it recovers a solution with zero residual, up to the unobservable coordinate freedom.",
 ["configurations", "histories", "inputs"], "all well-posed problems, flags, starting points; repeated calls",
 "Each test solves one scene; which arrays are written back under which flags is a product of configurations.",
 ["mrcal.c", "mrcal-pywrap.c"],
 [("solve loop", "mrcal.c:mrcal_optimize"), ("write-back", "mrcal.c:unpack_solver_state, mrcal-pywrap.c:_optimize")],
 ["mrcal.optimize", "mrcal.optimizer_callback"])

prop("C13", "Outlier rejection only ever removes bad observations",
 "optimize(do_apply_outlier_rejection=True) marks outliers only by flipping positive weights negative: already-marked outliers stay marked, weights of inliers are unchanged, magnitudes are never changed, and without the flag no weight is modified. The reported count equals the number of negative-weight board corners, at the end no inlier is beyond the 5-sigma threshold, gross errors in otherwise good data are all marked, good data with bounded noise is never marked, and the pixel values of a marked board or point observation have no influence at all on the solution.",
 ["inputs", "histories", "fault_sequences"], "all placements and sizes of injected gross errors, repeated solves",
 "Tests inject one fixed pattern of outliers.",
 ["mrcal.c", "mrcal-pywrap.c"],
 [("marking", "mrcal.c:markOutliers"), ("outer loop", "mrcal.c:mrcal_optimize")],
 ["mrcal.optimize"])

prop("C14", "The sparse factorization solves the normal equations",
 "CHOLMOD_factorization(J) (and the factorization returned by optimizer_callback()) represents JtJ for every full-column-rank sparse J: solve_xt_JtJ_bt(b) satisfies x JtJ = b for any number and memory layout of right-hand sides, each sys= variant applies the documented partial operation such that chaining them equals the complete solve, and rcond() is a finite value in (0,1] that does not change with repeated use. Malformed input and structurally singular J (an empty column) raise an exception, and an accepted J that is singular to roundoff is revealed by an rcond() near 0.",
 ["inputs", "configurations"], "all sparse full-rank matrices and right-hand sides",
 "test-CHOLMOD-factorization.py uses one 6x6 matrix.",
 ["mrcal-pywrap.c"],
 [("wrapper", "mrcal-pywrap.c:CHOLMOD_factorization_*")],
 ["mrcal.CHOLMOD_factorization"])

prop("C15", "Projection uncertainty is the linear propagation of observation noise",
 "projection_uncertainty() for a calibrated model (every method, at finite range and at infinity, for every what=) equals the documented dense-matrix propagation Var = sigma^2 * dq/db (JtJ)^-1 J_obs^t J_obs (JtJ)^-1 dq/db^t, is a symmetric positive semi-definite matrix, scales with the square of observed_pixel_uncertainty, and what='worstdirection-stdev'/'rms-stdev' are the documented functions of the covariance. drt_cross_reprojection__dbpacked() equals its documented dense formula, and worst_direction_stdev()/sorted_eig() equal the exact eigen-decomposition for all symmetric matrices.",
 ["inputs", "configurations"], "all calibrated problems x query points x methods",
 "Tests check sampled statistics for a few scenes, with tolerances of several percent.",
 ["mrcal/model_analysis.py", "uncertainty.c", "mrcal-genpywrap.py", "mrcal/utils.py"],
 [("propagation", "mrcal/model_analysis.py:_propagate_calibration_uncertainty"), ("cross reprojection", "uncertainty.c"), ("A Jt J At", "mrcal-genpywrap.py:_A_Jt_J_At")],
 ["mrcal.projection_uncertainty", "mrcal.worst_direction_stdev", "mrcal.sorted_eig", "mrcal.drt_cross_reprojection__dbpacked"])

prop("C16", "Triangulation recovers the point and reports divergence",
 "Every triangulate_*() method returns, for two rays that intersect in front of both cameras, exactly that intersection point, independently of the length of the observation vectors and of v_are_local; with noise each method returns the point its documented criterion defines (shortest segment midpoint, minimal L1/Linf/reprojection angle, the weighted/unweighted midpoints), and rays that are parallel or diverge yield the documented (0,0,0). The reported gradients are the true derivatives of the result.",
 ["inputs"], "all ray pairs and camera placements",
 "test-triangulation.py evaluates a handful of fixed points with a few noise values.",
 ["triangulation.cc", "mrcal/triangulation.py", "triangulation-genpywrap.py"],
 [("methods", "triangulation.cc:mrcal_triangulate_*"), ("gradients", "_autodiff.hh")],
 ["mrcal.triangulate_*"])

prop("C17", "Camera models survive being written and read",
 "Writing any cameramodel to a file, file object or string and reading it back gives the same lens model, intrinsics (to the written precision), extrinsics, imager size, valid-intrinsics region and optimization_inputs, and writing again is stable; the pose accessors rt_cam_ref/rt_ref_cam/Rt_cam_ref/Rt_ref_cam are mutually inverse views of one pose after any sequence of settings, and a copy is independent of its original. The C API reader mrcal_read_cameramodel_*() accepts what the Python code writes and produces the same model, mrcal_write_cameramodel_file() output is read back as the same model, and malformed files are rejected with an error (never a crash or a wrong model).",
 ["inputs", "histories", "fault_sequences"], "all models; all sequences of accessor calls; all byte strings offered to the parsers",
 "Tests have ~30 hand-written files and models.",
 ["mrcal/cameramodel.py", "cameramodel-parser.re", "mrcal.c", "python-cameramodel-converter.c"],
 [("python reader/writer", "mrcal/cameramodel.py"), ("C parser", "cameramodel-parser.re"), ("C writer", "mrcal.c:mrcal_write_cameramodel_file")],
 ["mrcal.cameramodel", "mrcal_read_cameramodel_string()", "mrcal_write_cameramodel_file()"])

prop("C18", "Stereo rectification makes rows epipolar and maps geometrically exact",
 "For every pair of cameras with a nonzero baseline, rectified_system() returns two models with the requested rectification model, identical intrinsics apart from what the model allows, the same orientation, and with the baseline along the rectified x axis at the original camera centres, such that every 3D point in view projects to the same row of both, with nonnegative disparity for points in front; the requested field of view, pixels-per-degree and az/el centre are respected. rectification_maps() gives at each rectified pixel the pixel of the original camera seen along the same direction.",
 ["inputs", "configurations"], "all camera pairs, lens models, fields of view, resolutions, rectification models",
 "test-rectification-maps.py / test-stereo.py check a few fixed pairs.",
 ["stereo.c", "mrcal/stereo.py"],
 [("geometry", "stereo.c:mrcal_rectified_system"), ("maps", "stereo.c:mrcal_rectification_maps"), ("wrapper", "mrcal/stereo.py")],
 ["mrcal.rectified_system", "mrcal.rectification_maps", "mrcal.rectified_resolution"])

prop("C19", "Stereo ranging inverts disparity exactly",
 "For every rectified system and every point visible in both cameras, stereo_range() of the point's disparity returns its distance from the first camera and stereo_unproject() returns the point itself, for scalar/sparse/dense input, any disparity scale and integer or floating type. Invalid disparities (nonpositive, or outside disparity_min/max as documented) produce range 0, and the dense and sparse paths agree.",
 ["inputs", "configurations"], "all rectified systems, points, disparity encodings",
 "Tests cover a few points with one system per model.",
 ["stereo.c", "mrcal/stereo.py", "mrcal-genpywrap.py"],
 [("range", "stereo.c:mrcal_stereo_range_sparse, mrcal_stereo_range_dense"), ("wrapper", "mrcal/stereo.py:stereo_range, stereo_unproject")],
 ["mrcal.stereo_range", "mrcal.stereo_unproject"])

prop("C20", "Images and color maps are saved, loaded and encoded faithfully",
 "save_image() followed by load_image() in a lossless format (png, pgm, ppm as applicable) returns the same pixels for every size, memory layout and supported type (8-bit gray, 16-bit gray, 8-bit BGR); loading with a requested bits_per_pixel/channels converts as documented. apply_color_map() maps every element type through the documented colour functions with a_min/a_max clipping and defaults taken from the data; unsupported combinations raise an error.",
 ["inputs", "configurations"], "all images x formats x load conversions; all arrays and ranges for apply_color_map",
 "test-save-load-image.py uses one small fixed image per type.",
 ["image.c", "stereo.c", "mrcal-pywrap.c", "mrcal-genpywrap.py"],
 [("image i/o", "image.c"), ("color map", "stereo.c:mrcal_apply_color_map_*")],
 ["mrcal.save_image", "mrcal.load_image", "mrcal.apply_color_map"])

prop("C21", "Image reprojection maps follow the camera geometry",
 "image_transformation_map() gives, at each pixel of the 'to' image, the pixel of the 'from' image that sees the same direction (intrinsics only, using or ignoring extrinsics, or via a given plane, as requested by its arguments), for all lens models; transform_image() samples the input image accordingly with the requested border handling. pinhole_model_for_reprojection() and scale_focal__best_pinhole_fit() return a pinhole model at the same pose with the requested fit/scale satisfied.",
 ["inputs", "configurations"], "all model pairs, planes, masks, fit requests",
 "Tests use one or two models.",
 ["mrcal/image_transforms.py"],
 [("map", "mrcal/image_transforms.py:image_transformation_map"), ("fit", "mrcal/image_transforms.py:scale_focal__best_pinhole_fit")],
 ["mrcal.image_transformation_map", "mrcal.transform_image", "mrcal.pinhole_model_for_reprojection"])

prop("C22", "Projection differencing cancels geometry and reports real differences",
 "projection_diff() of a model against itself, or against a copy whose pose differs only, is zero everywhere in view; implied_Rt10__from_unprojections() recovers a known relative rotation (at infinity) or full transform (finite distance) from exact data, and the reported difference for each sampled pixel equals projecting, with the reported implied_Rt10, that pixel's unprojection into the other model. For more than two models the reported difference is the RMS over the pairs with model 0; stereo_pair_diff is zero for the same pair in a rigidly moved reference frame.",
 ["inputs", "configurations"], "all models, relative poses, sampling grids, focus regions, distances",
 "test-projection-diff.py uses one set of models.",
 ["mrcal/model_analysis.py", "mrcal/utils.py"],
 [("diff", "mrcal/model_analysis.py:projection_diff"), ("fit", "mrcal/model_analysis.py:implied_Rt10__from_unprojections"), ("sampling", "mrcal/utils.py:sample_imager_unproject")],
 ["mrcal.projection_diff", "mrcal.implied_Rt10__from_unprojections", "mrcal.stereo_pair_diff"])

prop("C23", "Sensor link traversal visits sensors by best-connected paths",
 "traverse_sensor_links() calls the callback exactly once for every sensor connected to sensor 0 and never for unconnected ones, each with a link from an already-reached sensor, such that the chosen chain of links from sensor 0 is a minimum-cost path (fewest links first, then most shared observations); the underlying priority queue always pops in order. corresponding_icam_extrinsics() returns, for every index table of a stationary or moving setup, exactly the camera the table pairs, and reports an error where the answer is not unique.",
 ["inputs", "histories"], "all connectivity matrices (graphs), all index tables",
 "test-traverse-sensor-links.py uses one 5-node graph.",
 ["traverse-sensor-links.c", "heap.cc", "mrcal/calibration.py", "mrcal.c"],
 [("Dijkstra", "traverse-sensor-links.c"), ("heap", "heap.cc"), ("camera lookup", "mrcal.c:mrcal_corresponding_icam_extrinsics")],
 ["mrcal.traverse_sensor_links", "mrcal.corresponding_icam_extrinsics"])

prop("C24", "Synthetic data and board geometry agree with the solver's model",
 "ref_calibration_object() returns the regular W x H grid with the given spacing (scalar or per-axis) deformed only by the documented quadratic warp; synthesize_board_observations() returns observations equal to projecting that board at the returned poses, with all returned boards satisfying the requested visibility; make_perfect_observations() makes every optimizer residual zero (or exactly the requested noise), and hypothesis_board_corner_positions() gives the corner positions whose projections equal the observation plus the residual reported by the optimizer.",
 ["inputs", "configurations"], "all board shapes, spacings, warps, camera rigs, seeds, optimization problems",
 "Used as a tool by other tests with a few fixed settings; its own invariants are unverified.",
 ["mrcal/synthetic_data.py", "mrcal/utils.py"],
 [("board", "mrcal/synthetic_data.py:ref_calibration_object"), ("synthesis", "mrcal/synthetic_data.py:synthesize_board_observations, make_perfect_observations"), ("corners", "mrcal/utils.py:hypothesis_board_corner_positions")],
 ["mrcal.ref_calibration_object", "mrcal.synthesize_board_observations", "mrcal.make_perfect_observations", "mrcal.hypothesis_board_corner_positions"])

prop("C25", "Calibration seeding recovers noise-free geometry",
 "From noise-free board observations of any connected camera rig, seed_stereographic(), estimate_monocular_calobject_poses_Rt_tocam() and estimate_joint_frame_poses() return camera and frame poses consistent with the true geometry (exactly, when the cameras really are of the assumed lens model) in the coordinate system of camera 0, ignoring observations marked invalid; disconnected rigs are reported as an error.",
 ["inputs", "configurations"], "all rigs, boards and observation subsets",
 "One test uses one rig.",
 ["mrcal/calibration.py", "traverse-sensor-links.c"],
 [("pnp", "mrcal/calibration.py:_estimate_camera_pose_from_fixed_point_observations"), ("chaining", "mrcal/calibration.py:_estimate_camera_poses")],
 ["mrcal.seed_stereographic", "mrcal.estimate_monocular_calobject_poses_Rt_tocam", "mrcal.estimate_joint_frame_poses"])

prop("C26", "Valid-region and polygon utilities answer membership correctly",
 "is_within_valid_intrinsics_region() reports for every pixel exactly whether it lies inside the model's valid-intrinsics polygon (all pixels if none is defined is reported as None); close_contour() closes a contour without changing its shape; polygon_difference(A,B) returns simple polygons whose union covers exactly the points that are in A and not in B, for any simple polygons including B strictly inside A.",
 ["inputs"], "all simple polygons and query points",
 "Tests use a few rectangles.",
 ["mrcal/model_analysis.py", "mrcal/utils.py"],
 [("membership", "mrcal/model_analysis.py:is_within_valid_intrinsics_region"), ("difference", "mrcal/utils.py:polygon_difference")],
 ["mrcal.is_within_valid_intrinsics_region", "mrcal.close_contour", "mrcal.polygon_difference"])

prop("C27", "Chessboard corner tables are ingested without mix-ups",
 "compute_chessboard_corners() with a corners cache, and mapping_file_framenocameraindex(), assign every corner row to the right image, frame and camera for any valid table: observations come back in the documented order with the pixel values and weights (levels mapped as documented, missing or rejected corners marked with weight<0) of exactly that image, files and frames are grouped by the unique frame number, and incomplete or inconsistent tables raise an error.",
 ["inputs", "fault_sequences"], "all corner tables, file-name patterns and glob assignments; truncated tables",
 "Tests use three tiny tables.",
 ["mrcal/calibration.py", "mrcal/utils.py"],
 [("table reader", "mrcal/calibration.py:compute_chessboard_corners"), ("frame numbers", "mrcal/utils.py:mapping_file_framenocameraindex")],
 ["mrcal.compute_chessboard_corners", "mrcal.mapping_file_framenocameraindex"])

prop("C28", "Model file converters preserve the camera",
 "Converting a model to another file format and back (.cameramodel <-> .cahvor with pinhole/CAHVOR/CAHVORE/OpenCV, and .cameramodel <-> kalibr yaml) preserves intrinsics, pose, and projections; mrcal-convert-lensmodel's result projects like the original to within the fit error it reports and exactly when the target model contains the source, and mrcal-graft-models takes intrinsics from one model and extrinsics from the other (with the requested relative transform) and nothing else.",
 ["inputs", "configurations"], "all models representable in both formats",
 "Tests convert one or two fixed models.",
 ["mrcal/cahvor.py", "mrcal-to-cahvor", "mrcal-from-cahvor", "mrcal-to-kalibr", "mrcal-from-kalibr", "mrcal-convert-lensmodel", "mrcal-graft-models"],
 [("cahvor", "mrcal/cahvor.py"), ("tools", "mrcal-*")],
 ["mrcal.cahvor.read", "mrcal.cahvor.write", "command-line tools"])

prop("C29", "Command-line point and corner tools transform exactly the data asked for",
 "mrcal-reproject-points writes for every input point the pixel the 'to' model sees for it, mrcal-is-within-valid-intrinsics-region passes or labels exactly the points inside, mrcal-cull-corners removes exactly the corners its arguments describe, mrcal-rotate-corners permutes corners as the board rotation requires (so the same physical corner keeps its pixel), and mrcal-triangulate/mrcal-report-fov print the quantities the Python API computes. All other fields and rows of the input are passed through unchanged.",
 ["inputs", "configurations"], "all input tables and arguments",
 "Tests run each tool on one or two small inputs, some tools on none.",
 ["mrcal-reproject-points", "mrcal-is-within-valid-intrinsics-region", "mrcal-cull-corners", "mrcal-rotate-corners", "mrcal-triangulate"],
 [("tools", "mrcal-*")],
 ["stdout of the tools"])

prop("C30", "Feature matching finds the true subpixel correspondence",
 "match_feature() applied to an image and a known homographic warp of it returns the warped location of the query point to subpixel accuracy whenever the true location lies within the search radius of the initial estimate, raises or reports None when the template or search window does not fit in the images, and its diagnostics describe the returned match; it does not modify its inputs.",
 ["inputs"], "all (textured) images, homographies, query points, search settings",
 "One test with one synthetic image.",
 ["mrcal/stereo.py", "mrcal-genpywrap.py"],
 [("matching", "mrcal/stereo.py:match_feature"), ("homography", "mrcal-genpywrap.py:apply_homography")],
 ["mrcal.match_feature", "mrcal.apply_homography"])

prop("C31", "mrcal-calibrate-cameras finds a calibration that explains the observations",
 "Given good chessboard observations from a rig, the tool writes one model per camera, whose stored optimization_inputs hold exactly the observations, weights, image paths and solver options it was given, and whose solution explains these at least as well as the true rig does (gross errors being rejected unless that was disabled). With --seed, whatever was asked to be kept (extrinsics, intrinsics) is kept; the reported statistics are those of the solution. Inconsistent arguments are refused without writing anything.",
 ["inputs", "configurations"], "all rigs, lens models, observation tables and arguments",
 "Tests run the tool once on one dataset.",
 ["mrcal-calibrate-cameras", "mrcal/calibration.py", "mrcal.c", "mrcal/cameramodel.py"],
 [("tool", "mrcal-calibrate-cameras"), ("seed", "mrcal/calibration.py:seed_stereographic"), ("solver", "mrcal.c:mrcal_optimize")],
 ["mrcal-calibrate-cameras", "the written models", "its report"])

prop("C32", "mrcal-stereo and mrcal-reproject-image write what the geometry implies",
 "mrcal-stereo writes the rectified models and images, the disparities of the matcher run with the given settings on these, their colored ranges, and a point cloud that has exactly the pixels with a valid range, each at the intersection of its two rays in reference coordinates with the color seen by camera 0; mrcal-reproject-image writes each image resampled through the requested transformation, and the pinhole model it used. Existing files are replaced only with --force, images that can't be processed are reported in the exit status, and write_point_cloud_as_ply() writes well-formed files with the given points and colors.",
 ["inputs", "configurations"], "all camera pairs, images, settings and point clouds",
 "Tests never run these tools, and don't read the point clouds.",
 ["mrcal-stereo", "mrcal-reproject-image", "mrcal/utils.py:write_point_cloud_as_ply"],
 [("tools", "mrcal-stereo"), ("tools", "mrcal-reproject-image"), ("ply", "mrcal/utils.py:write_point_cloud_as_ply")],
 ["files written by the tools", "exit status"])

prop("C33", "Malformed arguments are rejected and never crash or corrupt anything",
 "A problem given to the optimization functions (optimize, optimizer_callback, pack_state, unpack_state, num_*, state_index_*, measurement_index_*, corresponding_icam_extrinsics) that is malformed (an index out of range, out of order or with gaps; inconsistent lengths; a wrong shape, element type, byte order or memory layout; a missing, contradicting or unknown argument; an invalid lens model) raises an ordinary exception that says why, and leaves all its arguments unmodified. No argument of any type or shape given to any public function makes the process crash, makes the interpreter report an internal error, or changes what later valid calls return; None is the same as leaving an optional array out.",
 ["inputs", "configurations"], "all public functions x all problems x malformations of one or two of the arguments",
 "Tests pass well-formed arguments; each malformation has to meet each function and argument.",
 ["mrcal-pywrap.c", "python-wrapping-utilities.h", "mrcal.c", "*-genpywrap.py", "mrcal/*.py"],
 [("problem validation", "mrcal-pywrap.c:optimize_validate_args"), ("layout validation", "python-wrapping-utilities.h:_check_layout"), ("sizes", "mrcal-pywrap.c:state_index_generic"), ("state", "mrcal-pywrap.c:_pack_unpack_state")],
 ["exceptions", "exit of the process", "the arguments after the call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P))
