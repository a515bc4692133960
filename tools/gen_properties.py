#!/usr/bin/env python3
"""Writes properties.jsonl. The source of truth for the property texts."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=hook
    P.append(dict(id=id,title=title,statement=statement,
                  quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('P01','Optimization state and measurement vectors are tiled exactly by their blocks',
  'For any calibration problem and any selection of what is optimized, the state blocks (intrinsics, extrinsics, frames, points, board warp) and the measurement blocks (boards, points, triangulated points, regularization) reported by the index and count queries are disjoint, in the documented order, and together cover exactly the reported total; that total is the length of what the cost function and solver actually return. A state index query for a block that is not being optimized or for an item that does not exist, and a measurement index query for a kind of measurement the problem does not have, report that there is no such index rather than a number. The mapping from a camera\'s intrinsics index to its extrinsics index and the decoding of triangulated-point measurements invert the layout.',
  ['configurations'],'all combinations of 7 optimization-selection flags x lens model x 0..3 cameras/frames/points/fixed points x board and point and triangulated observations present or absent',
  'Tests check a handful of fixed configurations; the layout arithmetic is a product of a dozen independent switches and mistakes show up only at particular combinations.',
  ['mrcal.c','mrcal-pywrap.c'],
  [('state index/count functions','mrcal.c: mrcal_state_index_*, mrcal_num_states_*'),('measurement index/count functions','mrcal.c: mrcal_measurement_index_*, mrcal_num_measurements_*'),('python wrappers','mrcal-pywrap.c: state_index_generic()'),('camera index mapping','mrcal.c: mrcal_corresponding_icam_extrinsics()')],
  ['mrcal.state_index_*()','mrcal.num_states*()','mrcal.measurement_index_*()','mrcal.optimizer_callback() output shapes'])
p('P02','Packing and unpacking a state vector are exact inverses, element by element',
  'Packing a full-unit state vector and unpacking it again returns the original vector, and each element is scaled by a fixed positive amount which depends only on what kind of variable it is (focal length, center pixel, distortion, camera or frame rotation/translation, point, warp). Broadcasting over leading dimensions gives the same values as one vector at a time, and an array that cannot be processed in place (wrong number type, memory layout or length) is refused and left unchanged. Ingesting a packed state into a set of optimization inputs writes each optimized variable, and nothing else, to the value the packed state holds.',
  ['configurations','inputs'],'all selection-flag combinations x problem sizes up to 2-3 of each item x contiguous / strided / broadcast state arrays',
  'Tests pack and unpack one problem with everything on.',
  ['mrcal.c','mrcal-pywrap.c','scales.h','mrcal/utils.py'],
  [('packing','mrcal.c: mrcal_pack_solver_state_vector(), mrcal_unpack_solver_state_vector()'),('wrapper','mrcal-pywrap.c: pack_unpack_state()'),('ingest','mrcal/utils.py: ingest_packed_state()')],
  ['mrcal.pack_state()','mrcal.unpack_state()','mrcal.ingest_packed_state()','b_packed of mrcal.optimizer_callback()'])
p('P03','Optimizer residuals equal the documented cost function',
  'For every combination of lens model, kinds of observation, optimization selection and observation weights, the residual vector is exactly what the documentation defines: weighted projected-minus-observed pixel error for each board corner and each discrete point, the documented board shape with its warp, the pairwise triangulation error for triangulated points, and the documented regularization terms. Observations marked as outliers contribute nothing, whichever of the flags are on. The same residuals are produced whether or not a jacobian is requested.',
  ['configurations','inputs'],'lens models x which of boards/points/triangulated points are present x selection flags x outlier/weight patterns x reference-camera or not',
  'Tests compare a dozen fixed configurations against stored numbers (several of those are known to fail here).',
  ['mrcal.c','triangulation.cc','poseutils.c'],
  [('cost function','mrcal.c: optimizer_callback()'),('board geometry','mrcal.c: project(), calobject warp'),('triangulated error','triangulation.cc: _mrcal_triangulated_error()'),('weights/outliers','mrcal.c: weight<=0 branches')],
  ['mrcal.optimizer_callback()'])
p('P04','The reported jacobian is the derivative of the residuals',
  'Every entry of the sparse jacobian equals the derivative of that residual with respect to that packed state variable, entries not stored are derivatives that are zero, and every stored column lies inside the state vector with each row storing a column at most once. This holds for every selection of optimized variables and every observation kind, including observations marked as outliers and the regularization terms.',
  ['configurations','inputs'],'lens models x observation kinds x all selection-flag combinations x outlier patterns x reference-camera or not',
  'Gradient tests differentiate one problem with a few flag settings; a wrong column offset or chain-rule term appears only at specific combinations.',
  ['mrcal.c','poseutils-uses-autodiff.cc','triangulation.cc'],
  [('jacobian rows','mrcal.c: optimizer_callback(), STORE_JACOBIAN'),('projection gradients','mrcal.c: project(), _mrcal_project_internal()')],
  ['mrcal.optimizer_callback() J'])
p('P05','A solve changes only what it was asked to optimize and reports it consistently',
  'Solving a calibration problem modifies only the variables selected for optimization, plus the signs of observation weights when outlier rejection is enabled; every other input array is left exactly as it was. The returned residuals, packed state and RMS/outlier statistics describe the returned solution: evaluating the cost function there reproduces them, the cost never increases, and where the data determine the solution, solving again from the returned solution leaves it in place. Noise-free data starting at the true geometry is a fixed point. No outlier is reported in evenly noisy data, and gross outliers planted among good data are the ones marked.',
  ['configurations','histories'],'all selection-flag combinations x observation kinds x outlier rejection on/off; repeated solves',
  'Tests run a few full calibrations; none enumerates selections nor checks which inputs stay untouched.',
  ['mrcal.c','mrcal-pywrap.c'],
  [('solver driver','mrcal.c: mrcal_optimize()'),('state ingestion','mrcal.c: unpack_solver_state()'),('outlier marking','mrcal.c: markOutliers()')],
  ['mrcal.optimize()','mrcal.optimizer_callback()'])
p('P06','Projection and unprojection are mutual inverses in every lens model',
  'For every lens model and any point in its valid domain, unprojecting a projected point returns the original direction and projecting an unprojected pixel returns the pixel, regardless of distance along the ray and of how the inputs are batched or laid out in memory. The models with closed-form definitions (pinhole, stereographic, longitude/latitude, the polynomial/rational OpenCV family, CAHVOR, splined stereographic) agree with an independent evaluation of their published equations.',
  ['inputs','configurations'],'all lens models and option settings x a grid of pixels over the imager and points at several distances x batch shapes and strides',
  'Tests use a few hard-coded points and one parameter set per model.',
  ['mrcal.c','mrcal-genpywrap.py','mrcal/projections.py','cahvore.cc'],
  [('projection','mrcal.c: mrcal_project(), mrcal_project_*()'),('unprojection','mrcal.c: mrcal_unproject(), _mrcal_unproject_internal()'),('python','mrcal/projections.py')],
  ['mrcal.project()','mrcal.unproject()','mrcal.project_*()','mrcal.unproject_*()'])
p('P07','Projection gradients are correct and independent of how they are requested',
  'The gradients reported by projection and unprojection with respect to the point, the pixel and the intrinsics equal the derivative of the reported value. Requesting any subset of outputs, one point or many, through the C or the Python interface, gives the same numbers.',
  ['inputs','configurations'],'lens models x subsets of requested outputs x 1..3 points per call x points in the domain',
  'Tests always request the same outputs, one call shape at a time.',
  ['mrcal.c','mrcal-genpywrap.py','mrcal/projections.py'],
  [('gradients','mrcal.c: _mrcal_project_internal(), project()'),('splined gradient scatter','mrcal.c: gradient_sparse_meta handling'),('unproject gradient','mrcal/projections.py: unproject()')],
  ['mrcal_project()','mrcal_unproject()','mrcal.project(get_gradients=True)','mrcal.unproject(get_gradients=True)'])
p('P08','Lens model names and configurations convert to each other without loss',
  'Writing the name of any configured lens model and parsing it again gives the same model and configuration; names that do not denote a valid model are rejected. The parameter count, the property flags and the spline knots reported for a model are the documented functions of its configuration, and the list of supported models is exactly the set of names that parse.',
  ['inputs','configurations'],'all lens models x boundary values of each configuration field; all single-edit mutations of valid names; all output-buffer sizes',
  'Tests try about ten strings.',
  ['mrcal.c','mrcal.h','mrcal-pywrap.c'],
  [('parsing','mrcal.c: mrcal_lensmodel_from_name()'),('printing','mrcal.c: mrcal_lensmodel_name()'),('metadata','mrcal.c: mrcal_lensmodel_metadata(), mrcal_lensmodel_num_params(), mrcal_knots_for_splined_models()')],
  ['mrcal_lensmodel_from_name()','mrcal_lensmodel_name()','mrcal.lensmodel_num_params()','mrcal.lensmodel_metadata_and_config()','mrcal.knots_for_splined_models()'])
p('P09','Pose conversions, inversions and compositions obey the rigid-motion group laws',
  'All pose representations (rotation matrix, Rodrigues vector, Rt, rt, quaternion+translation) of a transform convert to each other without changing it, inverting is the two-sided inverse, composing is associative and equals applying the transforms in turn, and the inverted-operand variants equal inverting first. Applying a transform to a point is the same in every representation. This holds for all rotations, including none, tiny ones and ones at or beyond half a turn.',
  ['inputs'],'all pairs/triples from an alphabet of rotations covering every branch threshold (zero, tiny, near-pi, pi, beyond pi, several axes) and translations x every operation and inversion flag',
  'Tests use a couple of random transforms; the branch thresholds for tiny and half-turn rotations are rarely hit.',
  ['poseutils.c','poseutils-uses-autodiff.cc','poseutils-opencv.c','mrcal/poseutils.py'],
  [('composition','poseutils-uses-autodiff.cc: compose_r_core(); poseutils.c: mrcal_compose_Rt_full()'),('conversion','mrcal_R_from_r_full(), mrcal_r_from_R_full()'),('point transform','mrcal_transform_point_*_full()')],
  ['mrcal.compose_*()','mrcal.invert_*()','mrcal.*_from_*()','mrcal.transform_point_*()','mrcal.rotate_point_*()'])
p('P10','Gradients of pose operations are the derivatives of the reported values',
  'Each gradient reported by a pose conversion, inversion, composition or point transformation equals the derivative of the reported value with respect to the corresponding argument, for regular, tiny, zero and near-half-turn rotations, with each operand inverted or not, and requesting gradients does not change the value.',
  ['inputs'],'every gradient-reporting pose operation and inversion flag x rotation alphabet covering the branch thresholds x translations',
  'Tests evaluate gradients at one random transform each.',
  ['poseutils.c','poseutils-uses-autodiff.cc','_autodiff.hh','poseutils-genpywrap.py'],
  [('autodiff','_autodiff.hh'),('gradient outputs','poseutils-uses-autodiff.cc')],
  ['mrcal pose functions with get_gradients=True'])
p('P11','Pose functions give the same answer for any memory layout and in place',
  'Every pose function gives the same result for contiguous, transposed, strided, batch-reversed or batch-broadcast inputs and outputs as for separate contiguous slices, leaves memory outside its output elements untouched and never changes an input that is not also its output. A layout an operation cannot process (reversed inside an item) is refused with an error, never processed wrongly. The operations documented to work in place give the same result when the output is the same array as an input as when it is not.',
  ['inputs','configurations'],'every pose function x every combination of layouts of each argument x every documented in-place aliasing',
  'Tests cover one non-contiguous layout per function.',
  ['poseutils.c','poseutils-uses-autodiff.cc','_strides.h','poseutils-genpywrap.py','mrcal/poseutils.py'],
  [('strided access','_strides.h: P1/P2/P3'),('in-place temporaries','poseutils.c')],
  ['mrcal_*_full() C functions','mrcal pose functions with out=...'])
p('P12','Camera model files round-trip',
  'Writing any camera model to a file and reading it back gives a model with the same lens model, intrinsics, extrinsics, imager size, valid-intrinsics region, and stored optimization inputs. This holds for file names and open files, for models read from strings, and a written note never alters the model. A file that is not a valid model raises an error.',
  ['inputs','configurations'],'lens models x extreme parameter values x presence/absence and shape of each optional item x notes containing awkward characters x every truncation of a model file',
  'Tests write a couple of models with ordinary values.',
  ['mrcal/cameramodel.py','mrcal/cahvor.py'],
  [('writer','mrcal/cameramodel.py: _write()'),('reader','mrcal/cameramodel.py: _read_into_self()'),('optimization inputs serialization','mrcal/cameramodel.py: _serialize_optimization_inputs()')],
  ['mrcal.cameramodel(file)','cameramodel.write()'])
p('P13','The C camera-model reader agrees with Python and is memory-safe on any input',
  'Any model text written by the toolkit is read by the C reader with the same values as by the Python reader, and models written by C are read back with equal values. On any other text (truncated, mutated, with missing, repeated or oversized fields, of any buffer length) the C reader either returns a model with the values the text states or reports failure, never reading or writing outside the given buffers, and with a too-small caller buffer it reports how much is needed.',
  ['inputs'],'valid models; every truncation, single-token deletion/duplication/substitution of them; every buffer length and every caller-buffer size',
  'The parser test tries about 20 strings and never a non-terminated buffer or tight buffer.',
  ['cameramodel-parser.re','mrcal.c'],
  [('parser','cameramodel-parser.re: read_cameramodel_from_string()'),('file access','cameramodel-parser.re: mrcal_read_cameramodel_file()'),('writer','mrcal.c: mrcal_write_cameramodel_file()')],
  ['mrcal_read_cameramodel_string()','mrcal_read_cameramodel_file()','mrcal_write_cameramodel_file()'])
p('P14','A camera model object stays consistent through any sequence of operations',
  'After any sequence of reads, writes and copies of a camera model, all its getters agree with the last successful write of each item: the four extrinsics representations and their inverses describe one transform, intrinsics and imager size match, and the valid-intrinsics region and optimization inputs are dropped or kept as documented. A rejected write leaves the object unchanged, and objects never share mutable data with each other or with the caller\'s arrays.',
  ['histories'],'all operation sequences up to a bounded depth over setters (valid and invalid arguments), getters, copy, and mutation of arrays previously passed in or returned',
  'Tests call each setter once on a fresh object.',
  ['mrcal/cameramodel.py'],
  [('setters and getters','mrcal/cameramodel.py: intrinsics(), _extrinsics_rt(), _extrinsics_Rt(), valid_intrinsics_region(), optimization_inputs()'),('copy','cameramodel.__init__(), __deepcopy__')],
  ['mrcal.cameramodel'])
p('P15','I/O and allocation faults are reported, never turned into success or a crash',
  'When any single file operation or memory allocation (other than those made inside the interpreter, stb_image and the sparse solver libraries, which do not survive them) fails while the C library reads or writes a camera model or an image, or the Python module solves or evaluates a problem, the call reports failure and the process continues; it never reports success with missing data, leaks the file, or crashes. After the fault clears, the same call succeeds.',
  ['fault_sequences'],'every single fault point (n-th open/read/write/close/map/allocation) of each operation',
  'Tests never inject faults.',
  ['mrcal.c','image.c','cameramodel-parser.re','mrcal-pywrap.c'],
  [('model writer','mrcal.c: mrcal_write_cameramodel_file()'),('image writers','image.c: generic_save*()'),('image loader','image.c: generic_load()'),('model reader','cameramodel-parser.re')],
  ['C API return values'])
p('P16','Sensor links are traversed along best paths, and the priority queue is ordered',
  'Traversing the connections between sensors visits every sensor connected to the first one exactly once, in order of increasing total path cost, each through a parent already visited that lies on a best path (each link costs 65536 minus the observations it shares); disconnected sensors are never visited and a callback that asks to stop ends the traversal. The underlying priority queue always returns a smallest-cost element under any sequence of pushes, pops and cost changes followed by a re-sort.',
  ['inputs','histories'],'all graphs on up to 5 sensors over an alphabet of link strengths; all heap operation sequences to a bounded depth; every stopping point of the callback',
  'Tests use one graph and one heap history.',
  ['traverse-sensor-links.c','heap.cc','mrcal-pywrap.c','mrcal/calibration.py'],
  [('Dijkstra','traverse-sensor-links.c: mrcal_traverse_sensor_links()'),('heap','heap.cc')],
  ['mrcal.traverse_sensor_links()','mrcal_heap_*()'])
p('P17','Images survive a save and load, for every supported type and layout',
  'Saving an image in a lossless format and loading it gives back the same pixels, dimensions and type, for any array layout, and independent image software reads the same pixels. Loading with an explicitly requested type gives the documented conversion, including the stretch of 16-bit data to 8 bits; unsupported combinations raise an error.',
  ['inputs','configurations'],'pixel types x formats x sizes x memory strides x requested load types x pixel-value patterns',
  'Tests save and load a few images of one size.',
  ['image.c','mrcal-pywrap.c','image.h'],
  [('save','image.c: generic_save()'),('load','image.c: generic_load()'),('stretch','image.c: stretch_equalization_uint8_from_uint16()')],
  ['mrcal.save_image()','mrcal.load_image()'])
p('P18','Color-mapping an array follows the documented palette for every data type',
  'Color-coding an array maps the requested (or, if unspecified, the actual) minimum and maximum of the data to the ends of the palette and interpolates linearly between them, for every supported number type, any value range and any array shape; each color channel is the documented palette function, negated functions inverted, and values beyond the range saturate.',
  ['inputs','configurations'],'all number types x explicit/automatic limits x all palette functions x data alphabets spanning each type\'s range x strides and broadcasting',
  'Only one data type and palette is tested.',
  ['stereo.c','mrcal-genpywrap.py'],
  [('color map','stereo.c: mrcal_apply_color_map_*()'),('formulas','stereo.c: gnuplot_color_formula()')],
  ['mrcal.apply_color_map()'])
p('P19','Rectified stereo systems have the documented geometry',
  'For any stereo pair the rectified system is accepted only if it can be built, and then both rectified cameras share intrinsics and orientation, differ by a translation purely along +x equal to the baseline, have the requested fields of view, center direction and resolution, and do not move the original cameras. The rectification maps send each rectified pixel to the pixel of the original camera that sees the same direction, so every distant point lands on the same row of both rectified images.',
  ['inputs','configurations'],'relative poses x rectification models x field-of-view/center/resolution settings (given and automatic) x lens models of the pair',
  'Tests use one stereo pair and a few settings.',
  ['stereo.c','mrcal/stereo.py','mrcal-pywrap.c'],
  [('geometry','stereo.c: mrcal_rectified_system2()'),('resolution','stereo.c: mrcal_rectified_resolution()'),('maps','stereo.c: mrcal_rectification_maps()')],
  ['mrcal.rectified_system()','mrcal.rectified_resolution()','mrcal.rectification_maps()'])
p('P20','Stereo disparity and range are consistent with the geometry',
  'For any point seen by both rectified cameras, the range computed from its disparity is its true distance and the unprojected point is the true point, for each rectification model, for floating-point and scaled-integer disparities, dense images and sparse pixel lists alike. Disparities that are non-positive, or outside the given limits, give a range of zero.',
  ['inputs','configurations'],'points over the view x rectification models x disparity types and scales x dense/sparse/broadcast calls x limits',
  'Tests check one set of points.',
  ['stereo.c','mrcal/stereo.py','mrcal-genpywrap.py'],
  [('range','stereo.c: _stereo_range_one(), mrcal_stereo_range_dense(), mrcal_stereo_range_sparse()'),('python','mrcal/stereo.py: stereo_range(), stereo_unproject()')],
  ['mrcal.stereo_range()','mrcal.stereo_unproject()'])
p('P21','Triangulation returns the observed point, and zero when rays do not converge',
  'Each triangulation method returns the true point for rays that intersect in front of both cameras, returns zero for divergent or parallel rays, and for slightly inconsistent rays gives the value its documented optimality criterion defines. Its result does not depend on the length of the ray vectors or on batching, its gradients are the derivatives of its value, and requesting them does not change the value.',
  ['inputs','configurations'],'all methods x point positions x relative poses x ray perturbations x ray scalings x gradients on/off x local or common-frame vectors',
  'Tests evaluate two points with one geometry.',
  ['triangulation.cc','mrcal/triangulation.py','triangulation-genpywrap.py'],
  [('methods','triangulation.cc: mrcal_triangulate_*()'),('convergence test','triangulation.cc: chirality()'),('python','mrcal/triangulation.py')],
  ['mrcal.triangulate_*()','mrcal.triangulate()'])
p('P22','Library calls running concurrently do not affect each other',
  'Calls into the C library from different threads on different data return exactly what each would return alone, under every interleaving: the library keeps no hidden mutable state shared between calls. A callback that calls back into the library does not disturb the call that invoked it.',
  ['schedules'],'all pairs of operations x all interleavings with a bounded number of preemptions at basic-block granularity',
  'All tests are single-threaded.',
  ['mrcal.c','poseutils.c','poseutils-uses-autodiff.cc','cahvore.cc','triangulation.cc','cameramodel-parser.re','stereo.c','traverse-sensor-links.c','heap.cc'],
  [('no static mutable storage','all C sources')],
  ['C API results'])
p('P23','Seeding a calibration recovers the geometry whenever the views connect it',
  'Given per-camera board poses, the seeding step places every camera and board frame consistently with the true geometry for every pattern of which camera saw which frame, as long as the cameras are connected through shared frames, and reports an error when they are not. Estimating board poses and a full stereographic seed from noise-free observations also recovers the truth.',
  ['configurations'],'all visibility patterns of up to 4 cameras x 4 frames, all camera-relabelings of them',
  'Tests use one fully-connected configuration.',
  ['mrcal/calibration.py','traverse-sensor-links.c'],
  [('joint seed','mrcal/calibration.py: _estimate_camera_poses(), estimate_joint_frame_poses()'),('pnp','mrcal/calibration.py: estimate_monocular_calobject_poses_Rt_tocam()')],
  ['mrcal.estimate_joint_frame_poses()','mrcal.estimate_monocular_calobject_poses_Rt_tocam()','mrcal.seed_stereographic()'])
p('P24','Uncertainty and sparse-factorization results equal the direct linear algebra',
  'The factorization object solves the linear systems its documentation states, for each solve variant and any right-hand-side shape, and its state survives any sequence of solves. The propagated calibration uncertainty and the cross-reprojection sensitivity equal a direct dense evaluation of their documented formulas for every selection of optimized variables they support.',
  ['configurations','histories'],'solve variants x right-hand-side shapes/strides x call sequences; uncertainty options x selection flags x observation kinds',
  'Tests check one problem with one selection.',
  ['mrcal-pywrap.c','uncertainty.c','mrcal/model_analysis.py'],
  [('factorization','mrcal-pywrap.c: CHOLMOD_factorization'),('cross-reprojection','uncertainty.c: mrcal_drt_ref_refperturbed__dbpacked()'),('propagation','mrcal/model_analysis.py: _propagate_calibration_uncertainty()')],
  ['mrcal.CHOLMOD_factorization','mrcal.projection_uncertainty()','mrcal.drt_ref_refperturbed__dbpacked()'])
p('P25','Calibration-object geometry and perfect observations are self-consistent',
  'The reference calibration object has the documented corner grid, spacing and warp shape, for all sizes, spacings and warp vectors, alone or broadcast. Observations synthesized as noise-free are exactly reproduced by the cost function (zero residual), with the observations marked as outliers still marked, and the hypothesized corner positions are the posed object in the frame they claim.',
  ['configurations','inputs'],'object sizes x spacings x warp shapes; observation kinds x selection flags x outlier patterns',
  'Tests build one 10x9 board.',
  ['mrcal/synthetic_data.py','mrcal/utils.py'],
  [('board','mrcal/synthetic_data.py: ref_calibration_object()'),('perfect data','mrcal/synthetic_data.py: make_perfect_observations()'),('corners','mrcal/utils.py: hypothesis_board_corner_positions()')],
  ['mrcal.ref_calibration_object()','mrcal.make_perfect_observations()','mrcal.hypothesis_board_corner_positions()'])
p('P26','Chessboard corner tables are attributed to the right camera, frame and corner',
  'Reading a table of detected corners yields one observation per image that has detections, with each corner at its place in the grid, its weight as the file\'s level or weight column means, and undetected corners excluded; each image is attributed to the camera and frame its file name denotes, with frames in consistent order across cameras. Malformed tables (missing, extra or out-of-order corners, unmatched images, ambiguous names) raise an error instead of producing a wrong assignment.',
  ['inputs','configurations'],'all small tables over a line alphabet (detected, undetected, comment, with/without third column) x file-name patterns x camera/frame subsets x line faults',
  'Tests read one good table.',
  ['mrcal/calibration.py','mrcal/utils.py'],
  [('table reader','mrcal/calibration.py: compute_chessboard_corners()'),('name mapping','mrcal/utils.py: mapping_file_framenocameraindex()')],
  ['mrcal.compute_chessboard_corners()','mrcal.mapping_file_framenocameraindex()'])
p('P27','Valid-intrinsics regions contain exactly what their contour encloses',
  'A pixel is reported as inside a model\'s valid-intrinsics region exactly when it lies inside the region\'s contour, for any simple polygon, open or closed, and any pixel batching; an empty region contains nothing. Subtracting regions gives polygons that cover exactly the difference, and closing a contour never changes the enclosed area.',
  ['inputs'],'all simple polygons with vertices on a small grid x all pixels of a finer grid; all pairs of polygons from a catalogue',
  'Tests check one region.',
  ['mrcal/model_analysis.py','mrcal/utils.py','mrcal/cameramodel.py'],
  [('containment','mrcal/model_analysis.py: is_within_valid_intrinsics_region()'),('polygon difference','mrcal/utils.py: polygon_difference()'),('closing','mrcal/utils.py: close_contour()')],
  ['mrcal.is_within_valid_intrinsics_region()','mrcal.polygon_difference()','mrcal.close_contour()'])
p('P28','Format conversion and command-line tools preserve the camera model',
  'Converting a camera model to another supported file format and back preserves its projection behavior, imager size and pose wherever that format can represent it. A malformed model is an error, and a model that cannot be stored in the requested format is refused without touching any file. The tools that graft models, convert lens models, and reproject, rotate or cull points or corners produce what they document, and never overwrite an existing output unless told to.',
  ['configurations','histories'],'formats x lens models x poses; tool options x input/output situations (output exists or not, stdin or file)',
  'Tests convert a couple of models.',
  ['mrcal/cahvor.py','mrcal/cameramodel.py','mrcal-to-cahvor','mrcal-from-cahvor','mrcal-to-kalibr','mrcal-from-kalibr','mrcal-from-ros','mrcal-graft-models','mrcal-reproject-points','mrcal-convert-lensmodel','mrcal-cull-corners','mrcal-rotate-corners','mrcal-is-within-valid-intrinsics-region'],
  [('cahvor','mrcal/cahvor.py: _read(), _write()'),('tools','mrcal-*')],
  ['tool stdout and output files'])
p('P29','Image reprojection maps send each pixel to the same viewed direction',
  'For any two camera models, the image transformation map gives, for each output pixel, the input-image pixel that observes the same direction, using exactly the requested part of the geometry (rotation only, a plane, or full intrinsics-only), and applying the map samples the image there. A pinhole model made for reprojection fits exactly the requested pixels into view.',
  ['inputs','configurations'],'model pairs x geometry options x planes/distances x fit requests',
  'Tests use one pair of models.',
  ['mrcal/image_transforms.py'],
  [('map','mrcal/image_transforms.py: image_transformation_map()'),('fit','mrcal/image_transforms.py: pinhole_model_for_reprojection(), scale_focal__best_pinhole_fit()')],
  ['mrcal.image_transformation_map()','mrcal.transform_image()','mrcal.pinhole_model_for_reprojection()'])
p('P30','Model differencing reports zero for equal models and the true offset otherwise',
  'The projection difference of a model with itself, or with a copy moved by any rigid transform that the fit can compensate, is zero and the recovered transform is that motion, for each distance and fitting option; a known pixel offset between two models is reported as that offset where no fit is requested. Procrustes alignment of points or vectors returns the transform that generated them, and reports failure on degenerate input.',
  ['inputs','configurations'],'motions x distances x fit options x weighting; point-set shapes including all degenerate ones',
  'Tests difference a few models.',
  ['mrcal/model_analysis.py','mrcal/utils.py','poseutils-opencv.c'],
  [('diff','mrcal/model_analysis.py: projection_diff()'),('fit','mrcal/model_analysis.py: implied_Rt10__from_unprojections()'),('procrustes','poseutils.c: mrcal_align_procrustes_*()')],
  ['mrcal.projection_diff()','mrcal.implied_Rt10__from_unprojections()','mrcal.align_procrustes_points_Rt01()'])
p('P31','Invalid arguments raise an error without crashing or changing anything',
  'Calling the Python optimization and projection interfaces with any argument of the wrong type, shape, number format or range, or with indices referring to nonexistent or out-of-order items, raises an exception. The process survives, no argument is modified (other than arrays explicitly given to receive results), read-only arrays are never written, and the following valid call works; where such an argument is accepted, the result is that of the equivalent well-formed argument.',
  ['inputs','configurations'],'every argument of each entry point x every malformation class, singly and in pairs with optional arguments absent',
  'Tests exercise a couple of bad arguments.',
  ['mrcal-pywrap.c','mrcal-genpywrap.py'],
  [('validation','mrcal-pywrap.c: optimize_validate_args(), CHECK_LAYOUT')],
  ['mrcal.optimize()','mrcal.optimizer_callback()','mrcal.project()','mrcal.unproject()'])
p('P32','mrcal-calibrate-cameras produces models that reproduce the detected corners',
  'Given a table of corners that some set of cameras could have observed, mrcal-calibrate-cameras writes exactly one model per camera, with the requested lens model and imager size, with camera 0 at the reference, and containing the optimization inputs with precisely the given corners, weights and options. The models reproject onto the corners, agree with the cameras that produced them, drop gross outliers only if asked to reject outliers, and keep unchanged whatever the seed models provide that was asked not to be solved. Cameras that are not connected by shared views, and conflicting arguments, are an error that writes nothing.',
  ['inputs','configurations'],'lens models x camera counts x every combination of solver options and seeds x missing views, outliers and undetected corners; every argument conflict',
  'No test runs this tool: the tests cover some of the stages it calls.',
  ['mrcal-calibrate-cameras','mrcal/calibration.py'],
  [('tool','mrcal-calibrate-cameras'),('seed','mrcal/calibration.py: seed_stereographic(), estimate_joint_frame_poses()'),('corners','mrcal/calibration.py: compute_chessboard_corners()')],
  ['mrcal-calibrate-cameras exit status and output models'])
if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
    with open(out,'w') as f:
        for x in P: f.write(json.dumps(x)+'\n')
    print(len(P))
