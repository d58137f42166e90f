import json,os
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":False}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Time-stamp arithmetic, conversion and ordering are exact to the nanosecond",
"Converting a time stamp to a nanosecond count and back is the identity, and every ordering comparison, sum and difference of two stamps equals the same operation on their nanosecond counts (equality tolerates one nanosecond), with a difference that would be negative giving zero. Dividing a stamp by an integer gives the integer quotient of its nanosecond count (zero divisor: unchanged; the sign of the divisor is ignored), and converting from or to seconds and micro-seconds keeps the integer seconds exact with a sub-second part below one second. This holds for every pair of stamps whose exact result is representable.",
["inputs"],"all pairs of time stamps with nanosecond part below 1e9 and all 64-bit nanosecond counts whose result fits 32-bit seconds",
"test_simple_time only runs one bracketing search on a handful of stamps; no test touches the arithmetic or the carry between nanoseconds and seconds, whose input space is 2^124.",
["common/simple_time.h","common/simple_time.cc"],[("time arithmetic operators","common/simple_time.cc"),("conversions","common/simple_time.cc")],["public operators and conversions of the time type"])

p("C02","Bracketing search returns the two adjacent samples enclosing a time",
"For every time-ordered container of at least two stamped samples and every time not before the first and before the last sample, the bracketing search returns two neighbouring positions, the first sample not later than the time and the second later than it. It never reads outside the container and always terminates.",
["inputs"],"all container lengths and all sample times and query times",
"The one existing test queries a single fixed container; which pair is returned depends on container length, duplicates and on where the time falls.",
["common/simple_time.h"],[("binary search over stamped samples","common/simple_time.h TimeStampBinarySearch")],["return value of the search"])

p("C03","GPS interpolation is linear between the enclosing fixes or declines",
"For every history of GPS fixes and every query time, the interpolated position is the linear interpolation, by time, of the east-north-up positions of the two neighbouring fixes that enclose the time; with exactly one sample stored it is that sample when it is a valid fix no further away than the given threshold. No position is returned when there is no data, when the time lies outside the recorded span, or when either enclosing sample is not a valid fix or they are more than 0.2 s apart.",
["inputs","histories"],"all sequences of stored samples, all query times, with and without trimming of older samples",
"No test exercises the data collector at all; the behaviour depends on position of the query within an arbitrary-length history.",
["builder/data/data_collector.cc","builder/data/data_collector.h","common/simple_time.h"],[("interpolation of position","builder/data/data_collector.cc InterpolateGps")],["return value of the interpolation call"])

p("C04","Odometry interpolation blends the enclosing poses or declines",
"For every odometry history and query time, the interpolated pose has the translation interpolated linearly in time and the rotation interpolated spherically between the two neighbouring samples that enclose the time; a single stored sample is returned only if it is within the threshold. No pose is returned when there is no data, when the time lies outside the recorded span, or when the enclosing samples are more than one second apart.",
["inputs","histories"],"all sequences of stored samples, all query times, with and without trimming",
"No test exercises the data collector; behaviour depends on arbitrary histories.",
["builder/data/data_collector.cc","common/math.h"],[("interpolation of pose","builder/data/data_collector.cc InterpolateOdom"),("pose blending","common/math.h InterpolateTransform")],["return value of the interpolation call"])

p("C05","Trimming old sensor data never drops a sample that is still needed",
"Discarding sensor samples older than a time removes a prefix only: every sample at or after the time survives, survivors keep their order and content, other kinds of data are untouched, and at least the last two samples are always kept when there were two. Trimming as part of an interpolation removes only samples before the pair enclosing the query time.",
["inputs","histories"],"all sample sequences and all trim times",
"No test covers trimming; an off-by-one only shows when the cut falls on particular lengths or equal time stamps.",
["builder/data/data_collector.cc"],[("trim of sensor buffers","builder/data/data_collector.cc TrimSensorData"),("trim while interpolating","builder/data/data_collector.cc InterpolateGps / InterpolateOdom")],["buffers as seen by later interpolation calls"])

p("C06","Geometric filters keep exactly the points meeting the configured criterion",
"For every input cloud and configuration, the range filter outputs exactly the points whose distance from the origin lies within the inclusive limits, the axis filter exactly those not below the minimum nor above the maximum on the chosen axis, and the box-removal filter exactly those not inside the closed box. Points keep their order and every attribute, and the output carries the input's time stamp.",
["inputs","configurations"],"all clouds of any size (including special floating-point values) and all accepted configurations",
"Tests use a few hundred random points and one configuration per filter; boundary values, attributes, special floats and every size are not covered.",
["pre_processors/filter_range.cc","pre_processors/filter_axis_range.cc","pre_processors/filter_bounding_box.cc","pre_processors/filter_interface.cc","common/bounding_box.h"],[("per-point criterion and copy","pre_processors/filter_range.cc, filter_axis_range.cc, filter_bounding_box.cc")],["output cloud of a filter"])

p("C07","Inliers and outliers partition the input, whatever was filtered before",
"After any filter run that reports inliers, the inlier and outlier lists are strictly increasing, together contain every input position exactly once, and the output cloud is the sub-sequence of the input at the inlier positions. The result depends only on the current input and configuration, never on earlier inputs, earlier runs or the previous content of the output cloud; with no input or no output cloud nothing is changed.",
["inputs","histories","configurations"],"all sequences of set-input and filter calls on one filter object, for the range, axis, box-removal and random-sampling filters",
"Each existing test performs one filter call on a fresh object and checks counts only; history dependence and pass-through configurations are not exercised.",
["pre_processors/processor_interface.h","pre_processors/filter_interface.cc","pre_processors/filter_range.cc","pre_processors/filter_axis_range.cc","pre_processors/filter_bounding_box.cc","pre_processors/filter_random_sample.cc"],[("reset of per-run lists","pre_processors/filter_interface.cc FilterPrepare"),("pass-through path","pre_processors/filter_axis_range.cc, filter_random_sample.cc")],["inlier and outlier lists and output cloud"])

p("C08","Voxel-grid filter outputs one centroid for every occupied voxel",
"For every input cloud and voxel size, the voxel-grid filter outputs exactly one point for every voxel that contains at least one input point, and that point's position and intensity are the arithmetic means over exactly the input points rounding to that voxel. The output carries the input's time stamp and nothing from earlier runs.",
["inputs","configurations","histories"],"all clouds and all valid voxel sizes",
"The existing test checks one configuration with points far apart; grouping and averaging over arbitrary clouds is not exercised.",
["pre_processors/filter_voxel_grid.cc","common/eigen_hash.h"],[("grouping by voxel index and averaging","pre_processors/filter_voxel_grid.cc")],["output cloud"])

p("C09","A filter chain equals applying its filters one after another in order",
"Running a configured chain on a cloud gives exactly the cloud obtained by applying each configured filter once, in configuration order, to the previous one's output; an empty chain returns the input unchanged. The input cloud is left untouched, and nothing from an earlier run leaks into the result.",
["inputs","configurations","histories"],"all chains of any length of arbitrary filters and all input clouds",
"No test runs a chain; the hand-over between stages matters only for longer chains and for stages that produce nothing.",
["pre_processors/filter_factory.cc","pre_processors/filter_factory.h"],[("hand-over between stages","pre_processors/filter_factory.cc Factory::Filter")],["output cloud of the chain"])

p("C10","Filter configuration sets exactly the named parameters and rejects bad ones",
"Initialising a filter from a configuration sets exactly the parameters named in it, each to the given value converted to its declared type, leaves the others at their previous values, and reports success exactly when the configuration names this filter and the resulting values are valid. Unknown parameter names are refused and change nothing.",
["inputs","configurations"],"all parameter assignments for the range, axis, box-removal, random-sampling and voxel filters",
"Tests check a few configurations for accept/reject only, never which value lands in which parameter.",
["pre_processors/filter_interface.cc","pre_processors/xml_interface.h","pre_processors/filter_axis_range.cc","pre_processors/filter_bounding_box.cc","pre_processors/filter_range.cc","pre_processors/filter_random_sample.cc","pre_processors/filter_voxel_grid.cc"],[("name to parameter table","pre_processors/xml_interface.h SetValue"),("validity checks","ConfigsValid of each filter")],["return value and later filter behaviour"])

p("C11","Saved clouds read back identically and short files are refused",
"Writing a cloud to a stream and reading it back yields the same time stamp, the same number of points and bit-identical point attributes, for any cloud, and consumes exactly what was written. Reading from a stream that ends before the announced content is complete reports failure.",
["inputs","fault_sequences"],"all clouds and all truncation points of the stream",
"The existing test round-trips one cloud; truncation at each byte offset and sizes beyond the sample are not covered.",
["builder/data/cloud_types.cc","builder/data/cloud_types.h","common/simple_time.cc"],[("binary writer and reader","builder/data/cloud_types.cc Serialize / Deserialize")],["read-back cloud and return value"])

p("C12","A rigid transform moves every point once and changes nothing else",
"Transforming a cloud maps every point's position by rotation and translation exactly once, keeps each point's intensity and time factor, the number and order of points and the cloud's time stamp, and appending one cloud to another keeps both parts in order. The in-place and to-output variants give the same result and the latter leaves the source unchanged; normals are only rotated. Motion compensation moves each point by the share of the motion its time factor names.",
["inputs"],"all clouds of any size and all transforms",
"Tests check one transform on one cloud within tolerance.",
["builder/data/cloud_types.cc","builder/data/cloud_types.h"],[("per-point transform","builder/data/cloud_types.cc ApplyTransformInplace / ApplyTransformToOutput / operator+=")],["transformed cloud"])

p("C13","Conversions between cloud types keep every point and attribute",
"Converting a cloud to the working representation and back keeps the number, order and coordinates of points, the intensity when the source type has one and zero otherwise, the time stamp to the micro-second, and leaves the converted cloud's dimensions consistent with its points. The time factor assigned to the i-th of n points is i/n.",
["inputs"],"all clouds of all supported point types",
"Tests convert one cloud of one size.",
["builder/data/cloud_types.cc","builder/data/cloud_types.h"],[("conversion loops","builder/data/cloud_types.cc ToInnerPointCloud / ToPclPointCloud / FromPointCloud")],["converted clouds"])

p("C14","Octant boxes tile their cube and agree with the octant index",
"For every cube and every point inside it, the octant index selects one of the eight generated sub-boxes that contains the point; points outside have no octant. Sub-boxes have half the edge length, stay inside the cube, and together cover it with no two sharing interior.",
["inputs"],"all cube centres, sizes and points (real arithmetic)",
"Tests check one cube with a few points; consistency between index and sub-box geometry is universal.",
["common/bounding_box.h","common/bounding_box.cc"],[("octant index and sub-box generation","common/bounding_box.cc")],["octant index and sub-boxes"])

p("C15","Octree subdivision hands each point to exactly one child cell",
"Building an octree over any cloud puts every point of a cell that is split into exactly one of its child cells, so that each input point inside the root cube appears in exactly one leaf. Leaves hold no more points than the configured maximum unless the depth limit is reached, and no cell is deeper than the limit.",
["inputs","configurations"],"all clouds, depth limits and leaf capacities (real arithmetic)",
"The existing test builds one small tree and checks nothing about the leaves.",
["common/octree.h","common/octree.cc"],[("recursive subdivision","common/octree.cc BuildTree")],["leaves listed by the tree's output"])

p("C16","A voxel ray visits a connected path from the start to the end voxel",
"For every start point, end point and positive step, the voxel ray starts in the voxel of the start point, ends in the voxel of the end point, moves by at most one voxel per axis per step, and never revisits a voxel. Its length is one more than the largest axis distance.",
["inputs"],"all start and end points and steps",
"No test covers ray casting.",
["common/math.cc","common/math.h"],[("integer line walk","common/math.cc VoxelCastingBresenham")],["returned voxel list"])

p("C17","Pose conversions are mutually inverse and produce proper rotations",
"Building a pose from six parameters and converting it back returns the parameters (away from the pitch singularity), the rotation part is the yaw-pitch-roll product, and quaternion, matrix and angle forms of the same angles describe the same rotation. Angle wrapping returns the equivalent angle within half a turn and clamping returns the nearest value of the interval.",
["inputs"],"all angles and translations (real arithmetic)",
"No test covers the conversions.",
["common/math.h","common/math.cc"],[("angle, quaternion and matrix conversions","common/math.h, common/math.cc")],["converted values"])

p("C18","Pose interpolation and averaging stay between their inputs",
"Interpolating between two poses returns the first at factor zero, the second at factor one, a linear translation in between and the spherical blend of the rotations; averaging poses returns the arithmetic mean of translations and of angles. Factors outside zero to one are refused.",
["inputs"],"all pairs and all non-empty lists of poses, all factors",
"No test covers interpolation or averaging.",
["common/math.h"],[("interpolation","common/math.h InterpolateTransform"),("averaging","common/math.h AverageTransforms")],["returned pose"])

p("C19","Constant-velocity prediction extrapolates from the two reference poses",
"With the constant turn-rate and velocity predictor, after any sequence of added poses the pose predicted for a later time is the newest pose advanced by the elapsed time at the linear and angular velocity estimated from the oldest and newest retained poses. The velocity is unchanged when the retained poses span less than the configured duration; at the newest pose's own time the newest pose itself is returned, and times before it are refused.",
["inputs","histories"],"all sequences of pose additions with increasing times and all later prediction times",
"No test covers the predictor; results depend on arbitrary histories.",
["builder/pose_extrapolator.cc","builder/pose_extrapolator.h"],[("velocity estimate and prediction","builder/pose_extrapolator.cc")],["predicted pose"])

p("C20","The attitude tracker integrates rate and keeps a proper orientation",
"Advancing the attitude tracker rotates the orientation by the last angular rate over the elapsed time and rotates the gravity estimate accordingly; the clock never goes backwards. An acceleration observation moves the gravity estimate towards it by an exponential weight in zero to one, the first observation being taken as is.",
["inputs","histories"],"all sequences of advances and observations",
"No test covers the tracker.",
["builder/imu_tracker.cc","builder/imu_tracker.h"],[("integration and filtering","builder/imu_tracker.cc")],["orientation and time"])

p("C21","A submap numbers its frames, expresses them locally, and fills exactly once",
"Frames inserted in a submap are numbered consecutively from zero with the submap's own identifiers; the submap's pose and time stamp are those of its first frame, each frame's local pose is its pose relative to the submap, and the submap becomes full exactly when the configured count is reached and refuses further frames. Updating inner poses sets every frame's global pose to the submap pose composed with its local pose. The full submap's cloud is its frames' clouds in their local poses joined in order, reduced on the configured voxel grid when that is enabled.",
["inputs","histories","configurations"],"all sequences of insertions and pose updates and all frame counts",
"No test covers submaps.",
["builder/submap.cc","builder/frame.cc","builder/frame_base.cc"],[("insertion","builder/submap.cc InsertFrame"),("pose propagation","builder/submap.cc UpdateInnerFramePose")],["frame identifiers, poses and full flag"])

p("C22","Frame and submap identifiers are ordered lexicographically",
"Comparing identifiers is a strict total order: trajectory first, then submap, then frame; equality holds exactly when every component is equal and inequality is its negation. Exactly one of less, equal and greater holds for any two identifiers.",
["inputs"],"all pairs and triples of identifiers",
"No test covers identifiers; order laws quantify over triples.",
["builder/frame.cc","builder/submap.cc"],[("comparison operators","builder/frame.cc, builder/submap.cc")],["comparison results"])

p("C23","The view graph stores exactly the vertices added and only valid edges",
"After any sequence of additions, the view graph holds each added vertex with its latest pose, holds an edge only between two present vertices, and its bounds are the smallest box covering every position added. Adding an edge with an unknown end changes nothing.",
["inputs","histories"],"all sequences of vertex and edge additions",
"No test covers the graph.",
["back_end/view_graph.cc","back_end/view_graph.h"],[("vertex and edge insertion","back_end/view_graph.cc")],["graph text output"])

p("C24","Occupancy odds stay within limits and move with the evidence",
"In the occupancy map, updating a cell with a hit never lowers its occupancy, updating with a miss never raises it, and occupancy always stays within the fixed limits, for every sequence of updates. A known cell that beams of a scan pass through, and none ends in, loses occupancy in that scan unless it is already at the lower limit. Configured hit and miss weights outside their allowed intervals are clamped into them.",
["inputs","histories","configurations"],"all occupancy values, all weights and all update sequences",
"No test covers the occupancy map.",
["builder/multi_resolution_voxel_map.cc","builder/multi_resolution_voxel_map.h"],[("probability tables and update","builder/multi_resolution_voxel_map.cc")],["output of occupied voxels"])

p("C25","Thread pool runs every accepted task exactly once and stops cleanly",
"Every task accepted by the thread pool is executed exactly once by some worker, its result is delivered to its future, tasks are taken in submission order, and destruction waits until all accepted tasks have finished. Tasks offered after shutdown began are refused.",
["schedules","histories"],"all interleavings of producers and workers and all numbers of tasks and workers",
"No test covers the pool and no test can enumerate schedules.",
["common/simple_thread_pool.h"],[("queue protected by one lock and a condition","common/simple_thread_pool.h")],["task effects and futures"])

p("C26","Sensor buffers are only touched while their lock is held",
"Every access of a shared sensor buffer by the data collector's public calls and by its worker happens while that buffer's lock is held, so concurrent producers and consumers never race and no call returns while still holding a lock.",
["schedules"],"all interleavings of callers and the worker thread",
"No test starts the data collector; races need particular schedules.",
["builder/data/data_collector.cc","builder/data/data_collector.h"],[("per-buffer locks","builder/data/data_collector.cc")],["data race reports, buffer contents"])

p("C27","Sensor intake keeps order and references samples to the first fix",
"Samples accepted by the data collector are stored in arrival order with their content unchanged; GPS data before the first valid fix is dropped, later samples are expressed east-north-up relative to that fix, and odometry is expressed relative to its first sample. GPS samples whose time does not increase are refused.",
["inputs","histories"],"all sample sequences",
"No test exercises the data collector.",
["builder/data/data_collector.cc"],[("intake of samples","builder/data/data_collector.cc AddSensorData")],["stored samples through interpolation"])

p("C28","Accumulated scans keep every point in order with the first scan's time",
"When several raw scans are accumulated, the delivered cloud contains every point of every scan in arrival order with its coordinates and intensity, carries the first accumulated scan's time stamp, and clouds are delivered in arrival order, each exactly once.",
["inputs","histories","schedules","configurations"],"all scan sequences and accumulation counts",
"No test exercises the data collector.",
["builder/data/data_collector.cc","builder/data/data_collector.h"],[("accumulation and queue","builder/data/data_collector.cc")],["clouds handed out"])

p("C29","Descriptor matching is symmetric, bounded and refuses unusable descriptors",
"Matching two non-constant scene descriptors returns the absolute correlation of their entries, which lies in zero to one and does not depend on the order of the two; descriptors of different or too small size are refused with minus one.",
["inputs"],"all pairs of descriptors (real arithmetic)",
"No test covers descriptors.",
["descriptor/m2dp.cc","descriptor/m2dp.h"],[("correlation score","descriptor/m2dp.cc matchTwoM2dpDescriptors")],["returned score"])

p("C30","Unloading a cloud to disk and using it again gives the same cloud",
"After a cloud was saved to its file and released from memory, the next use restores the same points, attributes and time stamp from that file; a cloud that was never saved is not released into nothing without the owner being able to tell.",
["inputs","histories","crash_points"],"all clouds and all sequences of save, release and use",
"The existing test covers one save and release.",
["builder/data/data_types.cc","builder/data/cloud_types.cc"],[("save, release, reload","builder/data InnerPointCloudData")],["restored cloud"])
p("C31","A configuration file sets the options it names and no others",
"Starting the map builder with a configuration file gives every option the file names the value written there, picks the first matcher settings written for the chosen matcher type, and leaves every option the file does not name at its default; a non-empty output directory ends in a separator and an empty one stays empty. With a missing, unreadable or foreign file every option keeps its default. An inconsistent set of options (no way to detect loops, no cloud to accumulate, hit or miss weights on the wrong side of one half, no points per cell) is refused before anything is started.",
["inputs","configurations"],"all configuration files: every set of sections and attributes present or absent, and all values",
"No test reads a configuration file, and the sections and attributes that may be absent combine in too many ways.",
["builder/map_builder_options.cc","builder/map_builder.h"],[("reading of each section of the file","builder/map_builder_options.cc")],["options of the builder after initialisation","result of initialisation"])

p("C32","Prediction with an inertial unit applies each sample once, in time order",
"In the mode with an inertial unit, a prediction brings the attitude to the asked time by applying every recorded sample stamped not before the attitude's own time and before the asked one, once each and in time order; without samples up to then it turns at the rate known from poses or odometry with gravity upright. The predicted pose is the newest pose turned by the change of attitude since that pose and moved at the known velocity, and is available from the first pose on. Samples are discarded only when a later one not after the newest pose is kept, and a sample older than the newest pose is refused.",
["inputs","histories"],"all sequences of poses and samples with increasing times, and all times asked for",
"No test uses the predictor with an inertial unit; which samples count depends on where the stamps fall relative to the poses and to earlier predictions.",
["builder/pose_extrapolator.cc","builder/pose_extrapolator.h"],[("samples applied to the attitude","builder/pose_extrapolator.cc AdvanceImuTracker"),("prediction","builder/pose_extrapolator.cc ExtrapolatePose"),("intake and discarding","builder/pose_extrapolator.cc AddImuData, AddPose")],["predicted pose","time of the last prediction","refusal of old samples"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
