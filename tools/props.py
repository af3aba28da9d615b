# Single source of the property list: tools/gen.py writes properties.jsonl and
# MANIFEST.json from it.
I = 'include/ndt_gslam/'
def f(*names):
    return ['ndt_gslam/' + n for n in names]
UT = ' The two existing unit test files feed a handful of fixed values or short scripts.'

PROPS = []
def P(id, title, statement, over, quant, why, files, mech, state=(), note='', observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=f(*files), mech=mech, state=state, note=note, observe=observe))

G = (I + 'slam_optimizer/pose_graph.h',)
P('P01', 'Pose graph: ids are stable, lookups and counts match the history',
  'After any history of adding nodes, adding edges and removing edges, every node and edge still present is found under the id it was given and still carries exactly the pose, information matrix, type, state, data and endpoints it was created with or last set to. Ids of removed edges are reused before new ones are made, counts equal the number of elements present, and ids never handed out, removed, or one past the end are rejected without effect.',
  ['histories'], 'all sequences of graph operations (add node, add edge between any two nodes, remove any id including invalid ones, mark, modify) up to the depth bound, and all subsets of removed edges of larger graphs',
  'The graph test adds a few nodes and edges once; id reuse depends on the order of removals and insertions, i.e. on histories.',
  G, [{'name': 'free-list of removed edge ids', 'where': 'Graph::addEdge / Graph::removeEdge'}, {'name': 'bounds tests on ids', 'where': 'Graph::getNode / getEdge'}],
  [{'name': 'edges_ / valid flag', 'meaning': 'slot per edge id'}, {'name': 'free list', 'meaning': 'ids ready for reuse'}], 'real Graph class driven next to a map model')
P('P02', 'Pose graph: iteration visits exactly the live elements, once, in id order',
  'Iterating over the edges or the nodes of the graph, in constant or mutable form, visits every element present exactly once in increasing id order and nothing else, whichever edges were removed before, including the first, the last or all of them. Iterating never touches memory outside of the graph, and what is reached through an iterator is the stored element itself.',
  ['histories'], 'all histories up to the depth bound and all subsets of removed edges of graphs of up to 8 (thorough: 13) edges',
  'Which elements are skipped depends on the pattern of removals; tests sample a couple of patterns and cannot show absence of out-of-bounds reads.',
  G, [{'name': 'skip over invalid slots', 'where': 'GraphIterator / GraphConstIterator in pose_graph.h'}], (), 'real iterators under AddressSanitizer')
P('P03', 'Pose graph: a node knows exactly its live incident edges',
  'At any time the edges listed by a node are exactly the edges present in the graph that start or end at it, each once per endpoint, also after edges were removed and their ids reused between other nodes. Removing or adding an edge never changes what other nodes list.',
  ['histories'], 'all histories of additions, removals and id reuse up to the depth bound',
  'Stale incidence only shows after a removal followed by reuse of the id at a different place.',
  G, [{'name': 'incidence lists kept by addEdge/removeEdge', 'where': 'Graph::addEdge, Graph::removeEdge, Node::addEdge'}])
P('P04', 'Planar pose algebra is the group SE(2), angles stay normalised',
  'Composing, inverting, differencing and converting planar poses, vectors and 3x3/4x4 matrices agrees with rigid motion algebra, and conversions there and back are the identity. Every angle returned lies in one full turn around zero and is congruent to the exact angle, for any finite input including multiples of a half turn and large turn counts.',
  ['inputs', 'histories'], 'the product of translation and angle alphabets (all multiples of pi/8 in several turns with neighbours, tiny, huge) for one and two poses, and all chains up to the depth bound',
  'The eigen tools test checks a few poses; wrap-around borders and sign combinations are not sampled.',
  (I + 'utils/eigen_tools.h',), [{'name': 'angle normalisation', 'where': 'eigt::normalizeAngle'}, {'name': 'pose/transform conversions', 'where': 'eigt::getTransFromPose, getPoseFromTransform, transBtwPoses, transformPose'}])
P('P05', 'Pose graph constraint: error, Jacobian and pose update are consistent',
  'The error of a relative pose constraint is the pose of the inverse measurement composed with the actual relative pose, with its angle normalised, and is zero exactly when the measurement holds. The derivative blocks are the derivatives of that error with respect to each of the two poses, and adding a pose correction yields a pose with normalised heading; edges of the graph report the same values as the bare formulas and follow changes of their nodes.',
  ['inputs', 'histories'], 'the product of pose, measurement and angle alphabets; all short histories of node and edge changes',
  'No test evaluates derivatives or angle wrap of the error.',
  (I + 'slam_optimizer/slam2d_policy.h', I + 'slam_optimizer/pose_graph.h'), [{'name': 'error and Jacobian', 'where': 'Slam2d_Policy::calcError, calcJacobianBlocks, addPoses'}])
P('P06', 'Voxel grid behaves as a map from world cell to content',
  'After any history of insertions with or without overwriting or merging, removals, growth in any direction and clearing, looking up a point returns the content last stored for the world cell that contains the point, and nothing for empty cells or points outside of the current extent. Extents, sizes, the list and count of occupied cells, the occupancy dump and the bounds test all agree with that content, growth moves no content, and rejected operations change nothing.',
  ['histories', 'inputs'], 'all operation sequences up to the depth bound over cells inside, on and outside the border, growth by all small amounts and to all far points; all points around every cell border for several cell sizes',
  'Grid tests use one small grid and do not combine growth, removal and overwriting.',
  (I + 'ndt/voxel_grid2d.h',), [{'name': 'world point to row/column to index', 'where': 'VoxelGrid2D::calcIndex / isInside / enlarge'}], [{'name': 'cells_, valid_cells_', 'meaning': 'content and number of occupied cells'}])
P('P07', 'Voxel grid copies are deep, complete and independent',
  'A grid that is copied, assigned, cloned or moved equals its source cell by cell at the time of the copy, including empty cells, extents and counters. Afterwards a change to either side is never visible in the other, every cell is destroyed exactly once, and self assignment changes nothing.',
  ['histories'], 'all build histories up to the depth bound combined with every kind of copy and every later change on either side',
  'Aliasing and double destruction need a later change or destruction after the copy, with empty cells in between.',
  (I + 'ndt/voxel_grid2d.h',), [{'name': 'copy constructor, assignment, move, clone', 'where': 'VoxelGrid2D'}])
P('P08', 'Voxel grid neighbourhood query returns exactly the window content',
  'A neighbourhood query with radius r returns exactly the occupied cells whose row and column differ by at most r from those of the queried point, in row-major order, each once. Near borders the window is clipped, a window larger than the grid returns all occupied cells, and a centre outside of the extent returns nothing.',
  ['inputs', 'histories'], 'every occupancy pattern of all small grid shapes, all centres, radii 0 to larger than the grid; patterns on larger shapes',
  'Clipping at each of the four borders with unsigned arithmetic is not sampled by tests.',
  (I + 'ndt/voxel_grid2d.h',), [{'name': 'window clipping', 'where': 'VoxelGrid2D::getNeighbors'}])
P('P09', 'Voxel grid translation shifts content by whole cells',
  'Translating the grid by whole cells moves every cell content by exactly that offset in world coordinates; when the extent is kept, content leaving it is dropped and the vacated cells are empty, and when it may grow nothing is lost. Moving there and back restores the content that stayed inside, several moves equal their sum, and counters match.',
  ['inputs', 'histories'], 'all grid shapes and occupancy patterns in the bound with all moves (including larger than the grid), and all sequences of moves mixed with edits',
  'Overwriting order inside the move depends on direction and size; tests move once.',
  (I + 'ndt/voxel_grid2d.h',), [{'name': 'in-place shift', 'where': 'VoxelGrid2D::translate, move'}])
P('P10', 'Ray tracing visits the cells a ray crosses',
  'The cells reported for a ray between two points start with the cell of the start point, end at the cell of the end point, are connected by steps to neighbouring cells without repetition, and each lies on the ray up to one cell. Every cell the segment passes through with more than a grazing touch is contained, and tracing neither invents content nor leaves the map inconsistent when it extends beyond the extent.',
  ['inputs', 'histories'], 'all pairs of start and end points on a sub-cell lattice over grids of several shapes and sizes, axis-parallel, diagonal, degenerate and far rays; histories of rays mixed with edits',
  'Tests trace a few rays; direction octants, borders and zero lengths are not covered.',
  (I + 'ndt/voxel_grid2d.h',), [{'name': 'grid traversal', 'where': 'VoxelGrid2D::rayTrace'}])
C = ('src/ndt/ndt_cell.cpp', I + 'ndt/ndt_cell.h')
P('P11', 'NDT cell: statistics do not depend on how points were grouped or fused',
  'The mean, covariance and point count of a cell that received points in any grouping - all at once, in batches, or through fusion with other cells in any order - equal the statistics of all those points together, up to the point limit. Above the limit the count saturates and the distribution stays a convex update, and fusing with a cell without distribution leaves the distribution unchanged.',
  ['histories', 'inputs'], 'all groupings of point sets over the shape alphabet, all pairs and sequences of fusions up to the depth bound',
  'The cell test fuses two fixed cells; associativity needs all groupings.',
  C, [{'name': 'recursive sample mean / covariance', 'where': 'NDTCell::computeGaussian, operator+='}], [{'name': 'mean_, cov_, points_', 'meaning': 'distribution and its weight'}])
P('P12', 'NDT cell: distribution and occupancy stay valid under any history',
  'At every moment a cell that claims a distribution has a finite mean, a symmetric positive definite covariance with bounded axis ratio and its true inverse; occupancy stays finite and within its limits, and the integer occupancy stays within its documented range. Rays and measurements move occupancy in the direction the evidence demands, transforming a cell moves mean and covariance as a rigid motion, and a cell that has too few points or degenerate points claims no distribution.',
  ['histories', 'inputs'], 'all operation sequences up to the depth bound over points, computing, fusion, rays, occupancy changes and transforms; all ray geometries of the alphabet against all distributions',
  'Degenerate point sets, zero length rays and saturation appear only for particular histories.',
  C, [{'name': 'eigenvalue conditioning', 'where': 'NDTCell::rescaleCovar'}, {'name': 'occupancy update', 'where': 'NDTCell::updateOccupancy'}])
P('P13', 'Covariance conditioning gives a valid inverse or refuses',
  'A symmetric matrix whose eigenvalues sum to a positive value is turned into the matrix with the same eigenvectors whose eigenvalues are lifted to at least one hundredth of the largest, together with its true inverse; a well conditioned one is returned unchanged. Any other matrix is refused, the input is never modified, and conditioning twice equals conditioning once.',
  ['inputs'], 'all triples from the eigenvalue alphabet in all orders, scales and rotations, in single and double precision; all small integer symmetric matrices',
  'Only conditioned matrices are sampled by the existing tests.',
  (I + 'utils/covariance_inverse.h',), [{'name': 'eigenvalue lifting', 'where': 'slamuk::covarInverse'}])
P('P14', 'String splitting terminates and loses nothing',
  'Splitting a text at a separator yields the maximal pieces between separators in their order, so that joining them with the separator gives the text back. It terminates for every text and separator, including empty ones, overlapping separators and separators at the ends.',
  ['inputs'], 'all strings up to the length bound over a small alphabet with all separators up to length 3; long strings',
  'Empty separator and repeated separators at the ends are not tested.',
  (I + 'utils/string_tools.h',), [{'name': 'find loop', 'where': 'slamuk::split'}])
P('P15', 'Switch variable stays in [0,1] and undo restores it',
  'The switch variable of a robust constraint always lies between 0 and 1 after any optimiser step, whatever the step, and moves by exactly the step when that stays inside. Saving and restoring its value in stack order gives back the value at the time of saving, all ways of reading it agree, and it survives being written to and read from a stream.',
  ['histories', 'inputs'], 'all sequences of steps, sets, push, pop and discard up to the depth bound; a grid of values times steps',
  'The optimiser undoes rejected steps, so the value after push/step/pop matters; no test does this.',
  ('src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp', I + 'slam_optimizer/switchable_constraints/vertex_switchLinear.h'), [{'name': 'clamped update', 'where': 'VertexSwitchLinear::oplusImpl'}])
P('P16', 'Switchable loop constraint: scaled error, true derivatives, faithful I/O',
  'The error of a switchable loop constraint is the ordinary relative pose error multiplied by the switch value, and its three derivative blocks are the derivatives of that error; a switch of zero removes the influence of the constraint on the poses. The switch prior pulls towards its target with exactly the stated error and derivative, and writing and reading either kind restores measurement and information.',
  ['inputs', 'histories'], 'the product of pose, measurement and switch alphabets; all short histories of measurement changes; prior values on a grid',
  'No test instantiates these edges.',
  ('src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp', 'src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp', I + 'slam_optimizer/switchable_constraints/edge_se2Switchable.h', I + 'slam_optimizer/switchable_constraints/edge_switchPrior.h'), [{'name': 'error and linearisation', 'where': 'EdgeSE2Switchable::computeError, linearizeOplus'}])
P('P17', 'Max-mixture constraint uses the most likely component',
  'A mixture constraint always evaluates to the error and information of the component with the highest weighted likelihood at the current poses, re-chosen whenever the poses change, with ties and single components handled. Its derivatives belong to the chosen component, initialising it again replaces the old components, and writing and reading restores all components and weights.',
  ['inputs', 'histories', 'configurations'], 'all mixtures of up to three components from the measurement, information and weight alphabets, all pose changes between evaluations up to the depth bound',
  'Which component wins depends on poses, information and weights together; no test builds a mixture.',
  ('src/slam_optimizer/max_mixture/edge_se2_mixture.cpp', 'src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp', I + 'slam_optimizer/max_mixture/edge_se2_mixture.h', I + 'slam_optimizer/max_mixture/edge_se2_pointxy_mixture.h'), [{'name': 'component selection', 'where': 'computeError / UpdateBelief'}])
P('P18', 'Registration line search and score helpers compute what they state',
  'In the line search of the scan registration the next trial step is the safeguarded minimiser of the interpolating polynomials in each of its four cases, in both directions, and the interval update keeps the best point at its first end and reports convergence exactly for a stationary point. The helper functions for the sufficient decrease condition, the Gaussian fit of the outlier mixture, sums of scores and conversion between pose vectors and matrices compute their definitions.',
  ['inputs'], 'the product of alphabets of steps, values and slopes for all four cases and both directions; all outlier ratios in percent with several resolutions; all short sums',
  'No test calls these helpers; each case needs its own sign pattern.',
  (I + 'registration/ndt_reg_tools.h',), [{'name': 'More-Thuente trial value and interval', 'where': 'ndt_reg::trialValueSelectionMT, updateIntervalMT'}])
P('P19', 'Covariance of concatenated motions follows first-order propagation',
  'Adding a relative motion with its covariance to an accumulated pose covariance gives the first-order propagated covariance of the composed pose: symmetric, positive semidefinite, and heading variances add up. Chains of motions accumulate accordingly, and an initial wrapper holds the covariance it was given.',
  ['inputs', 'histories'], 'all pairs from the covariance alphabet with all motions of the alphabet and all chains up to the depth bound',
  'No test covers covariance accumulation.',
  (I + 'utils/covariance_wrapper.h',), [{'name': 'Jacobian propagation', 'where': 'CovarianceWrapper::addToCovar'}])

N = (I + 'ndt/ndt_grid2d.h',)
P('P20', 'NDT map: merging equals fusing cell distributions in the map frame',
  'After scans, other maps or lists of cells were merged into a map, every cell with a distribution holds exactly the fusion, in arrival order, of all distributions whose mean falls into it once expressed in the frame of the map; scans are cut into cells in the frame of the map and cells with too few points contribute nothing. A map that may not grow ignores what lies outside and keeps its extent, one that may grow (or is still empty) covers everything and moves nothing. Traced merging lowers or raises the occupancy of exactly the cells on the ray from the place of the scan to each distribution, maps that were merged from stay unchanged, and copies of a map are independent of each other.',
  ['histories', 'inputs', 'configurations'], 'all histories of merges of scans, maps and lists (traced or not, growing or not), initialisation, enlarging, clearing and moving the origin up to the depth bound, over several origins, cell sizes and scan poses including rotated ones',
  'The headers of the map are not compiled by any test here; the result depends on order, frame, growth and what was merged before.',
  N + (I + 'ndt/voxel_grid2d.h', I + 'utils/point_cloud_tools.h'), [{'name': 'merging', 'where': 'NDTGrid2D::mergeIn, mergeInTraced, createGrid'}], [{'name': 'grid_, means_, kdtree_', 'meaning': 'cells and their index'}])
P('P21', 'NDT map: shifting and turning keep cells where they are in the world',
  'Moving a map without rotation shifts its frame by the largest whole number of cells towards zero along each axis, reports the rest (and the rotation) as not applied, moves every distribution by exactly the opposite of the shift in the frame of the map, so that in the world nothing moves, and forgets what leaves the extent; a rotated map refuses and stays as it was. Transforming turns every distribution about the origin of the map, fuses those that fall into one cell, forgets cells without distribution and shifts the origin.',
  ['histories', 'inputs'], 'all histories of shifts, transforms, merges and clearing up to the depth bound from maps with several contents; a lattice of single shifts there and back including whole multiples of the cell and shifts past the extent',
  'Sign and rounding of the shift depend on direction and on exact multiples of the cell; no test moves a map.',
  N, [{'name': 'shift and turn', 'where': 'NDTGrid2D::move, transform'}], [{'name': 'origin_', 'meaning': 'pose of the map'}])
P('P22', 'NDT map: neighbour queries see exactly the present cells',
  'For a point inside the map a radius query reports exactly the cells with a distribution whose mean lies within the radius (at radius zero the own cell), each once; for a point outside it reports nothing. A query for K nearest reports the min(K, present) cells with a distribution whose means are closest, nearest first. Both hold right after every operation, including merging, clearing, shifting, turning and copying, and every reported cell belongs to the map that was asked.',
  ['inputs', 'histories'], 'a lattice of query points in and around maps built in eleven ways, eleven radii and five K; all placements of up to two (thorough: three) cells with means within the rounding of a float of the borders of their cells; all histories up to the depth bound with queries after each step',
  'The index has to be rebuilt by every operation that changes cells; a stale index shows only for particular histories.',
  N, [{'name': 'neighbour search', 'where': 'NDTGrid2D::getNeighbors, getKNearestNeighborsKDTree, updateKDTree'}], [{'name': 'kdtree_, means_', 'meaning': 'index over the means'}])
P('P23', 'NDT map: exported occupancy grid, message and coarser map match the map',
  'The occupancy grid of a map has one value per cell, row by row from the top left one, unknown for cells that do not exist, occupied for those whose occupancy exceeds the threshold and free otherwise, with size, resolution, centre and world pose of its top left corner that agree with the map. The message lists every existing cell with its distribution, occupancy and number of points together with size and pose, and a coarser map holds per coarse cell the fusion of the fine cells whose means lie in it, never with a finer resolution than the map.',
  ['histories', 'configurations'], 'all histories of building operations up to the depth bound over three poses, three cell sizes, and five resolutions of the coarser map',
  'Corner and indexing matter only for lopsided extents and rotated origins; nothing tests the exports.',
  N + (I + 'ndt/output_msgs.h', 'src/ndt/ndt_cell.cpp'), [{'name': 'exports', 'where': 'NDTGrid2D::createOccupancyGrid, serialize, createCoarserGrid, NDTCell::serialize'}])
P('P24', 'Global map is its frames merged in the order of their capture times',
  'Adding a frame merges it into the global map right away; recalculating gives the map that results from merging all present frames, at their current poses and each with its rays, in the order of their capture times. Removing, moving and combining frames act on exactly the named frame and show with the next calculation, a combined frame holds both and carries the time of the second, and unknown frames are refused without any change. The published occupancy message and the cloud of means are those of the last calculation, with time, size, resolution and pose.',
  ['histories'], 'all histories of adding (in and out of capture order), removing, moving, combining and recalculating up to the depth bound over four frames, with the map compared after every step; all headings on a grid for the pose message',
  'Half of the class could not even be compiled when used; the order of capture and arrival differs only in loop closure runs.',
  (I + 'ndt/ndt_mapper.h', I + 'utils/msgs_conversions.h', I + 'ndt/ndt_grid2d.h'), [{'name': 'frame bookkeeping', 'where': 'NDTMapper::addFrame, removeFrame, updateFrame, combineFrames, recalc'}], [{'name': 'grids_, map_ndt_', 'meaning': 'frames and their merged map'}])

P('P25', 'Loop closure search tries exactly the nearby earlier poses, each once',
  'A search for loop closures from a pose asks the matcher about exactly those poses that are reachable against the direction of the constraints, lie closer than the distance limit and are connected by a path at least as long as the path limit; each is tried at most once, at most fifty are tried, and the only initial guess is the difference of headings. Every accepted match becomes a loop closure from the pose to the matched one with the motion and information of the matcher, rejected ones become nothing, and the graph is left unchanged so that the search can be repeated. Adding loop closures creates temporary loop constraints with these values, and removing them leaves the other constraints alone.',
  ['inputs', 'histories', 'configurations'], 'all graphs with three, four and five poses where each pair has no constraint or one in either direction, over places, lengths, limits and matcher answers, from every start; chains up to 75 poses; all histories of growing, searching, adding and removing up to the depth bound',
  'No test runs the detector; unreachable poses and several paths to one pose need particular graphs.',
  (I + 'slam_optimizer/loop_detector.h', I + 'slam_optimizer/graph_slam_interfaces.h', I + 'slam_optimizer/pose_graph.h'), [{'name': 'backward search', 'where': 'LoopDetector::genLoopClosures, genPossibleEdges, isCloseMatch'}], [{'name': 'visited and used marks', 'meaning': 'progress of the search in the graph'}])
P('P26', 'Slam back end keeps its graph and optimises it to the least-squares optimum',
  'Every pose and constraint handed in is found again under its number with its data, ends, motion and information, the last-constraint shortcut joins the last two poses, and requests naming unknown poses are refused without effect. Loop closing adds exactly the accepted matches of poses that qualify, as loop constraints, and says whether there were any; the arrows and the text export show exactly the present poses and constraints, odometry red and loops green. Optimising leaves the first pose and poses without constraints where they are and moves the others, together with their data, to the least-squares optimum of the constraints, again after every later change and however often it is repeated; the back end can then be destroyed cleanly.',
  ['histories', 'inputs'], 'all sets of extra constraints in either direction over chains and stars of two to four (thorough: five) poses with consistent and contradicting constraints; all histories of adding poses and constraints, loop closing, optimising and refused requests up to the depth bound',
  'No test builds the back end; repeated optimisation and loop closing between optimisations need histories.',
  (I + 'slam_optimizer/slam2d.h', I + 'slam_optimizer/loop_detector.h', I + 'slam_optimizer/pose_graph.h'), [{'name': 'graph and optimiser in step', 'where': 'Slam2D::addPose, addConstrain, tryLoopClose, updatePoseGraph'}], [{'name': 'graph_, id_to_g2o_vertex_', 'meaning': 'own graph and its copy in the optimiser'}])

P('P27', 'Distribution-to-distribution registration climbs the right score',
  'The score of a transformation is the sum over the distributions of the moved source of the likelihoods of its two nearest target distributions; its reported slope and curvature are exactly those of that score, whatever the number of threads. An alignment works from the coarsest to the finest layer, each starting where the last one ended with the constants of its own cell size; every step is taken along the Newton direction turned uphill, within the step limits, until a step is short enough or the iterations are used up. The result is a rigid motion, the output is the input moved by it, probability, iterations, information and covariance describe the last step; scans without any overlap are reported as not aligned. Scans of the same place are found back, and nothing of an earlier alignment influences a later one.',
  ['inputs', 'histories', 'schedules'], 'all combinations of scenes, cell sizes, layers, transformations, guesses around four sensor poses, step limits and 1..3 (thorough: 5) threads; all orders of all subsets of the settings, on new objects and on used ones; all histories of inputs, settings and alignments on one object up to the depth bound',
  'The only registration test compares a few recorded scans; a wrong derivative or a state that survives an alignment only shows for some scenes, guesses or orders.',
  (I + 'registration/d2d_ndt2d.h', I + 'registration/ndt_reg_tools.h'), [{'name': 'Newton ascent over layers', 'where': 'D2DNormalDistributionsTransform2D::computeTransformation, computeSingleGrid, calcScore, computeStepLengthMT'}], [{'name': 'transformation_, inform_matrix_, trans_probability_', 'meaning': 'result of the last alignment'}])

P('P28', 'Point-to-distribution registration climbs the right score',
  'The score of a transformation is the sum over the moved points of the likelihoods under their four nearest target distributions in the plane; its slope and curvature are those of that score. Layers, steps, stopping, result, output, reported figures and repeated use behave as for the registration of distributions, and scans of the same place are found back closely.',
  ['inputs', 'histories'], 'all combinations of scenes, cell sizes, layers, transformations, guesses around the sensor poses and step limits; all orders of all subsets of the settings, on new objects and on used ones; all histories of inputs, settings and alignments on one object up to the depth bound',
  'No test covers the derivatives, which decide where the search goes, nor repeated use of one object.',
  (I + 'registration/ndt2d.h', I + 'registration/ndt_reg_tools.h'), [{'name': 'Newton ascent over layers', 'where': 'NormalDistributionsTransform2DEx::computeTransformation, computeSingleGrid, calcScore, calcPointScore'}], [{'name': 'transformation_, inform_matrix_, trans_probability_', 'meaning': 'result of the last alignment'}])

P('P29', 'Correlative search returns the best candidate over the smeared target',
  'The lookup table counts a point by the smearing kernel at its offset from the target points, the strongest one deciding, with a full count for a hit and none outside the table; scores of clouds, of their cell indexes and of moved indexes agree with that, as does a table that is filled again. The search returns the candidate of the stated grid of translations and rotations that scores highest, composed with the guess, for any number of threads and however often it is used.',
  ['inputs', 'configurations', 'schedules'], 'all targets of up to three (thorough: four) points of the alphabet with all cell sizes and deviations and query points on a grid; all combinations of scenes, sensor poses, guesses, steps, ranges and 1..3 (thorough: 4) threads with every candidate scored',
  'No test covers the search; an offset of one cell or a lost guess gives plausible but wrong starting points.',
  (I + 'registration/correlative_estimation_tools.h', I + 'registration/correlative_estimation2d.h'), [{'name': 'exhaustive search over a lookup table', 'where': 'LookUpTable::initGrid, getScore, toIndexes, transformIndexes; CorrelativeEstimation::computeTransformation'}], [{'name': 'table_', 'meaning': 'smeared target'}])

P('P30', 'Robust registration and loop matcher accept only good enough matches',
  'The robust registration first aligns from the guess; a match whose share of source on target is good ends there, otherwise a coarse search supplies another start and the better founded of the two results is taken. A match is accepted exactly when one of the two attempts reaches the rejection limit, never below it; the reported quality belongs to the reported motion, and the output is the input moved by it. Limits outside of the open interval from zero to one are refused without effect, settings are reported as they were set, and nothing of earlier uses influences a later one. The loop matcher passes on verdict, motion and quality with a positive information matrix, wherever the frames are believed to be, and changes neither frame.',
  ['inputs', 'histories', 'configurations'], 'all combinations of rooms seen again or not, sensor poses, errors of the guess, limits, inputs as clouds, maps or maps of other cell sizes; all sequences of limits including invalid and non-finite ones; all histories of inputs, settings and alignments up to the depth bound; all scan matches over rooms, thresholds, frame origins and earlier use',
  'No test runs it; whether a match is accepted depends on the scores of two attempts that only some places and guesses need.',
  (I + 'registration/d2d_ndt2d_robust.h', I + 'slam_optimizer/ndt_scanmatcher.h'), [{'name': 'two attempts and their verdict', 'where': 'D2DNormalDistributionsTransform2DRobust::computeTransformation, proofTransform, NdtScanmatcher::match'}], [{'name': 'rejection_limit_, converged_, alignment_quality_', 'meaning': 'limit and verdict'}])

P('P31', 'Parallel parts are free of data races and do not depend on the schedule',
  'Scoring of the distribution registration and the correlative search do their work in parallel teams. For every size of the team, every order in which its members run, and also when the runtime grants fewer members than asked for, no two members access the same memory without synchronisation unless both only read, and score, derivatives, result and verdict are the same as with one member up to rounding.',
  ['schedules', 'configurations'], 'all orders in which the members of a team of one to four run their parts, with full and reduced teams, for all small scenes of the alphabet; every access of the instrumented code is recorded and checked for races by happens-before, so that one order stands for all interleavings of a team',
  'Races on partial results only show for particular schedules, and the tests run single threaded stand-ins.',
  (I + 'registration/d2d_ndt2d.h', I + 'registration/correlative_estimation2d.h', I + 'registration/correlative_estimation_tools.h'), [{'name': 'parallel loops', 'where': 'D2DNormalDistributionsTransform2D::calcScore; CorrelativeEstimation::computeTransformation'}], [{'name': 'per-member partial results', 'meaning': 'scores, gradients, Hessians and best candidates of each member'}])

P('P32', 'The slam algorithm keeps pose, frames, graph and maps consistent',
  'After the first scan every motion counts exactly once: short motions are added up and reported by odometry alone, longer ones are corrected by registration against the running window, and when that fails odometry is used. A frame ends when the robot went further than the limit; it is handed to the graph where it started, joined to the one before by the motion and uncertainty collected since, and holds exactly the scans taken in it, traced from where they were taken. Loops are looked for once per frame, and when the graph moves its poses the frames, the map and the robot move with it. Map, cloud and graph exports show the frames as they are now, window exports the surroundings with the number and time of the last registered scan; limits for loops reach the graph. With its own graph and matcher a robot that drives around in a room is found where it is.',
  ['histories', 'configurations'], 'all sequences of motions (short, long, turning, odometry with and without error) and scans (room, elsewhere, nothing) up to the depth bound with graphs that find no loop, find one, or find one and move; all combinations of rooms, ways, odometry errors and loop limits with the graph of its own',
  'No test runs the algorithm; motion that is lost or counted twice needs short motions or failed registrations followed by others.',
  (I + 'ndt_slam_algorithm.h', I + 'slam_algorithm_interface.h'), [{'name': 'odometry, registration, frames and graph', 'where': 'NdtSlamAlgortihm::update, updateGraph, movedEnough, toNdtMapMsg'}], [{'name': 'position_, position_cumul_, unused_trans_, transform_temp_, last_matcher_pose_', 'meaning': 'pose in the graph, in the window, motion not yet used, motion in the frame'}])
P('P33', 'The node uses every usable scan once and publishes where the robot is',
  'A scan is usable when the transforms from laser to robot and from robot to odometry are known at the time of its message and at least 400 valid readings remain. Every usable scan reaches the algorithm exactly once, with the points in the frame of the robot, the time of the message, the motion of odometry since the scan used before (none for the first) and the covariance of x, y and heading taken from the message, or 1e-4 on the diagonal when scans come alone; scans that are not usable change nothing. After every message exactly one transform from the map frame to the odometry frame is sent, with the time of the message: it puts the odometry pose of the last used scan at the pose the algorithm reported for it, and is the identity before the first. Maps, window, clouds and (unless switched off) the graph are published once per used scan after the first, in the map frame and from after the update, and never without a new scan. Parameters, their defaults and the prefix of frames are used as given. Started as a program with its own algorithm it finds a robot with bad odometry where it is.',
  ['histories', 'configurations'], 'all sequences of scans (usable, from either laser, transforms late or missing, too few or no readings, algorithm correcting odometry or not) in all four subscription modes up to the depth bound; all subsets of parameters, prefixes and modes; all combinations of modes, ways, odometry errors and failing transforms with the whole program',
  'No test runs the node; lost motion or a stale transform needs a scan that cannot be used between two that can.',
  ('src/graph_slam2d_node.cpp', I + 'graph_slam2d_node.h', I + 'slam_algorithm_interface.h'), [{'name': 'callbacks, transforms and publishing', 'where': 'GraphSlamNode::initParameters, prepareAllData, doAlgorithm, updateTFTrans, publishTF'}], [{'name': 'last_odom_, last_pose_, world_tf_trans_, is_ready_', 'meaning': 'odometry of the last used scan, pose reported for it, transform sent, first scan seen'}])
P('P34', 'Constraints between poses in space behave like their planar counterparts',
  'A mixture of constraints between poses in space evaluates to the error, information, vertices and derivatives of its most likely component, chosen anew whenever poses change; a new one has chosen none, initialising or reading it again replaces the old components, and writing and reading restores components and weights. A switchable constraint in space can be made, its error is the ordinary one times the switch, its derivatives are those of that error, and writing and reading restores measurement, whatever length the rotation was written with, and information.',
  ['inputs', 'histories', 'configurations'], 'all mixtures of up to three components from the alphabets of measurements, information and weights, all changes of poses and operations up to the depth bound; the product of the alphabets of poses, measurements and switches; all histories of measurement changes up to the depth bound',
  'No test instantiates these constraints, and the build of the tests leaves them out.',
  ('src/slam_optimizer/max_mixture/edge_se3_mixture.cpp', I + 'slam_optimizer/max_mixture/edge_se3_mixture.h', 'src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp', I + 'slam_optimizer/switchable_constraints/edge_se3Switchable.h'), [{'name': 'choice of the component', 'where': 'EdgeSE3Mixture::computeError, UpdateBelief, initializeComponents, read, write'}, {'name': 'scaled error', 'where': 'EdgeSE3Switchable::computeError, linearizeOplus, read, write'}], [{'name': 'bestComponent, determinants', 'meaning': 'chosen component, normalisation of each'}])

P('P35', 'Graphs with robust constraints survive being saved and loaded',
  'Every kind of robust constraint and the switch variable is known to g2o by its documented name and saved under it. A graph that holds any of them, with every vertex also part of an ordinary constraint, is the same graph after it was saved to a file and loaded: the same vertices of the same kinds at the same places, fixed ones still fixed, and the same constraints between the same vertices with the same information, error, components, weights and best component, up to the digits in the file. Saving what was loaded gives such a file again.',
  ['histories'], 'all sequences of up to five (thorough: six) constraints of all kinds in graphs near and far from the origin, each saved, loaded, saved and loaded again, also into a graph that was used before',
  'No test saves a graph; a wrong name or one value too many shows only when the file is read back.',
  ('src/slam_optimizer/max_mixture/types_g2o_mixture.cpp', 'src/slam_optimizer/switchable_constraints/types_g2o_robust.cpp', 'src/slam_optimizer/max_mixture/edge_se2_mixture.cpp', 'src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp', 'src/slam_optimizer/max_mixture/edge_se3_mixture.cpp', 'src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp', 'src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp', 'src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp'), [{'name': 'registered names', 'where': 'G2O_REGISTER_TYPE in types_g2o_mixture.cpp, types_g2o_robust.cpp'}, {'name': 'reading and writing', 'where': 'read and write of each kind'}])

NOT_APPLICABLE = {}
