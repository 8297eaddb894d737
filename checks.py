# One entry per property: its statement, how it is decided, and how its harness is built.
# tools/gen.py writes properties.jsonl and MANIFEST.json from this file.
MC = dict(flags=["-fsanitize=thread", "-fno-builtin-memcpy"], plain=["lib/mc.cpp"], ldflags=["-rdynamic"])

T_SCHED = "stateless model checking of the real code: all thread interleavings up to a preemption bound"
T_SEQ = "explicit-state exploration of the real code: all operation sequences up to a depth against a reference model"
T_INPUT = "bounded exhaustive enumeration: the real code on every input of a finite lattice against an independent oracle"
A_SCHED = ["scheduling points at atomic, mutex, condition variable and thread operations; plain accesses are checked for races with vector clocks on every schedule, so interleavings at plain accesses need not be enumerated",
           "atomics are executed in a sequentially consistent order; weaker orders are judged through the happens-before relation they create",
           "the schedules covered are those of the listed thread and job counts within the stated preemption bound"]
A_SEQ = ["the state space is bounded by the alphabet and depth stated in bounds"]
A_INPUT = ["inputs outside the enumerated lattice are not covered", "single precision scalars, the default build setting, unless the part says double"]

CHECKS = {}


def prop(pid, title, statement, over, text, why, files, mechanism, parts, rule, bounds, thorough=None,
         technique=T_SEQ, level="model_checking", assumptions=None, observe=None, note=None):
    CHECKS[pid] = dict(
        title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
        parts=parts, rule=rule, bounds_quick=bounds, bounds_thorough=thorough or bounds, technique=technique,
        level=level, observe=observe,
        assumptions=assumptions or {T_SCHED: A_SCHED, T_SEQ: A_SEQ, T_INPUT: A_INPUT}.get(technique, A_SEQ),
        note=note or bounds)


NOT_CLAIMED = {}

JOBS_FILES = ["src/edyn/parallel/job_dispatcher.cpp", "src/edyn/parallel/job_queue.cpp", "include/edyn/parallel/worker.hpp",
              "include/edyn/parallel/job_queue.hpp", "include/edyn/parallel/job_dispatcher.hpp"]

prop("P01", "Every job submitted to a running dispatcher runs exactly once",
     "While a job dispatcher is running, every job handed to it by any thread, including by another job, is executed exactly once, with the bytes it was submitted with. The job sees everything its submitter wrote before submitting, and whoever observes its completion through proper synchronisation sees its effects. No submission deadlocks, races or leaves a job waiting forever.",
     ["schedules", "configurations"], "every interleaving of submitters and workers, every number of workers, submitters and nested submissions",
     "the repository has no test of the dispatcher, and a test run samples a few OS schedules out of millions",
     JOBS_FILES, [("jobs are assigned to a worker and counted before they become visible", "include/edyn/parallel/worker.hpp push_job/run"), ("worker selection", "src/edyn/parallel/job_dispatcher.cpp async"), ("queue hand-over", "src/edyn/parallel/job_queue.cpp push/pop")],
     [dict(harness=["job_dispatch.cpp"], **MC)],
     "every execution is one complete thread schedule of a driver with 1-3 workers and 1-3 submitters on the real dispatcher; all are distinct by construction and non-trivial because all threads share the dispatcher",
     "12 drivers of 1-3 workers, 1-3 submitters, 1-3 jobs each (nested submission included); 1-3 preemptions, up to 2 spurious wake-ups",
     "15 drivers, 1-5 preemptions", technique=T_SCHED)

prop("P02", "Starting and stopping the worker pool always terminates cleanly",
     "Stopping or destroying a job dispatcher returns under every schedule, whatever jobs are queued, running or not yet picked up and even if its threads have not begun yet; it can be started again afterwards. Once stop has returned no job runs any more, no job has run twice, the effects of jobs that did run are visible, and the reported running state and number of workers are right.",
     ["schedules", "histories"], "every interleaving of start, submit, stop and destruction with the worker threads",
     "no test starts or stops a dispatcher; a lost stop request needs a thread to be delayed at one particular point",
     JOBS_FILES + ["src/edyn/context/start_thread.cpp"], [("the stop request and the wake-up job", "include/edyn/parallel/worker.hpp stop/run"), ("join of all threads", "src/edyn/parallel/job_dispatcher.cpp stop"), ("background thread start", "src/edyn/context/start_thread.cpp")],
     [dict(harness=["dispatcher_lifecycle.cpp"], **MC)],
     "every execution is one complete thread schedule of start/submit/stop/destroy drivers on the real dispatcher, of worker::once and of the background thread starter; all distinct",
     "24 start/stop drivers with 1-3 workers, 0-2 jobs, 1-2 rounds, 1-4 preemptions; 10 worker drivers; 2 thread starter drivers",
     "the same drivers with 2-5 preemptions", technique=T_SCHED)

prop("P03", "The job queue is a lossless FIFO that always wakes its consumers",
     "Under any interleaving of producers and consumers, each job pushed into the queue is popped exactly once and unchanged, the jobs of one producer are seen in order by any single consumer, and a sequential history behaves like a plain first-in first-out queue. A consumer that blocks on an empty queue is woken when a job arrives, and spurious wake-ups never yield a job that does not exist.",
     ["schedules", "histories"], "every interleaving of pushes, blocking pops, non-blocking pops and size queries, including spurious wake-ups",
     "the repository has no test of the queue",
     ["src/edyn/parallel/job_queue.cpp", "include/edyn/parallel/job_queue.hpp"], [("mutex-protected deque with condition variable", "src/edyn/parallel/job_queue.cpp push/pop/try_pop")],
     [dict(harness=["job_queue.cpp"], **MC)],
     "every execution is one complete schedule of producers and consumers on the real queue, or one sequential operation history; all distinct",
     "1-3 producers, 1-2 blocking and 0-1 polling consumers, up to 3 preemptions, up to 2 spurious wake-ups; all sequential histories of length 8",
     technique=T_SCHED)

prop("P04", "Waiting on a completion counter returns exactly when the work is done",
     "A thread that waits on a completion counter resumes only after the counter was decremented as often as its initial count, always resumes once that has happened, and then sees all effects that preceded the decrements. The waiter may destroy the counter as soon as its wait returns.",
     ["schedules"], "every interleaving of decrementing threads and the waiting thread",
     "no test uses the counter; a missed wake-up or a use after destruction needs a specific interleaving",
     ["include/edyn/parallel/atomic_counter_sync.hpp"], [("decrement under the mutex with notification", "include/edyn/parallel/atomic_counter_sync.hpp decrement/wait")],
     [dict(harness=["counter_sync.cpp"], **MC)],
     "every execution is one complete schedule of 1-3 decrementing threads and a waiter that destroys the counter",
     "1-3 decrementing threads, up to 4 preemptions, up to 2 spurious wake-ups", technique=T_SCHED)

prop("P07", "Slot container indices stay stable, unique and reusable",
     "In the slot container behind the engine's graph, an insertion returns an index that no live element uses, an element keeps its index and value until it is removed, removal and clearing touch nothing else, and freed slots hold a default value until they are reused. The element count is always the number of live elements and all live indices lie within the reported range.",
     ["histories"], "every sequence of insertions, removals and clears",
     "the container is not tested at all; corruption of its free chain shows only after particular orders of removal, clear and growth",
     ["include/edyn/core/free_list.hpp"], [("chain of free slots threaded through the elements", "include/edyn/core/free_list.hpp insert/remove/clear")],
     [dict(harness=["free_list.cpp"], lib="none", san=True)],
     "all operation sequences from 0-224 prefilled elements around the growth boundaries; every state compared with a reference map",
     "depth 4-6 after prefills of 0,1,2,3,14-17,30-33 (size_t index), 0,15,16,31,32 (32 bit), 0..224 (8 bit); insertion, removal of first/second/middle/last, clear",
     "depth 6-8 after the same prefills")

prop("P12", "Material mixing depends on the pair, not on its order",
     "The material assigned to a pair of material ids is found for that pair in either order and for no other pair, whatever was inserted or removed before, in any order. Mixing rules for materials without an entry are symmetric: geometric mean for friction, minimum for restitution, maximum for spin and roll friction, springs in series for stiffness and damping.",
     ["histories", "inputs"], "every sequence of insertions and removals over pairs of ids in both orders; every pair of coefficients",
     "no test touches the table; the defect found here needed three particular ids in one table",
     ["include/edyn/core/unordered_pair.hpp", "include/edyn/dynamics/material_mixing.hpp"], [("order-independent comparison of pairs", "include/edyn/core/unordered_pair.hpp operator<"), ("map from pairs to materials", "include/edyn/dynamics/material_mixing.hpp")],
     [dict(harness=["material_table.cpp"], lib="none", san=True)],
     "all insert/remove sequences over 3 ids in both orders; all subsets of the pairs over 4 ids; all pairs and triples of pairs for the ordering laws; all pairs of 13 coefficient values",
     "sequences of depth 4 over two id sets; 1024 subsets x 4 orders; 625 pairs x 25 third pairs; 169 coefficient pairs",
     "sequences of depth 5")

prop("P13", "Networked actions are taken over exactly once and in order",
     "However the packets carrying a client's action history overlap, get lost or arrive late, the receiver takes over every action at most once, unchanged and in order of time, and never misses one that is newer than those it took before; executing a prefix never drops or repeats the rest. A history or list of up to 255 actions arrives over an archive exactly as it was sent (of longer ones, the oldest 255). Merging lists of actions accumulates them in order, merging discontinuities adds their offsets and composes their rotations, and merging any other component replaces it.",
     ["histories", "fault_sequences"], "every history of acting, sending, losing, forgetting and executing",
     "no test covers the action history; duplicates or losses depend on how packets overlap",
     ["include/edyn/networking/comp/action_history.hpp", "include/edyn/comp/merge_component.hpp", "include/edyn/comp/action_list.hpp", "include/edyn/networking/comp/discontinuity.hpp"], [("merging of received histories", "include/edyn/networking/comp/action_history.hpp merge/erase_until/sort"), ("component merging", "include/edyn/comp/merge_component.hpp")],
     [dict(harness=["net_actions.cpp"], lib="none", san=True, entt=True, flags=["-Wno-changes-meaning"])],
     "all histories of the operations act, deliver, forget, execute; all timestamp sequences for erasing and sorting; every state compared with the list of first arrivals",
     "histories of depth 9; timestamp sequences of length 5 over 4 values; list sizes 0-4; transfers of 0-512 entries of 0-300 bytes; sequences of 4 discontinuities", "histories of depth 11; sequences of length 6; sequences of 6 discontinuities")

prop("P14", "A modified component stays scheduled for its full duration, then expires",
     "A component marked as modified is reported as recently modified until its duration has elapsed, measured from the last time it was marked, and is no longer reported afterwards. Each component is reported at most once, and marking or expiry of one component never affects another.",
     ["histories"], "every sequence of marks and elapsed times, up to all components being marked",
     "no test covers it; the defect found here needs all components to be marked at once",
     ["include/edyn/networking/comp/exporter_modified_components.hpp"], [("entries with remaining time, swapped out on expiry", "include/edyn/networking/comp/exporter_modified_components.hpp bump_index/decay")],
     [dict(harness=["modified_components.cpp"], lib="none", san=True)],
     "all sequences of marks and elapsed times for 1, 2, 3 and 5 components; every state compared with a reference map of remaining times",
     "depth 5 with 9 elapsed times for 1-3 components, depth 7 with 4 elapsed times for 5 components", "depth 6-8")

prop("P21", "Closest points between basic primitives are exact",
     "For points, lines, segments (degenerate ones included), discs, circles and boxes in any position, the closest points returned lie on their primitives at the returned parameters, their squared distance is the returned one, and no other pair of points is closer. When two parallel segments overlap, the two pairs returned are both closest pairs and span the overlap. Bases built from a normal are orthonormal, and support points are furthest along the given direction.",
     ["inputs"], "all positions of the primitives, degenerate ones included",
     "the tests sample a dozen positions; a slip in one clamp or branch only shows in the positions that reach it",
     ["src/edyn/math/geom.cpp", "include/edyn/math/geom.hpp"], [("closest point routines with clamping and degenerate branches", "src/edyn/math/geom.cpp")],
     [dict(harness=["geom_closest.cpp"], san=True)],
     "every combination of lattice points, orientations, axes and sizes; compared with closed forms in double precision; non-trivial: the primitive is not degenerate and the generic branch or a clamp is reached",
     "lattices of 30 points (27 for segment pairs), 13 orientations, 3 axes", "lattices of 67 points (64 for segment pairs)",
     technique=T_INPUT, level="exploration")

prop("P22", "Circle queries return points on the circles at the reported distance",
     "For circles and lines in any position, intersections lie on both curves and their number is right, tangent and concentric positions included. The points returned as closest between a circle and a line or another circle lie on their curves, are as far apart as the returned distance says and come with a unit normal. No other pair of points of the two curves is closer, up to a small tolerance.",
     ["inputs"], "all positions, orientations, axes and radii, degenerate ones included",
     "the tests sample a handful of positions, with the same axis for both circles",
     ["src/edyn/math/geom.cpp"], [("2D intersections and Newton searches", "src/edyn/math/geom.cpp intersect_line_circle, intersect_circle_circle, closest_point_circle_line, closest_point_circle_circle")],
     [dict(harness=["geom_circle.cpp"], flags=["-O2"])],
     "every combination of lattice positions, orientations, axes, radii; compared with a brute-force minimum over the circle in double precision; non-trivial: oblique position or actual intersection",
     "12096 2D lines, 9000 2D circle pairs, 66096 3D lines, 54288 3D circle pairs", "the same with more positions and orientations",
     technique=T_INPUT, level="exploration")

prop("P23", "Ray, segment and box intersections are found exactly when they exist",
     "Two segments, a line or segment and an axis-aligned box, two boxes, a ray and a sphere, a ray and a cylinder, and a segment and a triangle are reported to intersect exactly when they do, whatever their position and with touching treated consistently. The fractions and normals returned locate the first point of contact, on the primitive and on the ray. Enclosing, insetting and measuring boxes agree with their definition, and pairs of polyhedron edges form a face of the Minkowski sum exactly when their arcs cross.",
     ["inputs"], "all positions and directions, including axis-parallel, touching, degenerate and inside positions",
     "the tests sample one or two positions per routine",
     ["src/edyn/math/geom.cpp", "include/edyn/math/geom.hpp", "include/edyn/comp/aabb.hpp"], [("intersection routines", "src/edyn/math/geom.cpp intersect_segments, intersect_line_aabb, intersect_segment_aabb, intersect_ray_sphere, intersect_ray_cylinder, intersect_segment_triangle, intersect_aabb"), ("raycast helpers", "include/edyn/math/geom.hpp")],
     [dict(harness=["geom_intersect.cpp"], san=True)],
     "every combination of lattice points and sizes; compared with closed forms or interval clipping in double precision; non-trivial: the primitives intersect",
     "lattices of 16-125 points per end", "lattices with more values per coordinate",
     technique=T_INPUT, level="exploration")

prop("P24", "Hulls, containment and support polygons of point sets are right",
     "The 2D convex hull of any point set contains all its points, visits no point twice, turns counter-clockwise once around and has the same area as the true hull; collinear sets yield their end points. Containment in a convex polygon is decided by all its edges, and the closest point returned for a point outside lies on the boundary with no boundary point closer. A support polygon holds exactly the points of the cloud within the tolerance of the extreme plane, with a consistent projection to that plane and its hull.",
     ["inputs"], "all point sets, their orders, duplicates and collinear subsets; all query points and directions",
     "the tests do not cover these helpers beyond one polygon",
     ["src/edyn/util/shape_util.cpp", "include/edyn/util/shape_util.hpp"], [("quickhull in the plane", "src/edyn/util/shape_util.cpp calculate_convex_hull/split_hull_edge"), ("polygon queries", "src/edyn/util/shape_util.cpp point_inside_convex_polygon, closest_point_convex_polygon"), ("support polygons", "include/edyn/util/shape_util.hpp point_cloud_support_polygon")],
     [dict(harness=["shape_polygon.cpp"], flags=["-O2"])],
     "all sequences of grid points and all subsets of a skewed grid against a monotone chain hull; all hulls with query points inside, outside, on Voronoi borders; point clouds with all directions; non-trivial: more than three points, or the point is outside",
     "all sequences of 1-6 points of a 3x3 grid, all subsets of a 4x4 grid in two orders", "sequences of up to 7 points",
     technique=T_INPUT, level="exploration")

prop("P27", "Vector, quaternion and matrix algebra is sound",
     "The vector, quaternion, matrix and transform operations satisfy their defining equations for every input: products compose, conjugates and inverses invert, conversions between quaternions, matrices, Euler angles and axis-angle form represent the same rotation, and object and world space maps are inverse to each other. Integration of an orientation stays normalised and follows the angular velocity, spherical interpolation takes the shortest path at constant speed.",
     ["inputs"], "all vectors, orientations, matrices and angles",
     "the few math tests check a handful of values",
     ["include/edyn/math/vector3.hpp", "include/edyn/math/vector2.hpp", "include/edyn/math/quaternion.hpp", "src/edyn/math/quaternion.cpp", "include/edyn/math/matrix3x3.hpp", "include/edyn/math/transform.hpp", "include/edyn/math/math.hpp", "include/edyn/math/vector2_3_util.hpp"], [("operators and conversions", "include/edyn/math"), ("slerp and shortest arc", "src/edyn/math/quaternion.cpp")],
     [dict(harness=["math_algebra.cpp"], flags=["-O2"])],
     "all pairs of lattice vectors, all pairs of 130 quaternions, all matrices over three values, all triples of nine angles, 4001 scalars; compared with textbook formulas in double precision",
     "4096 vector pairs, 16000 quaternion pairs, 19683 matrices, 729 angle triples", "15625 vector pairs",
     technique=T_INPUT, level="exploration")

prop("P28", "A contact set keeps the points that support the contact best",
     "Whatever sequence of contact points is offered, the set never exceeds its capacity and only the reported index changes. A point within the merging distance is merged, a point that enlarges the supported area is taken, and a point inside the supported area is not. Of collinear points the two ends survive, and of five points the four that span the most area.",
     ["histories", "inputs"], "every sequence of offered points, including coincident and collinear ones",
     "the repository's tests do not touch it; the choice among five points has many branches that only specific positions reach",
     ["src/edyn/math/geom.cpp", "include/edyn/math/geom.hpp"], [("selection of the point to replace", "src/edyn/math/geom.cpp insertion_point_index")],
     [dict(harness=["contact_insert.cpp"], flags=["-O2"])],
     "all sequences of points out of three families of 8-10 positions, and all triples of collinear points with a fourth; every insertion compared with the best choice computed in double precision",
     "sequences of 6 points", "sequences of 7 points")

prop("P10", "A static bounding-volume tree reports exactly the boxes that overlap a query",
     "Built over any set of boxes, a static tree holds each of them in exactly one leaf and encloses it in every ancestor; box and ray queries visit every leaf whose box overlaps the query, never twice, and nothing else. Duplicates, degenerate boxes and any insertion order included.",
     ["inputs", "histories"], "all sequences of boxes, all queries",
     "the existing test samples one grid; a bad split or an off-by-one in the partition only shows for specific coincident or collinear boxes",
     ["include/edyn/collision/static_tree.hpp"], [("recursive median split and index partition", "include/edyn/collision/static_tree.hpp detail::recursive_build"), ("tree visits", "include/edyn/collision/static_tree.hpp visit/raycast")],
     [dict(harness=["static_tree.cpp"], san=True)],
     "all sequences of boxes out of a pool with coincident, nested, degenerate and disjoint ones, with all queries of a pool; reference is the linear scan",
     "see per_scenario_cases", "longer sequences")

prop("P11", "Triangle mesh topology, queries and surface coefficients are consistent",
     "A triangle mesh initialised from any set of triangles, in any order and starting vertex, has one edge per pair of connected vertices and one vertex neighbourhood that mentions each neighbour once; the adjacency between faces, edges and vertices is mutual, boundary and convex edges are classified by geometry, and adjacent normals come from the neighbouring face. Box and ray queries visit exactly the triangles that overlap. Per-vertex friction and restitution are interpolated on edges and faces between the values at their vertices.",
     ["inputs"], "all simplicial complexes built from a fixed vertex set, all rotations of their triangles, all queries",
     "the test loads a single closed mesh; boundary, non-convex and vertex-only contacts between triangles are not there",
     ["src/edyn/shapes/triangle_mesh.cpp", "include/edyn/shapes/triangle_mesh.hpp"], [("edge and neighbour tables", "src/edyn/shapes/triangle_mesh.cpp init_edge_indices..calculate_convex_edges"), ("queries", "include/edyn/shapes/triangle_mesh.hpp visit_triangles/raycast"), ("material coefficients", "src/edyn/shapes/triangle_mesh.cpp get_*_friction, get_*_restitution")],
     [dict(harness=["tri_mesh.cpp"], san=True)],
     "every sub-complex of a set of candidate triangles and every rotation of its triangles; tables compared with ones derived from the index list; coefficients compared with linear interpolation",
     "see per_scenario_cases", "larger complexes", technique=T_INPUT, level="exploration")

prop("P25", "Box features agree with each other in object and world space",
     "Vertex, edge and face indices of a box denote distinct features that fit together: face vertices turn counter-clockwise as seen from outside, the faces of an edge are adjacent to it and given in the order in which their normals turn around the edge, and world-space versions are the object-space ones moved. The support feature along a direction is the face, edge or vertex whose points are within the threshold of the furthest point, and the closest feature of a face to a point is the one closest to it.",
     ["inputs"], "all box sizes, positions, orientations, directions and thresholds",
     "the tests do not cover box features",
     ["src/edyn/shapes/box_shape.cpp", "include/edyn/shapes/box_shape.hpp"], [("feature tables", "include/edyn/shapes/box_shape.hpp"), ("feature queries", "src/edyn/shapes/box_shape.cpp")],
     [dict(harness=["box_features.cpp"], flags=["-O2"])],
     "all feature indices, box sizes, orientations and directions; compared with the enumeration of all corners in double precision",
     "see per_scenario_cases", "more orientations", technique=T_INPUT, level="exploration")

prop("P26", "Support points and projections of round and convex shapes are extreme",
     "The support point of a cylinder, capsule, sphere or convex polyhedron along any direction lies on the shape and no point of the shape is further along it; projections are the dot product of that point. The search over the neighbours of a convex mesh finds the same extreme as a scan of all vertices. The support feature of a cylinder is the cap, side edge or curved edge that contains all points within the threshold.",
     ["inputs"], "all axes, sizes, orientations, positions and directions",
     "no test covers the support functions beyond one direction",
     ["src/edyn/util/shape_util.cpp", "include/edyn/math/geom.hpp", "src/edyn/math/geom.cpp", "src/edyn/shapes/cylinder_shape.cpp", "include/edyn/util/shape_util.hpp"], [("support functions", "src/edyn/math/geom.cpp support_point_circle, src/edyn/util/shape_util.cpp *_support_point/*_support_projection"), ("cylinder features", "src/edyn/shapes/cylinder_shape.cpp")],
     [dict(harness=["support_map.cpp"], flags=["-O2"])],
     "all combinations of axes, sizes, orientations and directions; compared with closed forms and dense scans in double precision",
     "see per_scenario_cases", "more orientations", technique=T_INPUT, level="exploration")

prop("P32", "Triangle containment, support and axis clipping are right",
     "A point projected along the normal is reported inside a triangle exactly when it is on the inner side of its three edges. The support feature of a triangle along a direction is the vertex, edge or face within the tolerance of the furthest point, with the projection of that point. Axes are clipped to the Voronoi region of the feature they belong to: convex edges and their neighbours admit only directions between the adjacent normals.",
     ["inputs"], "all triangles, points, directions, tolerances and adjacent normals",
     "the tests do not cover these helpers",
     ["src/edyn/math/triangle.cpp", "include/edyn/math/triangle.hpp"], [("triangle helpers", "src/edyn/math/triangle.cpp point_in_triangle, get_triangle_support_feature, clip_triangle_separating_axis")],
     [dict(harness=["triangle_query.cpp"], flags=["-O2"])],
     "all lattice triangles, points, directions and combinations of adjacent normals; compared with definitions in double precision",
     "see per_scenario_cases", "more points", technique=T_INPUT, level="exploration")

prop("P15", "Prepared constraint rows are handed over complete, in order and unmixed",
     "Whatever constraints an entity has and however many rows they add, with or without friction, rolling and spinning rows, consuming them constraint by constraint yields exactly the rows added for that constraint, in order, with their flags, friction rows and options. A cleared buffer starts over: nothing of the previous step shows in rows added afterwards.",
     ["histories"], "all sequences of adding constraints and rows, flagging, consuming and clearing",
     "no unit test touches the buffer; a stale flag or option only shows when an element is reused in a certain order",
     ["include/edyn/dynamics/row_cache.hpp"], [("per-entity row buffer", "include/edyn/dynamics/row_cache.hpp constraint_row_prep_cache"), ("packed rows of an island", "include/edyn/dynamics/row_cache.hpp row_cache")],
     [dict(harness=["row_prep.cpp"], flags=["-O2"])],
     "all valid operation sequences from four starting fillings against a nested list; all distributions of rows over constraints",
     "depth 9 from four starts; distributions of up to 16 rows over up to 8 constraints", "depth 11")

prop("P16", "Constraint rows are solved within their limits and conserve momentum",
     "Preparing a row yields the inverse of its mass along the Jacobian and the velocity it has to correct, with restitution and error reduction. Solving a row in any state leaves its accumulated impulse within its limits and, unless it is at a limit, leaves no residual once the returned impulse is applied. The velocities of the two bodies always equal the response of their masses to the accumulated impulses, bodies without mass or inertia included. Friction impulses never exceed the friction coefficient times the normal impulse, and warm starting applies what was accumulated.",
     ["inputs", "histories"], "all Jacobians, masses, velocities, limits and orders of solving",
     "no unit test touches row solving; errors appear as drift or energy gain in particular configurations",
     ["src/edyn/constraints/constraint_row.cpp", "src/edyn/constraints/constraint_row_spin_friction.cpp", "src/edyn/constraints/constraint_row_friction.cpp", "include/edyn/constraints/constraint_row.hpp"], [("projected Gauss-Seidel step", "src/edyn/constraints/constraint_row.cpp solve/apply_row_impulse/prepare_row"), ("friction rows", "src/edyn/constraints/constraint_row_spin_friction.cpp, constraint_row_friction.cpp")],
     [dict(harness=["row_solve.cpp"], flags=["-O2"]),
      dict(harness=["row_friction.cpp"], entt=True, sources=["constraints/constraint_row_friction.cpp", "util/constraint_util.cpp"], flags=["-O2", "-ffunction-sections", "-fdata-sections"], ldflags=["-Wl,--gc-sections"])],
     "every combination of Jacobians, bodies, velocities, limits, impulses; all orders of solving three coupled rows; compared with double precision formulas",
     "6 Jacobians, 25 pairs of bodies, 4 velocity states, 6 limits; orders of length 6", "orders of length 8",
     technique=T_INPUT, level="exploration")

prop("P29", "Volumes and centroids of shapes, and generated meshes, are exact",
     "The volume of a sphere, box, cylinder, capsule, polyhedron or compound equals its geometric volume, and the centroid of a polyhedron its centre of mass, whatever its position, orientation, scale and the order of its faces and vertices. Generated box meshes are closed with all six faces counter-clockwise as seen from outside; generated plane meshes cover the plane once with triangles that face upwards.",
     ["inputs"], "all sizes, positions, orientations and mesh orders",
     "the tests do not cover these helpers",
     ["src/edyn/math/shape_volume.cpp", "src/edyn/util/shape_util.cpp", "include/edyn/util/shape_util.hpp"], [("volumes", "src/edyn/math/shape_volume.cpp"), ("centroid and mesh builders", "src/edyn/util/shape_util.cpp mesh_centroid/make_box_mesh, include/edyn/util/shape_util.hpp make_plane_mesh")],
     [dict(harness=["volumes.cpp"], flags=["-O2"])],
     "all combinations of sizes, 10 solids in all face starts and two face orders, 13 orientations, 3 positions and scales; compared with cone decompositions in double precision",
     "see per_scenario_cases", technique=T_INPUT, level="exploration")

S11N_ENGINE = dict(harness=["s11n_engine.cpp"], entt=True, san=True, flags=["-O0", "-Wno-changes-meaning"],
                   sources=["shapes/convex_mesh.cpp", "shapes/compound_shape.cpp", "util/aabb_util.cpp", "sys/update_rotated_meshes.cpp",
                            "networking/util/pool_snapshot.cpp", "replication/map_child_entity.cpp"])
S11N_FILES = ["include/edyn/serialization/memory_archive.hpp", "include/edyn/serialization/s11n_util.hpp", "include/edyn/serialization/math_s11n.hpp",
              "include/edyn/serialization/std_s11n.hpp", "include/edyn/networking/packet/*", "include/edyn/comp/*", "include/edyn/shapes/*"]

prop("P17", "What is written to a memory archive is read back equal",
     "For every serializable type (fundamental values, vectors, quaternions and matrices, standard containers, tuples and variants, components, shapes, constraints, actions and network packets) reading what was written yields an equal value, whatever the object read into held before, and consumes exactly the bytes that were written. Writing never alters the value, sequences of values do not affect each other, and the announced serialized size equals the number of bytes written.",
     ["inputs", "histories"], "all values of every serializable type, all previous contents of the destination, all sequences of values in one archive",
     "no stable test covers serialization, and a stale element or dropped member only shows for particular previous contents and sizes",
     S11N_FILES, [("archives", "include/edyn/serialization/memory_archive.hpp"), ("containers", "include/edyn/serialization/std_s11n.hpp"), ("per-type serialize functions", "include/edyn/**/*.hpp serialize")],
     [dict(harness=["s11n_basic.cpp"], entt=True, san=True, flags=["-O0", "-Wno-changes-meaning"], select=["s11n_fundamental", "s11n_math", "s11n_components", "s11n_shapes", "s11n_packets", "s11n_actions", "s11n_sequences"]),
      dict(harness=["s11n_std.cpp"], entt=True, san=True, flags=["-O0", "-Wno-changes-meaning"], lib="none", select=["std_vectors", "std_vector_bool", "std_maps", "std_compound", "std_variant_switch", "std_sizeof", "std_pointers"]),
      dict(S11N_ENGINE, select=["engine_components", "engine_constraints", "engine_collision_exclusion", "engine_packets", "engine_pool_types", "engine_convex"])],
     "every type with every value of a small alphabet per member, into every kind of used destination; every sequence of values; containers of all lengths over small alphabets plus lengths around the size limits",
     "see per_scenario_cases", technique=T_SEQ, level="exploration",
     assumptions=["containers are written with 16-bit sizes: the first 65535 elements of longer ones are kept by design", "EnTT is replaced by a stand-in with the same interface"])

prop("P18", "Damaged or truncated input never makes deserialization misbehave",
     "Reading any byte sequence (truncated at any point, with any byte replaced, or arbitrary) never reads outside of the buffer, never crashes, hangs or allocates out of proportion to the input, and a failure is reported by the archive, after which nothing more is consumed. Components of unknown type are skipped.",
     ["inputs", "fault_sequences"], "all byte sequences: all short ones, all truncations and all single-byte replacements of valid ones",
     "the tests only read back what they wrote",
     S11N_FILES + ["src/edyn/networking/util/pool_snapshot.cpp"], [("bounds checks of the archive", "include/edyn/serialization/memory_archive.hpp memory_input_archive"), ("container sizes", "include/edyn/serialization/std_s11n.hpp"), ("unknown pools", "include/edyn/networking/util/pool_snapshot.hpp")],
     [dict(harness=["s11n_basic.cpp"], entt=True, san=True, flags=["-O0", "-Wno-changes-meaning"], select=["s11n_any_input", "s11n_after_failure"]),
      dict(harness=["s11n_std.cpp"], entt=True, san=True, flags=["-O0", "-Wno-changes-meaning"], lib="none", select=["std_any_input", "std_mutations"]),
      dict(S11N_ENGINE, select=["engine_packet_damage"])],
     "all byte strings up to a length for each container type; every truncation and every byte value at every position of valid messages, under address and undefined behaviour sanitizers",
     "see per_scenario_cases", "longer byte strings", technique=T_SEQ, level="exploration",
     assumptions=["geometry inside a well-formed message (polyhedron topology) is trusted by the library and not part of the property", "EnTT is replaced by a stand-in with the same interface"])

PAGED = dict(harness=["mesh_pages.cpp"], entt=True, san=True, flags=["-O0", "-Wno-changes-meaning"],
             sources=["shapes/paged_triangle_mesh.cpp", "serialization/paged_triangle_mesh_s11n.cpp", "parallel/message_dispatcher.cpp"])

prop("P19", "Triangle meshes survive files and paging unchanged",
     "A triangle mesh written to memory or to a file and read back, into a fresh or used mesh, is the same mesh, with the announced size. A paged triangle mesh holds each triangle of the original in exactly one page of at most the requested size, with the normals, adjacent normals, edge convexity and vertex values of the whole mesh, whether it was just created or reloaded from embedded or external storage; queries find exactly what they find in the whole mesh. Pages are loaded when a query needs them, the cache never exceeds its vertex limit, the least recently visited pages go first, each change is reported once, and the thickness applies to pages loaded later.",
     ["inputs", "histories"], "all meshes, page sizes and storage modes; all sequences of queries, cache clearing and thickness changes",
     "the stable tests cover none of this; a wrong eviction or offset only shows for particular page sizes and visit orders",
     ["include/edyn/serialization/triangle_mesh_s11n.hpp", "include/edyn/serialization/static_tree_s11n.hpp", "include/edyn/serialization/file_archive.hpp", "src/edyn/serialization/paged_triangle_mesh_s11n.cpp", "src/edyn/shapes/paged_triangle_mesh.cpp", "include/edyn/shapes/create_paged_triangle_mesh.hpp"],
     [("mesh serialization", "include/edyn/serialization/triangle_mesh_s11n.hpp"), ("split into pages", "include/edyn/shapes/create_paged_triangle_mesh.hpp submesh_builder"), ("page cache", "src/edyn/shapes/paged_triangle_mesh.cpp load_node_if_needed/unload_least_recently_visited_node")],
     [PAGED],
     "every mesh with every page size, mode and destination compared feature by feature with the whole mesh; all operation sequences of a length on a small cache against a reference cache",
     "12 meshes of 1-32 triangles, page sizes from 1 to all; sequences of 5 operations with three cache limits", "14 meshes up to 128 triangles; sequences of 6 operations",
     assumptions=["pages are loaded synchronously", "EnTT is replaced by a stand-in with the same interface"])

prop("P20", "Meshes load from OBJ text as written",
     "Loading OBJ text or an OBJ file yields its objects in order with their names, vertices, vertex colors and faces, each object's indices relative to its own vertices; texture and normal indices, comments and other statements are ignored. Scale, rotation and translation are applied to each vertex in this order. Loaded as a triangle mesh, each polygon becomes a fan of triangles. Convex polyhedrons and compounds have their parts centred at their centroids and keep every vertex at its place. A missing file is reported.",
     ["inputs"], "all sequences of well-formed statements, all transforms",
     "no test loads an OBJ file with more than the common statements",
     ["src/edyn/util/shape_io.cpp", "include/edyn/util/shape_io.hpp"], [("line parser and face indices", "src/edyn/util/shape_io.cpp load_meshes_from_obj_stream/read_face_indices"), ("centring", "src/edyn/util/shape_io.cpp load_convex_polyhedrons_from_obj_stream")],
     [dict(harness=["obj_load.cpp"], entt=True, san=True, flags=["-Wno-changes-meaning"], sources=["shapes/convex_mesh.cpp", "shapes/compound_shape.cpp", "util/aabb_util.cpp", "sys/update_rotated_meshes.cpp"])],
     "all sequences of statements out of 15 kinds, from four starting files, and all combinations of up to three solids, under 8 transforms; the reference works on statements, not on text",
     "sequences of 4 statements from each start", "sequences of 5 statements",
     assumptions=["faces refer to vertices by positive indices of the same object", "statements are separated by single spaces as exporters write them", "EnTT is replaced by a stand-in with the same interface"])

prop("P31", "Nested arrays, runtime tuple access and vector helpers are faithful",
     "A flat nested array shows, for any order of starting nested arrays, appending and reserving, exactly the values appended to each nested array, also through copies. Visiting a tuple by a runtime index reaches the element of that index, and type indices are the positions of the types. Erasing a value from a vector removes all and only its occurrences and keeps the order.",
     ["histories", "inputs"], "all sequences of operations, all vectors, all tuple indices",
     "the tests do not cover these helpers",
     ["include/edyn/core/flat_nested_array.hpp", "include/edyn/util/tuple_util.hpp", "include/edyn/util/vector_util.hpp", "include/edyn/util/array_util.hpp"], [("range starts", "include/edyn/core/flat_nested_array.hpp"), ("visitor tables", "include/edyn/util/tuple_util.hpp visit_tuple")],
     [dict(harness=["containers.cpp"], san=True, lib="none")],
     "all operation sequences up to a length against a vector of vectors; all vectors up to a length; all indices of five tuples",
     "7 operations; vectors of 7 elements", "8 operations")

prop("P05", "Parallel tasks process every index exactly once, then complete",
     "A task enqueued over a range has every index of the range processed exactly once, by any of the workers or the caller, with what the caller wrote before visible. When the waiting variant returns, or when the completion of the asynchronous variant is called, all indices have been processed and their effects are visible; completion is called exactly once, also for empty ranges. Nothing deadlocks, races or is leaked.",
     ["schedules", "configurations"], "every interleaving of callers and workers, every range size and number of workers",
     "no test runs tasks on workers; a completion that does not see another worker's results needs one particular interleaving",
     ["src/edyn/context/task.cpp", "include/edyn/context/task.hpp"], [("shared progress counters", "src/edyn/context/task.cpp run_parallel_for/parallel_for_async_job_func"), ("completion and release", "src/edyn/context/task.cpp parallel_for_async_job_func, parallel_for_context::decrement")],
     [dict(harness=["task_parallel.cpp"], sources=["context/task.cpp"], entt=True, **dict(MC, flags=MC["flags"] + ["-Wno-changes-meaning"]))],
     "every execution is one complete thread schedule of callers and workers running the real task functions on the real dispatcher",
     "1-3 workers, 1-2 callers, ranges of 0-8 indices, 1-3 preemptions, up to 1 spurious wake-up", "the same with 2-4 preemptions", technique=T_SCHED)

prop("P06", "Messages between threads arrive exactly once, in order and typed",
     "Every message sent to an existing queue is received exactly once by the next updates of that queue, with its content, type and sender, in the order of its sender; what the sender wrote before is visible to the receiver. Messages of types nobody listens to and messages to queues that do not exist have no effect. Queues can be made or cleared while others send, without races or deadlock.",
     ["schedules", "histories"], "every interleaving of senders, receivers, and threads that make or clear queues; every sequential history",
     "the repository has no test of the message queues",
     ["include/edyn/parallel/message_queue.hpp", "include/edyn/parallel/message_dispatcher.hpp"], [("locked vector, swapped out by the receiver", "include/edyn/parallel/message_queue.hpp push/consume"), ("map of queues under a shared mutex", "include/edyn/parallel/message_dispatcher.hpp")],
     [dict(harness=["message_queue.cpp"], sources=["parallel/message_dispatcher.cpp"], entt=True, **dict(MC, flags=MC["flags"] + ["-Wno-changes-meaning"]))],
     "every execution is one complete schedule of senders, receivers and queue makers on the real dispatcher, or one sequential history",
     "1-3 senders of 1-2 messages, up to 2 concurrent updates, 3-4 preemptions; all sequential histories of 5 operations out of 8", "4-5 preemptions; 6 operations", technique=T_SCHED)

ENTT_ASSUME = ["EnTT is replaced by a stand-in with the same interface"]
prop("P08", "The entity graph keeps exactly the edges and components it was given",
     "After any sequence of inserting and removing nodes and edges - several between the same nodes and from a node to itself included - the graph reports for every node exactly its neighbours and edges, each once, and for every edge the nodes it connects; indices of live nodes and edges never change. Connected components, traversals and reachability from a set of nodes visit exactly what is connected without passing through non-connecting nodes, each node once per component and each edge once. Edges may be removed while they are visited, and removing what was inserted makes room again: repeating it does not use more and more memory.",
     ["histories"], "every sequence of insertions, removals, clears and changes of node kind",
     "the tests build a few fixed graphs; broken adjacency lists show only after particular orders of insertion and removal",
     ["include/edyn/core/entity_graph.hpp", "src/edyn/core/entity_graph.cpp"], [("linked adjacency and edge lists in slot containers", "src/edyn/core/entity_graph.cpp insert_edge/remove_edge/remove_all_edges"), ("graph walks", "include/edyn/core/entity_graph.hpp reach/traverse")],
     [dict(harness=["entity_graph.cpp"], lib="none", sources=["core/entity_graph.cpp"], entt=True, flags=["-Wno-changes-meaning"])],
     "all operation sequences from several starting graphs; in every state every query is compared with a reference multigraph",
     "from 0-4 nodes of every kind pattern 3-5 operations with up to 4 nodes and 4 edges; every sequence of 3 edges over 3 nodes then 2 operations; 7 sizes x 4 large graphs then 1-2 operations; 100 cycles of insertion and removal, each repeated 1000 times",
     "one more operation", assumptions=ENTT_ASSUME)

prop("P09", "The broad-phase tree always holds and finds every entity where it is",
     "After any sequence of creating, moving, destroying and clearing, each live entity has one leaf whose box encloses its own box as last given, and every ancestor encloses its children; node ids stay valid until destroyed. Moving reports a change exactly when the new box leaves the kept one. Box and ray queries report every leaf whose box they touch, never twice, and no other; heights and parent links are right. Destroying what was created makes room again: repeating it does not use more and more memory.",
     ["histories"], "every sequence of creations, moves, destructions and clears",
     "the test inserts three boxes; wrong rotations and refits show only in trees of a certain shape",
     ["src/edyn/collision/dynamic_tree.cpp", "include/edyn/collision/dynamic_tree.hpp", "include/edyn/collision/query_tree.hpp"], [("insertion, removal, refit and rotation", "src/edyn/collision/dynamic_tree.cpp insert/remove/refit/balance"), ("tree visits", "include/edyn/collision/query_tree.hpp")],
     [dict(harness=["dynamic_tree.cpp"], sources=["collision/dynamic_tree.cpp"], entt=True, flags=["-Wno-changes-meaning"])],
     "all operation sequences in two worlds of 5 boxes, rows of up to 17 boxes in several orders; in every state the tree structure and the answers of 12 box and 7 ray queries are compared with a list of boxes",
     "2 creations and 4 operations; 6 creations and 1 operation; rows of 5-17 boxes and 1-2 operations; 48 cycles of creation and destruction, each repeated 1500 times", "one more operation", assumptions=ENTT_ASSUME)

prop("P30", "Clock offsets are estimated within half a round trip and never get stuck",
     "However requests and responses are delayed, lost, duplicated, reordered or forged, the estimated offset to a remote clock is the mean of accepted samples and differs from the true one by at most half a round trip. Responses nobody waits for change nothing, samples taken under jitter are discarded, at most one request is under way, and a lost message only delays: a request is sent again when its response is overdue and periodically afterwards.",
     ["histories", "fault_sequences"], "every history of updates, answers, losses, duplicates and forgeries",
     "no test covers clock synchronisation; a wrong estimate needs particular losses and duplicates",
     ["src/edyn/networking/util/clock_sync.cpp", "include/edyn/networking/util/clock_sync.hpp"], [("two-request exchange and sample acceptance", "src/edyn/networking/util/clock_sync.cpp clock_sync_process_time_response"), ("requests when due", "src/edyn/networking/util/clock_sync.cpp update_clock_sync")],
     [dict(harness=["clock_sync.cpp"], lib="none", sources=["networking/util/clock_sync.cpp"], entt=True, flags=["-Wno-changes-meaning"])],
     "all histories of updates and network events from 36 starting states and all sequences of 7 kinds of exchanges; every state compared with a reference protocol and the true offset",
     "7 events after each start; 7 exchanges", "8 events; 8 exchanges", assumptions=ENTT_ASSUME)

prop("P33", "Moments of inertia are those of the solid",
     "The moment of inertia of a box, sphere, cylinder, capsule, convex polyhedron or compound - and of hollow cylinders and spheres - of a given mass and any size, axis, orientation and position of its parts equals the second moments of the solid with uniform density; moving the reference point follows the parallel axis theorem.",
     ["inputs"], "all sizes, axes, masses, polyhedra and compounds",
     "one test covers a few shapes; the defects found here were in capsules and in products of inertia",
     ["src/edyn/dynamics/moment_of_inertia.cpp", "include/edyn/dynamics/moment_of_inertia.hpp"], [("closed formulas and the polyhedron integral", "src/edyn/dynamics/moment_of_inertia.cpp")],
     [dict(harness=["inertia.cpp"], sources=["dynamics/moment_of_inertia.cpp", "shapes/convex_mesh.cpp", "sys/update_rotated_meshes.cpp"], entt=True, flags=["-Wno-changes-meaning"])],
     "every combination of sizes, axes and masses; every polyhedron in every orientation and scale; all pairs and triples of five solids in compounds; compared with exact integrals in double precision",
     "6 sizes per dimension, 3 axes, 4 masses; all solids in all lattice orientations with 4 scales; compounds of 2-3 parts", technique=T_INPUT)

prop("P34", "Bounding boxes enclose their shapes tightly and compounds visit what overlaps",
     "For every shape, size, orientation and position, the axis-aligned bounding box contains the shape and touches it on all six sides (for compounds, it is no larger than the turned boxes of its parts); boxes taken to world or object space are the bounds of the turned box. Box queries and rays on a compound visit each part whose box they touch exactly once, with its own shape, and no other.",
     ["inputs"], "all shapes in all poses, all queries",
     "the tests cover a few aligned boxes",
     ["src/edyn/util/aabb_util.cpp", "include/edyn/util/aabb_util.hpp", "include/edyn/shapes/compound_shape.hpp"], [("support value along each world axis", "src/edyn/util/aabb_util.cpp"), ("tree of the compound's nodes", "src/edyn/shapes/compound_shape.cpp finish")],
     [dict(harness=["shape_bounds.cpp"], sources=["util/aabb_util.cpp", "shapes/convex_mesh.cpp", "shapes/compound_shape.cpp", "shapes/paged_triangle_mesh.cpp", "sys/update_rotated_meshes.cpp", "context/task.cpp", "parallel/message_dispatcher.cpp"], entt=True, flags=["-Wno-changes-meaning"])],
     "every shape of every size, axis and pose; every compound of 1-4 parts out of five kinds; compared with support values in double precision",
     "4 sizes per dimension, all lattice orientations and 26 tilted ones, 3 positions; 780 compounds in 8 orientations with 24 box queries and 13 rays", technique=T_INPUT)

prop("P35", "Convex meshes derive their topology faithfully and rotate with their body",
     "A convex mesh given by vertices and faces - in any face order, starting at any vertex, with collinear vertices - is centred at its centroid and derives unit outward normals, each edge once with its two faces, each vertex's neighbours once, and relevant faces and edges that stand for each direction exactly once. Rotated meshes are the mesh rotated, however often they are updated. Validation accepts exactly convex meshes with flat faces.",
     ["inputs"], "all convex meshes and orientations",
     "the tests look at a box mesh; faces starting with collinear vertices had wrong normals",
     ["src/edyn/shapes/convex_mesh.cpp", "include/edyn/shapes/convex_mesh.hpp", "src/edyn/sys/update_rotated_meshes.cpp", "include/edyn/comp/rotated_mesh.hpp"], [("edge, neighbour and relevant feature tables", "src/edyn/shapes/convex_mesh.cpp"), ("rotated copies", "src/edyn/sys/update_rotated_meshes.cpp")],
     [dict(harness=["convex_topology.cpp"], sources=["shapes/convex_mesh.cpp", "sys/update_rotated_meshes.cpp"], entt=True, flags=["-Wno-changes-meaning"])],
     "every solid with every first vertex, face order, orientation, position and scale; every vertex pushed in or out for validation; compared with the topology computed from the faces",
     "all solids x 6 first vertices x 3 orders x all lattice orientations x 2 positions x 3 scales", technique=T_INPUT)

RAY_SOURCES = ["collision/raycast.cpp", "collision/raycast_service.cpp", "collision/broadphase.cpp", "collision/should_collide.cpp", "collision/dynamic_tree.cpp", "util/aabb_util.cpp", "shapes/convex_mesh.cpp", "shapes/compound_shape.cpp", "shapes/paged_triangle_mesh.cpp", "sys/update_rotated_meshes.cpp", "context/task.cpp", "parallel/message_dispatcher.cpp"]
GC = dict(entt=True, flags=["-Wno-changes-meaning", "-ffunction-sections"], ldflags=["-Wl,--gc-sections"])
prop("P37", "A ray reports the first point where it enters a shape",
     "Casting a ray from one point to another against a box, sphere, cylinder, capsule, polyhedron, plane, triangle mesh or compound in any pose reports a hit exactly when the segment touches the shape, at the first fraction in [0, 1] where it does (zero when it starts inside), with the outward normal and the feature at that point; compounds report the part hit first. Casting into a world reports the nearest body that is not ignored. Every asynchronous ray is answered exactly once, whatever it hits.",
     ["inputs", "configurations"], "all rays, shapes, poses, worlds and ignored sets",
     "one test casts two rays at a box; rays that end before a shape, start inside or run along an axis were reported wrong for five shapes",
     ["src/edyn/collision/raycast.cpp", "src/edyn/collision/raycast_service.cpp", "src/edyn/math/geom.cpp"], [("per-shape intersections", "src/edyn/collision/raycast.cpp shape_raycast"), ("broad and narrow phase of batched rays", "src/edyn/collision/raycast_service.cpp"), ("line against cylinder and sphere", "src/edyn/math/geom.cpp intersect_ray_cylinder/intersect_ray_sphere")],
     [dict(harness=["raycast.cpp"], sources=RAY_SOURCES, **GC)],
     "every ray between two lattices of points in the local space of 27 bodies in all poses; all planes and meshes; compounds of 1-3 parts; all worlds of up to 5 bodies with all ignored subsets, cast directly and through the service in every batch size; compared with exact intervals of the solid enlarged and shrunk by 1e-3",
     "27 bodies x 6 orientations x 2 positions x 15000 rays; 441 compounds x 729 rays; 243 worlds x 84 rays x 13 ways", "13 orientations, 117000 rays each", technique=T_INPUT, assumptions=A_INPUT + ENTT_ASSUME)

_TIME = dict(harness=["time_source.cpp"], lib="none", sources=["time/unix/time.cpp", "time/common/time.cpp"])
prop("P38", "The clock runs true and delays never end early",
     "However long the library has been running (up to the 49 days its counter holds), ticks are the milliseconds since start-up, the performance counter and time advance with real time at the stated frequency, and none of them runs backwards, with a monotonic clock and without. A delay lasts at least as long as asked, whatever the length and however often and wherever signals interrupt it, and not noticeably longer.",
     ["inputs", "fault_sequences"], "every instant since start-up and every pattern of interrupted sleeps",
     "no test covers it; carries between seconds and nanoseconds and interrupted sleeps do not happen in a test run",
     ["src/edyn/time/unix/time.cpp", "src/edyn/time/common/time.cpp", "include/edyn/time/time.hpp"], [("ticks and counter from clock_gettime or gettimeofday", "src/edyn/time/unix/time.cpp ticks/performance_counter"), ("restarting interrupted sleeps", "src/edyn/time/unix/time.cpp delay")],
     [dict(_TIME, flags=["-DSTART_NS=0"]), dict(_TIME, flags=["-DSTART_NS=999999999"]), dict(_TIME, flags=["-DSTART_NS=500000001"]), dict(_TIME, flags=["-DSTART_NS=999999000", "-DNO_MONOTONIC=1"])],
     "the system's clock and sleep calls are replaced by a virtual clock; all combinations of instants around every carry, three start instants, with and without a monotonic clock; all patterns of interruptions at 5 points of each sleep",
     "instants up to 49 days, about 3500 per start; every length up to 3.1 s with up to 2 interruptions, 90 lengths with up to 6", "every length up to 70 s with up to 2 interruptions, 300 lengths with up to 7", technique=T_INPUT, level="exploration",
     assumptions=["the system's sleep and clock calls behave as documented", "the Windows and Apple variants are not compiled"])

prop("P36", "Bodies collide exactly when filters and exclusions allow it",
     "Two bodies may collide exactly when they are different, each one's group is in the other's mask (bodies without a filter being in all groups), and their collision has not been excluded; the answer does not depend on their order. After any sequence of excluding, removing and clearing exclusions, changing filters and destroying bodies - up to the 16 exclusions per body, in any order, repeated or unnecessary calls included - exactly the pairs excluded and not removed since are excluded. The map from pairs of bodies to contact manifolds finds, in either order, exactly the manifolds that exist.",
     ["histories"], "every sequence of exclusions, removals, filter changes, destructions and manifold creations",
     "no test covers it; lost or resurrected exclusions depend on the order of removals and on lists being full",
     ["src/edyn/collision/should_collide.cpp", "src/edyn/util/exclude_collision.cpp", "include/edyn/comp/collision_exclusion.hpp", "include/edyn/comp/collision_filter.hpp", "src/edyn/collision/contact_manifold_map.cpp"],
     [("filtering", "src/edyn/collision/should_collide.cpp should_collide_default"), ("exclusion lists of fixed size", "src/edyn/util/exclude_collision.cpp"), ("manifold map fed by registry signals", "src/edyn/collision/contact_manifold_map.cpp")],
     [dict(GC, harness=["collision_filter.cpp"], lib="none", sources=["collision/should_collide.cpp", "util/exclude_collision.cpp", "collision/contact_manifold_map.cpp"])],
     "all sequences of operations on 3 bodies, and on 19 bodies with lists of 14-16 exclusions; all sequences of creating and destroying manifolds between 3 bodies; every state compared with reference sets",
     "5 exclusion operations, 4 filter operations, 3 operations on nearly full lists, 6 manifold operations", "one or two more of each", assumptions=ENTT_ASSUME)

COLLIDE_SOURCES = ["collision/collide/collide_%s.cpp" % n for n in "box_box box_mesh box_plane capsule_box capsule_capsule capsule_cylinder capsule_mesh capsule_plane capsule_sphere compound_compound compound_mesh compound_plane cylinder_box cylinder_cylinder cylinder_mesh cylinder_plane cylinder_sphere polyhedron_box polyhedron_capsule polyhedron_cylinder polyhedron_mesh polyhedron_plane polyhedron_polyhedron polyhedron_sphere sphere_box sphere_mesh sphere_plane sphere_sphere".split()] + ["collision/collision_result.cpp", "shapes/convex_mesh.cpp", "shapes/compound_shape.cpp", "shapes/paged_triangle_mesh.cpp", "sys/update_rotated_meshes.cpp", "util/aabb_util.cpp", "context/task.cpp", "parallel/message_dispatcher.cpp"]
prop("P39", "Colliding shapes report contact points that lie where they touch",
     "For any two of the box, sphere, cylinder, capsule and convex polyhedron in any pose, and for each of them against a plane or a flat triangle mesh, collision detection reports contact points when the shapes overlap and none when they are further apart than the collision threshold (cylinder rims are approximated: there gaps may be off by about a tenth of the size, and an overlap of a rim with a cylinder, capsule or polyhedron may go unnoticed). Each point is finite and has a unit normal that points from the second body to the first along a direction of least penetration, pivots on the surfaces of both bodies and a distance equal to that of the pivots along the normal, the least of which is the gap between the shapes; a face that lies on a plane is supported by at least three points. Exchanging the bodies gives the same contact mirrored, and a shape that is part of a compound collides as it does alone, naming the part.",
     ["inputs"], "all pairs of shapes, sizes, poses and gaps",
     "the tests cover a handful of poses of a few pairs; missing contacts and wrong pivots showed only with parallel edges, planes off the origin or axes other than x",
     ["src/edyn/collision/collide/", "include/edyn/collision/collide.hpp", "src/edyn/collision/collision_result.cpp"],
     [("separating axis tests and clipping per pair", "src/edyn/collision/collide/collide_*.cpp"), ("dispatch, exchange and compounds", "include/edyn/collision/collide.hpp swap_collide")],
     [dict(GC, harness=["collide_pairs.cpp"], sources=COLLIDE_SOURCES)],
     "every pair of shapes and sizes, in all orientations of a lattice, approached from every direction of a lattice with three offsets and six gaps, also exchanged; planes and flat meshes with all lattice orientations; compounds of one or two shapes against every shape; compared with the greatest gap over all directions computed from support functions in double precision",
     "15 convex pairs: every placement of cheap pairs, every second to fifth of the costly ones; all planes, flat meshes and compounds", "every placement of all pairs", technique=T_INPUT, assumptions=A_INPUT + ENTT_ASSUME)

# The whole engine in sequential mode, without the networking front ends.
SIM = dict(GC, lib="all", skip=["networking/context/client_network_context.cpp", "networking/context/server_network_context.cpp", "networking/sys/client_side.cpp", "networking/sys/server_side.cpp", "networking/sys/update_aabbs_of_interest.cpp", "networking/networking.cpp", "networking/util/pool_snapshot.cpp", "util/ragdoll.cpp"])
prop("P40", "Islands are the connected groups of bodies, and sleep and wake as a whole",
     "After any history of creating, clearing and destroying rigid bodies and constraints, changing the kind of bodies and updating, every dynamic body is in exactly one island; two are in the same island exactly when constraints connect them through dynamic bodies; the island holds exactly those bodies, the constraints attached to them and the static and kinematic bodies these reach, and all of them know their islands; no island is without a dynamic body. A change to an island - a constraint added or removed, a body destroyed, of another kind, pushed or woken - wakes all of it and nothing else; an island at rest falls asleep as a whole and stays so, unless a body of it moves or must not sleep.",
     ["histories"], "every sequence of body and constraint creation, removal, change of kind, push, rest and update",
     "no test covers islands; lost bodies, stale references and missing splits depend on what happens between two updates",
     ["src/edyn/simulation/island_manager.cpp", "src/edyn/util/island_util.cpp", "src/edyn/util/constraint_util.cpp", "src/edyn/util/rigidbody.cpp"],
     [("merging by new nodes and edges", "src/edyn/simulation/island_manager.cpp init_new_nodes_and_edges/merge_islands"), ("splitting after removals", "src/edyn/simulation/island_manager.cpp split_islands"), ("sleep", "src/edyn/simulation/island_manager.cpp put_islands_to_sleep")],
     [dict(SIM, harness=["islands.cpp"])],
     "all graphs of 3-4 bodies of every kind pattern, then all sequences of operations, then everything destroyed in several orders; every update compared with the components of a reference graph",
     "3 operations from each of 8 graphs of 3 bodies, 2 from each of 64 graphs of 4 bodies", "one more operation", assumptions=ENTT_ASSUME)
SIMA = dict(SIM, flags=SIM.get("flags", []) + ["-D_GLIBCXX_ASSERTIONS"])
prop("P41", "Contacts and bookkeeping of a running simulation stay consistent",
     "In a sequential simulation, after any history of stepping, moving, creating, clearing and destroying bodies, changing their shape (also to none) or kind, excluding collisions, sleeping, waking and pushing, nothing crashes and: bodies of which one is dynamic and awake and whose boxes meet have exactly one manifold after the step, unless they must not collide; bodies far apart, of which none is dynamic or which must not collide do not get one; overlapping bodies have contact points; the points of a manifold are as many as it counts, are each in one manifold and connect its bodies in the graph; manifolds can be looked up in either order; islands are complete; positions, velocities and normals are finite. Sleeping manifolds are left alone. When all bodies are gone no entity remains. Detaching leaves the entities of bodies and nothing else, and the registry and its entities can be used for another simulation. The same holds for the multithreaded mode.",
     ["histories"], "every sequence of changes to bodies between and around steps",
     "no test runs the broad and narrow phase on a changing world; dangling contacts and stale broadphase nodes depend on what was changed before",
     ["src/edyn/collision/broadphase.cpp", "src/edyn/collision/narrowphase.cpp", "include/edyn/collision/narrowphase.hpp", "src/edyn/util/collision_util.cpp", "include/edyn/util/collision_util.hpp", "src/edyn/util/rigidbody.cpp", "src/edyn/util/contact_manifold_util.cpp", "src/edyn/util/polyhedron_shape_initializer.cpp", "src/edyn/util/constraint_util.cpp", "src/edyn/simulation/stepper_sequential.cpp"],
     [("pairs of bodies", "src/edyn/collision/broadphase.cpp update/destroy_separated_manifolds/set_procedural"), ("contact points", "include/edyn/util/collision_util.hpp process_collision, src/edyn/util/collision_util.cpp create_contact_point/destroy_contact_point"), ("changing bodies", "src/edyn/util/rigidbody.cpp rigidbody_set_shape/rigidbody_apply_kind/clear_rigidbody")],
     [dict(SIMA, harness=["sim_contacts.cpp"])],
     "all sequences of operations on a world of 2, 5 or 9 bodies of all kinds and several shapes; the whole registry is checked after every operation and every step, pairs are compared with the boxes at the start of the step, and everything is destroyed in the end",
     "4 operations out of 14-17 with 5 bodies, 3 out of 20-29, 2 out of 29 in multithreaded mode with 9 bodies", "one more operation", assumptions=ENTT_ASSUME)
prop("P42", "The simulation advances by as many fixed steps as time passed",
     "In the sequential modes, for any sequence of updates with increasing times, pauses, single steps and changes of the fixed step and of the limit of steps, an update performs as many fixed steps as fit in the time that passed and was not simulated yet, but not more than the limit; time that passes while paused is never simulated; a paused simulation only advances by the steps that are asked for. Each step calls the step callbacks once, moves bodies by their velocity, applies gravity once and leaves kinematic bodies where they are. What is presented is the state one step before the given time, and the state itself while paused.",
     ["histories"], "every sequence of update times, pauses, single steps and changes of settings",
     "no test runs updates; lost or repeated steps depend on how the fractions of a step add up and on pauses",
     ["src/edyn/simulation/stepper_sequential.cpp", "src/edyn/sys/update_presentation.cpp", "src/edyn/edyn.cpp", "src/edyn/dynamics/solver.cpp"],
     [("steps to perform", "src/edyn/simulation/stepper_sequential.cpp update/step_simulation/set_paused"), ("presentation", "src/edyn/sys/update_presentation.cpp update_presentation/snap_presentation")],
     [dict(SIMA, harness=["sim_time.cpp"])],
     "all sequences of updates, pauses, steps and settings with times that are exact in binary, compared after each with a model of the accumulated time and with exact positions",
     "5 operations out of 10 and out of 11, 4 out of 7 in multithreaded mode", "6 operations", assumptions=ENTT_ASSUME)

prop("P43", "Joints hold their bodies together and neither create momentum nor energy",
     "For every type of joint between two bodies, whatever their kind, mass, orientation, centre of mass and velocities: the impulses of the joint leave the total momentum unchanged (and, for point, distance, spring and hinge joints, the angular momentum); pivots stay together, distances, locked offsets and locked angles keep their value, hinge axes stay aligned, and limited angles, offsets and cones are not left, up to a small error; joints without springs and motors add no energy; springs push with the force given by their stiffness and deflection, and each friction and damping parameter alone slows the motion it is meant for. Bodies that are not dynamic are not moved by joints, and the result does not depend on where and how the whole world is placed and turned.",
     ["inputs", "histories"], "every type and option of joint, kinds of bodies, masses, orientations, velocities and number of steps",
     "no test solves a joint; a wrong sign, frame or missing term only shows for some orientation, option or kind of body",
     ["src/edyn/constraints/point_constraint.cpp", "src/edyn/constraints/hinge_constraint.cpp", "src/edyn/constraints/cvjoint_constraint.cpp", "src/edyn/constraints/generic_constraint.cpp", "src/edyn/constraints/cone_constraint.cpp", "src/edyn/constraints/distance_constraint.cpp", "src/edyn/constraints/soft_distance_constraint.cpp", "src/edyn/dynamics/island_solver.cpp", "src/edyn/dynamics/solver.cpp", "include/edyn/dynamics/position_solver.hpp"],
     [("rows of a joint", "src/edyn/constraints/*_constraint.cpp prepare"), ("positions are corrected", "include/edyn/dynamics/position_solver.hpp solve and *_constraint::solve_position"), ("velocities and positions are integrated", "src/edyn/dynamics/island_solver.cpp apply_solution")],
     [dict(SIMA, harness=["sim_joints.cpp"])],
     "all combinations of the grids below; after every step of the real simulation the momenta, energies and errors of the joint are computed in double precision from the bodies' state and compared with what was before the step",
     "8 types of joint with up to 56 settings (and 25 motions that settle, bump or meet a limit), 3 kinds, 4 placements of the centre of mass, 9 pairs of orientations, 2 velocities, 4 spins, with and without gravity, 2 masses; 40 to 90 steps each", "16 pairs of orientations, 3 velocities, 3 masses", assumptions=ENTT_ASSUME)

prop("P44", "Bodies in contact rest, slide, roll, spin and bounce as their materials say",
     "For every pair of shapes in contact, whatever the kind of the other body and the way the whole world is turned: a body put on a floor neither sinks into it nor leaves it, comes to rest and the contact impulses carry its weight; friction slows sliding bodies by its coefficient times the weight and holds them on slopes that are gentle enough; rolling and spin friction slow rolling and spinning by their coefficients in any heading; a dropped body bounces as high as its restitution says; soft contacts carry the weight where their stiffness does; piles stand. Collisions leave the total momentum unchanged, and no contact adds energy beyond a small error.",
     ["inputs", "histories"], "every shape, floor, direction, heading, material and number of steps",
     "no test solves a contact; wrong frames, signs and mixed up bodies only show for some order of bodies, heading or shape",
     ["src/edyn/constraints/contact_constraint.cpp", "src/edyn/constraints/contact_extras_constraint.cpp", "src/edyn/constraints/constraint_row_friction.cpp", "src/edyn/constraints/constraint_row_spin_friction.cpp", "src/edyn/dynamics/restitution_solver.cpp", "src/edyn/dynamics/solver.cpp", "src/edyn/collision/narrowphase.cpp", "src/edyn/util/collision_util.cpp"],
     [("contact rows", "src/edyn/constraints/contact_constraint.cpp and contact_extras_constraint.cpp prepare"), ("friction is limited by the normal impulse", "src/edyn/constraints/constraint_row_friction.cpp solve_friction"), ("bouncing", "src/edyn/dynamics/restitution_solver.cpp solve_restitution")],
     [dict(SIMA, harness=["sim_physics.cpp"])],
     "all combinations of the grids below in the real simulation; after every step speeds, heights and impulses are compared with the closed formulas of sliding, rolling, spinning and bouncing bodies for the coefficients of the contact",
     "15 shapes, 6 kinds of floor and heavy bodies, 2 or 3 turns of the world, 8 directions, 4 headings; 60 to 240 steps each", "the same", assumptions=ENTT_ASSUME)

prop("P45", "What is set for a body is what it has and what the simulation uses",
     "A body made from a definition has the origin, orientation, velocity, mass, inertia, gravity, shape and centre of mass of the definition, and is presented where it is, whatever its kind. Whatever is set afterwards, in any order - impulses, mass, inertia, centre of mass, origin, shape, friction - takes effect at once, changes nothing else, and leaves all that a body stores twice in agreement: origin and position, mass and inertia and their inverses also in world space, shape and bounding box, the material of the body and of its contacts unless a material table says otherwise. Impulses change linear and angular momentum by their amount. Moving a kinematic body gives it the velocity that takes it there in the given time, turning it by no more than half a turn. A body is collided with as if it had had its present shape from the start.",
     ["inputs", "histories"], "every definition, every order of changes, shapes and orientations",
     "no test makes or changes a rigid body; a stale copy of a property shows only after one particular change",
     ["src/edyn/util/rigidbody.cpp", "src/edyn/util/moment_of_inertia.cpp", "src/edyn/util/gravity_util.cpp", "src/edyn/collision/broadphase.cpp", "src/edyn/util/aabb_util.cpp", "src/edyn/sys/update_origins.cpp"],
     [("making a body", "src/edyn/util/rigidbody.cpp make_rigidbody/rigidbody_def"), ("changing it", "src/edyn/util/rigidbody.cpp set_rigidbody_mass/set_rigidbody_inertia/set_center_of_mass/rigidbody_set_shape/set_rigidbody_friction"), ("kinematic motion", "src/edyn/util/rigidbody.cpp set_kinematic_position/set_kinematic_orientation")],
     [dict(SIMA, harness=["sim_bodies.cpp"])],
     "all combinations of the grids below and all sequences of changes up to a depth in the real simulation, compared after each change with values computed in double precision from what was set",
     "definitions: 3 kinds, 10 shapes, 4 centres of mass, 5 orientations, 2 masses, 8 options; all sequences of 3 out of 12 changes for 16 bodies; 126 x 126 orientations and 3 times; 3 shapes in a row out of 10; 144 friction settings",
     "sequences of 4 changes, 162 x 162 orientations, all triples of shapes", assumptions=ENTT_ASSUME)

SIMMC = dict(SIM, flags=[f for f in SIM.get("flags", []) if not f.startswith("-fsanitize")] + MC["flags"] + ["-D_GLIBCXX_ASSERTIONS"], plain=MC["plain"], ldflags=SIM.get("ldflags", []) + MC["ldflags"], san=False)
A_DELAY = ["in the explorations bounded by deviations, schedules deviate at most that often from running the same thread until it waits, yields or has run for 400 scheduling points"]
prop("P46", "The multithreaded mode computes exactly what the sequential mode does",
     "For any world and any schedule of the worker threads, a step of the multithreaded mode has no data race and no deadlock and leaves positions, orientations, velocities, contacts and impulses that are bitwise those of the sequential mode: how islands, pairs of bodies and manifolds are distributed over threads does not show.",
     ["schedules"], "every interleaving of main and worker threads over islands that share static and kinematic bodies, broad phase and narrow phase",
     "no test runs the multithreaded mode; a write to a shared body or buffer only shows when two islands are solved at the same time",
     ["src/edyn/simulation/stepper_sequential.cpp", "src/edyn/dynamics/solver.cpp", "src/edyn/dynamics/island_solver.cpp", "include/edyn/dynamics/position_solver.hpp", "src/edyn/collision/broadphase.cpp", "include/edyn/collision/narrowphase.hpp", "src/edyn/collision/narrowphase.cpp", "include/edyn/parallel/parallel_for.hpp", "src/edyn/parallel/job_dispatcher.cpp", "src/edyn/util/island_util.cpp"],
     [("islands in parallel", "src/edyn/dynamics/solver.cpp update, src/edyn/dynamics/island_solver.cpp"), ("contacts in parallel", "include/edyn/collision/narrowphase.hpp update_contact_distances/narrowphase.cpp detect_collision_parallel"), ("pairs in parallel", "src/edyn/collision/broadphase.cpp collide_parallel")],
     [dict(SIMMC, harness=["sim_threads.cpp"])],
     "the whole simulation runs in the controlled scheduler with its real job dispatcher; every schedule within the bound is executed, checked for races, deadlock and memory errors and its result compared bit by bit with that of the sequential mode",
     "worlds of 2-10 bodies and one of 66, 1-2 workers, 1-2 steps, one preemption", "the same with more steps", assumptions=A_SCHED + ENTT_ASSUME, technique=T_SCHED)
prop("P47", "The asynchronous mode brings to the main registry what the simulation computes",
     "For any history of creating, changing, moving, destroying and querying bodies and joints in the main registry, stepping and pausing, and for any schedule of the main and the simulation thread, there is no data race, deadlock or crash, and when both have come to rest: the main registry has the bodies, kinds, masses, centres of mass, positions, velocities, contacts, rays and queries of the same history in the sequential mode, provided changes were made to what the simulation last reported; manifolds and contact points, constraints and islands refer to each other and to bodies that exist, also when the changes crossed what the simulation reported; every ray and query is answered exactly once. Detaching ends the simulation thread and leaves the entities of bodies and joints and nothing else.",
     ["schedules", "histories"], "every interleaving of the two threads, every sequence of operations",
     "no test runs the asynchronous mode; whether an entity that is being destroyed in one registry arrives in the other depends on the schedule",
     ["src/edyn/simulation/stepper_async.cpp", "src/edyn/simulation/simulation_worker.cpp", "include/edyn/replication/registry_operation.hpp", "include/edyn/replication/registry_operation_builder.hpp", "include/edyn/replication/registry_operation_observer.hpp", "include/edyn/replication/entity_map.hpp", "include/edyn/replication/map_child_entity.hpp", "src/edyn/replication/map_child_entity.cpp", "src/edyn/edyn.cpp", "src/edyn/collision/query_aabb.cpp", "include/edyn/parallel/message_dispatcher.hpp", "src/edyn/collision/raycast_service.cpp"],
     [("import into the main registry", "src/edyn/simulation/stepper_async.cpp on_step_update"), ("import into the simulation", "src/edyn/simulation/simulation_worker.cpp on_update_entities"), ("what changed is collected", "include/edyn/replication/registry_operation_observer.hpp"), ("rays and queries", "src/edyn/simulation/stepper_async.cpp on_raycast_response/on_query_aabb_response")],
     [dict(SIMMC, harness=["sim_async.cpp"])],
     "both threads, with their real message queues and clock, run in the controlled scheduler; every schedule within the bound is executed for every sequence of operations, checked for races, deadlock and memory errors, and in the end the main registry is compared with the sequential simulation of the same history",
     "4 bodies, a joint, 22 operations: all pairs of operations in the default schedule, after settling (484) and at once (1352); one deviation (all of 100-2000 points each) for 40 histories of 1-2 bodies", "all triples of operations in the default schedule, one deviation for all pairs in the small worlds", assumptions=A_SCHED + A_DELAY + ENTT_ASSUME, technique=T_SCHED)

SIMNET = dict(SIMA, skip=["util/ragdoll.cpp"])
prop("P48", "Server and clients end up with the same world whatever the network does",
     "For any history of creating, moving, changing and destroying networked bodies, joints and assets on the server and by clients that own them, of actions, of clients joining and leaving and looking at other places, and for any delay and loss of packets (lost only if unreliable): nothing crashes, and once the packets got through, each client has exactly the networked entities in its area of interest and its own, and the server all of those of connected clients, with the values, owners, islands, graph and bounding boxes of the server; entities that left the area or were destroyed are gone; entity maps lead to each other's entities; every action of a client is performed exactly once; a client does not change what it does not own; when a client leaves, what it owned is gone.",
     ["histories"], "every sequence of operations on server and clients, each with every way of delivering packets",
     "no test runs the networking; lost, doubled or stale entities depend on which packets cross",
     ["src/edyn/networking/sys/client_side.cpp", "src/edyn/networking/sys/server_side.cpp", "src/edyn/networking/sys/update_aabbs_of_interest.cpp", "src/edyn/networking/util/process_update_entity_map_packet.cpp", "include/edyn/networking/util/server_snapshot_exporter.hpp", "include/edyn/networking/util/server_snapshot_importer.hpp", "include/edyn/networking/util/client_snapshot_exporter.hpp", "include/edyn/networking/util/client_snapshot_importer.hpp", "include/edyn/networking/comp/action_history.hpp", "include/edyn/replication/entity_map.hpp"],
     [("client", "src/edyn/networking/sys/client_side.cpp update_network_client/client_receive_packet"), ("server", "src/edyn/networking/sys/server_side.cpp update_network_server/server_receive_packet"), ("area of interest", "src/edyn/networking/sys/update_aabbs_of_interest.cpp"), ("actions", "include/edyn/networking/comp/action_history.hpp merge and src/edyn/networking/sys/server_side.cpp")],
     [dict(SIMNET, harness=["sim_net.cpp"])],
     "server and clients are real registries in one process with a logical clock; packets are serialized and delivered by the explorer; all sequences of operations, each with every mode of delivery, are executed, then everything is delivered and the worlds are compared component by component",
     "1-2 clients with and without temporal ownership, 6 modes of delivery (all at once, up, down, both or snapshots one update late, unreliable ones lost), 2-3 operations out of 3-10 in 19 scenarios", "3-4 operations", assumptions=ENTT_ASSUME + ["clients apply snapshots as they arrive, without extrapolation (see P49)"])
SIMXMC = dict(SIMMC, skip=["util/ragdoll.cpp"])
prop("P49", "A client that extrapolates in another thread ends up with the server's world",
     "For any history of operations on the server and a client that extrapolates what it receives, and for any schedule of its main and its extrapolation thread: there is no data race, deadlock, crash or use of what is destroyed, no message stays unprocessed, and once the packets got through the client has the entities, values, owners and boxes of the server as it has without extrapolation; when networking ends, the thread has ended.",
     ["schedules", "histories"], "every interleaving of the two threads and every operation around the arrival of snapshots",
     "no test runs the extrapolation; lost wake-ups, requests left behind and accesses after destruction depend on the schedule",
     ["src/edyn/networking/extrapolation/extrapolation_worker.cpp", "include/edyn/networking/extrapolation/extrapolation_worker.hpp", "include/edyn/networking/extrapolation/extrapolation_modified_comp.hpp", "src/edyn/networking/util/process_extrapolation_result.cpp", "src/edyn/networking/util/import_contact_manifolds.cpp", "include/edyn/networking/util/input_state_history.hpp", "src/edyn/networking/sys/client_side.cpp"],
     [("the thread", "src/edyn/networking/extrapolation/extrapolation_worker.cpp run/stop/on_push_message"), ("a request", "src/edyn/networking/extrapolation/extrapolation_worker.cpp begin_extrapolation/finish_extrapolation"), ("the result", "src/edyn/networking/util/process_extrapolation_result.cpp")],
     [dict(SIMXMC, harness=["sim_extrap.cpp"])],
     "server and client run in the controlled scheduler with the client's real extrapolation thread and message queues; every history is executed in the schedule without deviations, some in every schedule with one; races, deadlock and memory errors are checked in all, and the worlds compared in the end",
     "about 380 histories of 1-2 operations in the default schedule; one deviation (at all of 1000-4000 points each) for 4 histories", "2 operations in all modes of delivery; one deviation for 50 more histories", assumptions=A_SCHED + A_DELAY + ENTT_ASSUME, technique=T_SCHED)
