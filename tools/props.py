#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "geometrix/"
PROPS = []
def P(id, title, statement, text, why, files, mech, over=("inputs",), note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=[G + f for f in files], mech=mech, note=note))
D = "algorithm/distance/"; X = "algorithm/intersection/"; Q = "algorithm/point_sequence/"

P("P01", "Point-to-shape distances and closest points are the exact infimum",
  "For every point and every segment (also zero-length), polyline, polygon border, collection of polygon borders, axis-aligned box (2D and 3D), oriented 2D box and line, the reported distance and squared distance equal the minimum over the shape (boxes are solid; polygons are their border, including the closing edge), and signed line distance is positive to the left. The reported closest point lies on the shape and realises that distance, and a reported segment parameter locates it.",
  "all points and shapes with finite coordinates, at any scale", "tests use a handful of fixed points; the minimum over all edges, regions and degenerate cases needs every input",
  [D+"point_segment_distance.hpp", D+"point_segment_closest_point.hpp", D+"point_polyline_distance.hpp", D+"point_polygon_distance.hpp", D+"point_polygon_closest_point.hpp", D+"point_aabb_distance.hpp", D+"point_obb_distance.hpp", D+"point_line_distance.hpp", D+"point_point_distance.hpp"],
  [("region clamping of the projection parameter", D+"point_segment_distance.hpp"), ("per-axis excess accumulation", D+"point_obb_distance.hpp")])
P("P02", "Segment-to-shape and box-to-box distances are the exact infimum",
  "For every pair of segments (crossing, touching, parallel, collinear or zero-length), and for a segment against a polyline, a polygon border, an index sub-range of either, or an oriented box that does not strictly enclose it, the reported distance equals the minimum over both sets, zero when they meet; box-to-box distance in 2D and 3D is the distance between the solid boxes. Reported parameters lie in [0,1] and, with the reported edge index, locate the reported closest points, which realise the distance.",
  "all segment, polyline, polygon and box inputs", "tests sample a few configurations; parallel, clamped and degenerate branches interact combinatorially",
  [D+"segment_segment_closest_point.hpp", D+"segment_segment_distance.hpp", D+"eberly_segment_segment_distance.hpp", D+"segment_polyline_distance.hpp", D+"segment_polyline_closest_point.hpp", D+"segment_polygon_distance.hpp", D+"segment_polygon_closest_point.hpp", D+"segment_obb_distance.hpp", D+"aabb_aabb_distance.hpp"],
  [("clamped two-parameter minimisation", D+"segment_segment_closest_point.hpp")])
P("P03", "Polyline/polygon pair distance equals the minimum over all edge pairs",
  "For every pair of polylines, or of polygon borders, of any vertex count, the reported distance equals the minimum over all pairs of edges (for polygons including each closing edge), whether the pair is searched exhaustively or by subdivision. The reported edge indices, parameters and closest points are always set, mutually consistent, and realise that distance.",
  "all pairs of vertex sequences, small and large", "tests use a few sequences; the best-first subdivision prunes differently for every input",
  [D+"polygon_polygon_distance.hpp", D+"polygon_polygon_closest_point.hpp", D+"polyline_polyline_distance.hpp", D+"polyline_polyline_closest_point.hpp"],
  [("best-first branch and bound over index ranges", D+"polygon_polygon_distance.hpp"), ("sub-range bounding boxes", "primitive/axis_aligned_bounding_box.hpp")])

P("P04", "2D segment, ray and line intersections are classified and located exactly",
  "For every two proper 2D segments, a segment and a ray, a segment and a line, a ray and a line, and two lines, the reported kind of contact agrees with the exact sets: none when disjoint, crossing when the interiors cross, end point when an end of one lies on the other, overlapping for collinear contact (a single shared point may be reported as either end point or overlapping). Reported intersection points lie on both inputs and are the contact; for overlaps both reported points are the ends of the common part. Swapping the arguments or reversing an input changes nothing but order. The oriented segment-against-line test reports the side from which the segment crosses.",
  "all pairs of non-degenerate inputs: crossing, end-touching, collinear overlapping, nested and disjoint", "tests sample a few pairs; the tolerance branches and collinear sub-cases need systematic degenerate inputs",
  [X+"segment_segment_intersection.hpp", X+"ray_segment_intersection.hpp", X+"ray_line_intersection.hpp", "algorithm/line_intersection.hpp", "algorithm/linear_components_intersection.hpp", "algorithm/orientation.hpp"],
  [("four orientation classification", X+"segment_segment_intersection.hpp")])
P("P05", "3D segment, triangle and plane intersections agree with exact rational arithmetic",
  "For 3D segments, whether two segments cross, touch at an end, overlap or miss is reported as in exact arithmetic with points on both. A segment meets a (counter-clockwise as seen against the segment, or any winding for the boolean test) triangle exactly when exact arithmetic says so, and the reported point and barycentric weights locate the hit. Triangle against box overlap is exact. A plane built from three points or from a point and normal contains its defining points, classifies points by the sign of their exact offset, gives their true distance, and meets a non-parallel segment exactly when its ends are not strictly on one side, at the reported point.",
  "all non-degenerate segments, triangles, boxes and planes", "tests cover a few fixed primitives; the edge, vertex and coplanar cases are combinatorial",
  [X+"segment_segment_intersection.hpp", X+"segment_triangle_intersection.hpp", X+"segment_plane_intersection.hpp", "algorithm/eberly_triangle_aabb_intersection.hpp", "primitive/plane.hpp", "primitive/line.hpp"],
  [("signed volumes", X+"segment_triangle_intersection.hpp"), ("separating axes", "algorithm/eberly_triangle_aabb_intersection.hpp")])
P("P06", "Axis-aligned boxes: slab intersections, clipping and box algebra are exact",
  "A segment, ray or line meets a solid axis-aligned box (2D and 3D) exactly when the sets share a point, also when parallel to a face, touching a corner or starting inside, with the reported entry parameter being the first contact and the reported point lying there (for a ray starting inside: where it leaves). Cohen-Sutherland clipping returns exactly the part inside. Box union, expansion, intersection and containment tests agree with interval arithmetic, and the bounds of a point sequence, segment, polygon or circle are the tightest box around it.",
  "all boxes and inputs, on, inside and outside", "parallel, corner-grazing and inside-start cases are exactly those fixed tests leave out",
  [X+"segment_aabb_intersection.hpp", X+"ray_aabb_intersection.hpp", X+"line_aabb_intersection.hpp", "algorithm/cohen_sutherland_line_clipping.hpp", "primitive/axis_aligned_bounding_box.hpp"],
  [("slab clipping", X+"ray_aabb_intersection.hpp"), ("outcodes", "algorithm/cohen_sutherland_line_clipping.hpp")])
P("P07", "Circles, spheres and capsules: overlap and first contact agree with exact distances",
  "A sphere or circle overlaps a box, an oriented box, a polyline, another circle or sphere exactly when the distance between the shapes says so. A segment or ray meets a solid circle or sphere exactly when some point of it is within the radius, and the reported parameter and point are the first contact (zero when starting inside); the two-root versions return both boundary crossings, at the radius and on the input. Reported circle-circle and sphere-sphere contact points lie on both. A segment starting outside a capsule meets it exactly when its distance to the capsule axis is within the radius, at the reported first contact.",
  "all radii and placements: disjoint, tangent, crossing, contained, concentric", "tangency, containment and parallel cases depend on the input, tests sample few",
  [X+"sphere_aabb_intersection.hpp", X+"sphere_obb_intersection.hpp", X+"sphere_polyline_intersection.hpp", X+"circle_circle_intersection.hpp", X+"sphere_sphere_intersection.hpp", X+"segment_sphere_intersection.hpp", X+"ray_sphere_intersection.hpp", X+"segment_capsule_intersection.hpp"],
  [("quadratic root selection", X+"ray_sphere_intersection.hpp")])

P("P08", "Moving shapes: first and last contact times and points are those of the exact motion",
  "A disc or sphere moving with constant non-zero velocity reports contact with another moving sphere, a line or plane, a segment, an axis-aligned box or a (right-handed) oriented box exactly when their distance reaches zero at some time from now on, the reported time is the first such time (zero when already overlapping) and the reported point lies on both; when already overlapping a plane or box it is the point of the plane or solid box closest to the centre. The plane flags (penetrating, touching, moving away) describe the start. Two moving convex polygons (any winding and start vertex) or oriented boxes report contact within the horizon exactly when they share a point by then, with the first and last contact times. Grazing verdicts are not claimed.",
  "all positions, sizes, velocities, horizons: approaching, overlapping, passing, receding", "tests contain about a dozen fixed motions; regions of the box, ends of the segment and the start vertex of polygons are combinatorial",
  [X+"moving_sphere_sphere_intersection.hpp", X+"moving_sphere_plane_intersection.hpp", X+"moving_sphere_segment_intersection.hpp", X+"moving_sphere_aabb_intersection.hpp", X+"moving_sphere_obb_intersection.hpp", X+"moving_obb_obb_intersection.hpp", X+"moving_separating_axis_convex_polygons.hpp"],
  [("contact interval per axis", X+"detail/separating_axis_common.hpp"), ("region classification", X+"moving_sphere_aabb_intersection.hpp")])
P("P09", "Convex polygons and oriented boxes overlap exactly when no separating line exists",
  "Two convex polygons of any winding, vertex count and start vertex are reported as intersecting when their interiors share a point and as separate when they are disjoint (mere touching is not claimed); two solid oriented boxes intersect exactly when they share a point. The answer does not depend on argument order, and a polygon always meets itself. An oriented box's corners are its centre plus or minus its half-extents along its axes, and a box rebuilt from its rectangle is the same box.",
  "all pairs of convex polygons and boxes", "tests use one pair of diamonds and a few boxes; the separating direction can be any edge of either shape",
  [X+"separating_axis_convex_polygons.hpp", X+"obb_obb_intersection.hpp", "primitive/oriented_bounding_box.hpp"],
  [("projection intervals", X+"detail/separating_axis_common.hpp")])

P("P10", "Segments and paths against polylines, polygons and boxes: every contact is reported",
  "For a segment against a polyline, every edge it touches is reported in edge order with the right kind of contact and points, a visitor may stop the search, and the result says whether there was any contact; two polylines report every touching pair of edges. For a segment against a simple polygon of either winding, exactly the parts of the segment inside the polygon between consecutive border contacts are visited, in order; a segment touching the border projects outside exactly when some part of it lies outside; a segment strictly inside does not. A solid polygon, or a polyline, meets an axis-aligned box exactly when they share a point.",
  "all proper segments, polylines without repeated consecutive vertices, simple polygons and boxes", "grazing vertices, running along edges and multiple re-entries are combinatorial, tests fix a few",
  [X+"segment_polyline_intersection.hpp", X+"segment_polygon_intersection.hpp", X+"segment_projects_outside_polygon.hpp", X+"polyline_polyline_intersection.hpp", X+"polygon_aabb_intersection.hpp", X+"polyline_aabb_intersection.hpp"],
  [("visit loop", X+"polyline_polyline_intersection.hpp"), ("sorted contact points and midpoint containment", X+"segment_polygon_intersection.hpp")])
P("P11", "Convex polygon intersection visits exactly the vertices of the common region",
  "For two counter-clockwise strictly convex polygons, starting at any vertex, the visited points are exactly the vertices of their intersection (repeats allowed) and every extreme vertex of it is visited. Disjoint polygons give none and no points, overlapping interiors give overlapping, a shared piece of edge gives face with both its ends, and polygons touching in one point give a contact at that point. Argument order does not matter.",
  "all pairs of convex polygons: nested, identical, sharing edges, touching, disjoint", "the edge-chasing state machine depends on start vertices and alignment, which fixed tests do not vary",
  [X+"convex_polygon_polygon_intersection.hpp"], [("O'Rourke edge chasing", X+"convex_polygon_polygon_intersection.hpp")])
P("P12", "Point-in-polygon and containment classification are exact",
  "A point strictly inside (outside) a simple polygon of either winding is reported inside (outside), with rays through vertices and along edges handled; the four-way classification distinguishes inside, outside, edge and vertex exactly. On the border the parity test is consistent: it does not depend on winding, and when a polygon is cut along a diagonal each point belongs to exactly as many parts as to the whole. Strictly convex counter-clockwise polygons, quadrilaterals and 2D triangles contain exactly their closed point set, 3D triangles of either winding likewise for points of their plane.",
  "all simple polygons and points, including points aligned with vertices", "tests sample few points; vertex-aligned rays and collinear edges need every configuration",
  ["algorithm/point_in_polygon.hpp"], [("crossing parity", "algorithm/point_in_polygon.hpp")])
P("P13", "Orientation and adaptive-precision predicates always give the exact sign",
  "The orientation of three points is left, right or collinear as in exact arithmetic and is antisymmetric under swaps, invariant under rotation of the arguments, and consistent with the opposite orientation. The adaptive, exact and slow versions of orient2d, orient3d, incircle and insphere return a value with the sign of the exact determinant, however nearly degenerate the input. The floating-point expansion routines (sums, growth, scaling, compression, estimate) represent exact results as non-overlapping increasing components.",
  "all finite inputs without overflow or underflow, in particular nearly degenerate ones", "the adaptive stages are only reached by inputs a few units from degenerate, which fixed tests do not construct",
  ["algorithm/orientation.hpp", "algorithm/orientation_enum.hpp", "algorithm/predicates.hpp"], [("adaptive error bounds", "algorithm/predicates.hpp"), ("tolerance of the cross product", "algorithm/orientation.hpp")])

P("P14", "Areas, lengths, centroids, lookups and congruence of point sequences are exact",
  "Signed area, area, centroid and perimeter of a simple polygon, and the length of a polyline, equal their exact values, change sign, or not, with winding and do not depend on the start vertex. Next and previous indices wrap around; concavity of a vertex is exact; reversal and the segment ranges of polylines and polygons list exactly the vertices and edges in order. Two polygons compare equal exactly when one is a rotation of the other's vertex list at the offset found. Polylines and polygons are congruent exactly when a rotation and translation maps one onto the other (mirror images are not). The border edge that contains a point, or is closest to it, is found.",
  "all polygons and polylines, any start vertex, winding and scale", "tests check a few shapes; start vertices, symmetric shapes and repeated lengths vary with the input",
  ["primitive/point_sequence_utilities.hpp", Q+"length.hpp", Q+"is_congruent.hpp", Q+"find_subsequence.hpp"],
  [("shoelace sums", "primitive/point_sequence_utilities.hpp"), ("matching of edge lengths and turning angles", Q+"is_congruent.hpp")])
P("P15", "Arc-length operations cut and locate points of a polyline exactly",
  "For a polyline without repeated consecutive vertices: clipping a length from the front, back or both ends leaves exactly the part of the path between those arc lengths; splitting at an arc length gives two parts that join at that point and together are the path (at or beyond the end: the whole path and its last vertex); the mid point and the point at a position lie at that arc length, with the right edge index, and outside the path there is none where that is the interface. Cumulative lengths, with cutoff, and the arc length of a point on the path are exact. A subsequence of a polygon around a point covers exactly that extent of the border each way. Curvature sums equal the summed turning angles and splits at inflections separate runs of equal turning sign.",
  "all polylines, positions and lengths, including exactly at vertices", "positions at vertices, at the ends and spanning several edges are combinatorial",
  [Q+"clip_polyline_ends.hpp", Q+"polyline_split.hpp", Q+"polyline_mid_point.hpp", Q+"length.hpp", Q+"find_subsequence.hpp", Q+"curvature.hpp"],
  [("running length", Q+"polyline_split.hpp"), ("edge selection", Q+"clip_polyline_ends.hpp")])
P("P16", "Simplicity, self-intersection and polygon containment are decided exactly",
  "A polygon (four or more vertices, or a proper triangle, without repeated consecutive vertices) is simple exactly when no two non-adjacent edges touch and no adjacent edges fold back, also with memoized tests; a polygon with holes exactly when each ring is and no two borders touch, and its segment range lists every border edge. A polyline's reported self-intersections are exactly the touching pairs of non-adjacent edges and the adjacent pairs that fold back. A simple polygon contains another, or a polyline, exactly when every point of it lies inside or on the border.",
  "all polygons, rings and polylines, simple or not", "touching vertices, overlapping collinear edges and fold-backs are what fixed tests leave out",
  [Q+"is_polygon_simple.hpp", Q+"self_intersection.hpp", Q+"polygon_polygon_containment.hpp", Q+"polygon_polyline_containment.hpp", "algorithm/polygon_with_holes_as_segment_range.hpp"],
  [("pairwise edge test", Q+"is_polygon_simple.hpp")])
P("P17", "Cleaning and simplifying point sequences keeps the shape",
  "Removing repeated and collinear points of a polygon leaves exactly its corners in order, whatever the start vertex (four or more input vertices), and of a polyline that does not double back exactly its ends and corners; coalescing removes exactly the repeated points (for a polygon also those at the end equal to the first); the identified indices are exactly the removed ones. Ramer-Douglas-Peucker keeps both ends and the order of the vertices, drops only vertices within the tolerance of the line through the kept neighbours, and keeps exactly the vertices found by splitting at the farthest vertex.",
  "all polygons and polylines with extra collinear and repeated vertices, any tolerance", "where the removable points sit relative to the start, and several in a row, is combinatorial",
  [Q+"remove_collinear_points.hpp", Q+"ramer_douglas_peucker_algorithm.hpp"],
  [("wrap-around handling", Q+"remove_collinear_points.hpp"), ("recursive split", Q+"ramer_douglas_peucker_algorithm.hpp")])
P("P18", "Polyline offset keeps its distance and sidedness follows the closest element",
  "Every edge of an offset polyline lies on the line parallel to its edge at the offset distance on the chosen side, vertices being where consecutive offset lines meet and the ends being moved along the normal; straight vertices stay straight (polylines that do not double back). The orientation of a point relative to a polyline is the side on which it lies seen from the closest element of the path (at a vertex, by the wedge of its two edges), and collinear on the path itself.",
  "all such polylines, offsets of either sign, and points", "sharp turns, straight vertices and points beyond the ends depend on the input",
  [Q+"polyline_offset.hpp", Q+"point_polyline_orientation.hpp"],
  [("miter points", Q+"polyline_offset.hpp"), ("closest edge selection", Q+"point_polyline_orientation.hpp")])

P("P26", "Comparison policies and geometric orderings are consistent orders",
  "For every pair of numbers and tolerance, each comparison policy (direct, absolute, relative, fraction, type-mapped) reports exactly one of less, equal and greater, with the or-equal forms agreeing, the tolerance deciding equality, swapping arguments mirroring the answer, and unit-mapped comparison using the tolerance registered for the type; the tolerance functions say the same as the policies. Points compare lexicographically (forward, reverse, or with a chosen dimension first) in 2D and 3D, segments by their lower then upper ends whichever way they are stored, and the interval order puts one collinear segment before another exactly when it ends before the other starts. Unions and differences of collinear segments leave exactly the set of covered points as disjoint maximal segments.",
  "all numbers, tolerances, points, segments and histories of unions and differences", "orders must be consistent for every pair and every history; tests compare a few literals",
  ["numeric/number_comparison_policy.hpp", "utility/utilities.hpp", "utility/floating_point_comparison.hpp", "tensor/numeric_sequence_compare.hpp"],
  [("tolerance policies", "numeric/number_comparison_policy.hpp"), ("collinear_segment_union / difference", "utility/utilities.hpp")], over=("inputs", "histories"))

P("P27", "Directions: angles, rotations, angular order, cones, slopes and splitting",
  "For all vectors and points: the angle of a vector or from one point to another is its true direction; normalising an angle gives the same direction within [0,2pi] or [-pi,pi]. A rotation built from two unit vectors takes the first to the second, and rotating (and translating) points, vectors or point sequences about an origin gives each the rotated position. A vector is between two others exactly when it lies on the counter-clockwise sweep from the first to the second (ends by request); the angular comparators and pseudo angle order vectors and points by counter-clockwise angle from the reference; collinear and betweenness tests are exact. A segment is in the range of two rays (a cone under half a turn) exactly when it meets the closed cone, and the reported points bound its part inside. Slope, y-of-x, x-of-y, mid-point and vector projection are exact up to rounding, and splitting a segment yields a gapless chain from start to end with no piece over the maximum size.",
  "all vectors, angles, cones, segments", "angular order and cone tests have many sign and degenerate branches; tests sample a handful of directions",
  ["utility/utilities.hpp", "utility/vector_angle_compare.hpp", "utility/point_angle_compare.hpp", "algorithm/rotation.hpp", "algorithm/is_segment_in_range.hpp", "algorithm/split_segment.hpp", "algorithm/segment_mid_point.hpp", "algebra/vector_projection.hpp"],
  [("is_vector_between", "utility/utilities.hpp"), ("cone sides and ray tests", "algorithm/is_segment_in_range.hpp")])

P("P28", "Vector products, magnitudes, normals, bisectors and interpolation are exact up to rounding",
  "For vectors of every dimension 2 to 5: dot product, squared magnitude, 2D wedge product, 3D cross product and triple product equal exact integer arithmetic (on integer data, integer or floating storage); magnitude, normalisation (eager, lazy, or per component), scalar and vector projection, linear and spherical interpolation of directions are right to rounding; null and antiparallel tests are exact up to their tolerance. Left and right normals are the quarter turns; the bisector is the unit vector at half the counter-clockwise angle from the first to the second vector, whatever their lengths, also for parallel and opposite ones.",
  "all vectors, dimensions and scales", "per-dimension preprocessed code and sign branches; tests use a couple of axis-aligned vectors",
  ["algebra/dot_product.hpp", "algebra/detail/preprocessed/dot_product.hpp", "algebra/exterior_product.hpp", "algebra/cross_product.hpp", "algebra/vector_projection.hpp", "arithmetic/vector/magnitude.hpp", "arithmetic/vector/normalize.hpp", "arithmetic/vector/perp.hpp", "arithmetic/vector/bisect.hpp", "arithmetic/vector/lerp.hpp", "arithmetic/vector/slerp.hpp", "tensor/is_null.hpp"],
  [("per-dimension dot products", "algebra/detail/preprocessed/dot_product.hpp"), ("bisect", "arithmetic/vector/bisect.hpp")])

P("P29", "Matrix algebra is exact for every shape",
  "Sums, differences, products, scalar multiples, transposes, minors, rows, columns, composites of blocks and homogeneous extensions of matrices have exactly the elements of the definition; determinants and traces up to 5x5 (integer data) are exact; the inverse (up to 4x4) is right to rounding and refused exactly for singular matrices; the LUP decomposition of 2 to 6 unknowns is a row-permuted unit lower times upper factorisation with pivots of largest magnitude, and solving with it gives the solution of the system.",
  "all matrices of those shapes, singular or not", "each size is separate preprocessed or recursive code; tests check one matrix",
  ["algebra/functions/matrix_product.hpp", "algebra/functions/multiplication.hpp", "algebra/functions/transpose.hpp", "algebra/functions/inverse.hpp", "arithmetic/matrix_arithmetic.hpp", "arithmetic/detail/determinant.hpp", "arithmetic/matrix/trace.hpp", "algebra/detail/preprocessed/lup_decomposition.hpp", "tensor/matrix_minor_adaptor.hpp", "tensor/vector_matrix_adaptors.hpp", "tensor/homogeneous_adaptor.hpp", "tensor/identity_matrix.hpp"],
  [("cofactor expansion", "arithmetic/detail/determinant.hpp"), ("pivoting and back substitution", "algebra/detail/preprocessed/lup_decomposition.hpp")])

P("P30", "Algebra expressions mean what they spell",
  "Any nesting of sums, differences, negation, scaling, division, dot, cross, matrix and Kronecker products, transposes, determinants, inverses, magnitudes and units of vectors, points, scalars and matrices (a catalogue of about a hundred and twenty shapes) evaluates to the arithmetic it spells (exactly, or within rounding once a division or root is involved), in whichever way it is consumed: assignment operator, <<=, construction, element access, held in a variable and reused, with int and double storage mixed, and also when the target itself occurs in the expression.",
  "all operand values for each catalogued expression shape and dimension 2 to 4", "operand order, aliasing and lazily held operands only show for unsymmetric values and nested shapes",
  ["algebra/expression_generator.hpp", "algebra/functions/addition.hpp", "algebra/functions/subtraction.hpp", "algebra/functions/multiplication.hpp", "algebra/functions/division.hpp", "algebra/functions/negate.hpp", "algebra/functions/cross_product.hpp", "algebra/functions/dot_product.hpp", "algebra/functions/tensor_product.hpp", "algebra/functions/reciprocal.hpp", "tensor/detail/numeric_sequence_n.hpp"],
  [("evaluation contexts", "algebra/expression_generator.hpp"), ("assignment of expressions", "tensor/detail/numeric_sequence_n.hpp")])

P("P24", "Grids map every point to the cell that covers it and keep each cell's data apart",
  "For every grid over given bounds and cell size: the number of rows and columns covers the bounds, every point of the closed bounds has an index inside the grid, the cell of that index covers the point, and cell corners (counter-clockwise from the lower left), polygon, box, centroid and scaled coordinates describe that same square, neighbouring cells sharing their corners. After any history of reads, writes, creation, erasure, clearing and moves, by index or by point, a dense or hashed grid returns for each cell exactly what was last stored there (or nothing).",
  "all bounds, cell sizes, points and operation histories", "points on cell borders and on the upper bounds, and bounds that are not a multiple of the cell, decide indexing; tests use one grid",
  ["algorithm/grid_traits.hpp", "algorithm/grid_2d.hpp", "algorithm/hash_grid_2d.hpp"],
  [("point to index", "algorithm/grid_traits.hpp"), ("hashed cell storage", "algorithm/hash_grid_2d.hpp")], over=("inputs", "histories"))

P("P25", "Grid traversals visit exactly the cells under the shape",
  "Traversing a grid along a segment (voxel stepping, its stoppable form, or corner orientation) visits, each once and in a connected order from the cell of the start to the cell of the end (from the lexicographically smaller end for the orientation form), every cell whose interior the segment crosses inside the grid bounds and none it does not touch; it visits nothing when the segment misses the grid, always stops, and the stoppable form visits the same cells up to the stop. The Bresenham form visits the digital line between the two end cells. Filling a convex polygon (with disjoint convex holes) visits once each cell meeting it and none outside it or strictly inside a hole; flooding visits exactly the connected cells not walled off, and the empty interior of a marked grid is what its walls and holes leave.",
  "all segments and convex polygons on all grids", "runs through cell corners, along cell borders and partly outside the grid; tests walk a few short segments",
  ["algorithm/fast_voxel_grid_traversal.hpp", "algorithm/bresenham_grid_traversal.hpp", "algorithm/orientation_grid_traversal.hpp", "algorithm/floodfill_grid_traversal.hpp", "algorithm/cohen_sutherland_line_clipping.hpp"],
  [("voxel stepping", "algorithm/fast_voxel_grid_traversal.hpp"), ("column scan between borders", "algorithm/floodfill_grid_traversal.hpp")])

P("P21", "BSP trees of a region locate points, order edges and cast rays exactly",
  "For a polygonal region given by its rings (holes and islands alternating), in any edge order and with any splitting policy, the node-storing BSP tree, built at once or by insertion, locates every point inside, on the boundary or outside as the region does, and its painter's traversal visits every edge not seen edge-on, whole or in fragments, so that along any line of sight the farther come first. The solid-leaf tree classifies every point as empty, boundary or solid, finds the distance to and index of a nearest edge, and a ray from empty space hits the solid at the first point where it enters it (or at an earlier contact with its border), naming an edge which is there, and reports no hit when nothing is in the way. Splitting a convex polygon or a segment by a line gives exactly its two parts; a selection policy picks an entry not yet used, marks only that one, and the scored one none that another beats in both splits and balance.",
  "all regions, edge orders, split policies, query points and rays", "points and rays on the line of an edge, at vertices and through gaps between collinear edges take both branches at several nodes; tests use two fixed trees",
  ["algorithm/node_bsp_tree_2d.hpp", "algorithm/solid_leaf_bsp_tree.hpp", "algorithm/hyperplane_partition_policies.hpp", "algorithm/classify_simplex_to_plane.hpp"],
  [("both sides searched on a splitting line", "algorithm/node_bsp_tree_2d.hpp"), ("front/back leaves with coplanar simplices consumed once", "algorithm/solid_leaf_bsp_tree.hpp")])

P("P22", "kd-tree range queries report exactly the points in the range",
  "A kd-tree built with median partitioning over any non-empty point set (points and coordinates may repeat), in two or three dimensions, reports for every closed axis-aligned range exactly the points in it, each as often as it occurs. Median partitioning permutes the points so that none before the median is greater and none after it is less on the chosen dimension.",
  "all point sets and ranges", "points on the border of ranges and repeated median coordinates; tests query one range of one set",
  ["algorithm/kd_tree.hpp", "algorithm/median_partitioning_strategy.hpp"],
  [("leaf and region tests of the search", "algorithm/kd_tree.hpp"), ("nth_element on one dimension", "algorithm/median_partitioning_strategy.hpp")])

P("P19", "The plane sweep reports every meeting point of segments once, with exactly the segments meeting there",
  "For any set of proper segments, vertical, touching, overlapping or repeated ones included, the Bentley-Ottmann sweep reports each point where two or more segments meet (for overlapping ones the end points lying on another) exactly once, in sweep order, together with exactly the segments through it, and reports nothing else. Two diagonals' bounding boxes are reported to intersect exactly when the closed boxes share a point.",
  "all segment sets", "points where many segments end, start and cross, and overlaps, decide the sweep order; tests sweep one small set",
  ["algorithm/bentley_ottmann_segment_intersection.hpp", "algorithm/bentley_ottmann_sweep.hpp", "algorithm/bounding_box_intersection.hpp"],
  [("sweep order and events", "algorithm/bentley_ottmann_segment_intersection.hpp"), ("event queue", "algorithm/bentley_ottmann_sweep.hpp")])

P("P20", "Edges are chained back into the polylines and polygons they came from",
  "For any set of disjoint directed open and closed chains given as edges in any order, with end points equal up to the tolerance, the edge list yields exactly the open chains as polylines from start to end and the closed ones as polygons in order, also after adding edges in steps, recomputing, and through copies, assignments and moves.",
  "all chain sets, edge orders and operation histories", "results depend on insertion order and on state carried by copies; no test instantiates the class",
  ["algorithm/doubly_connected_edge_list.hpp"],
  [("component walk", "algorithm/doubly_connected_edge_list.hpp"), ("copy and move of the graphs", "algorithm/doubly_connected_edge_list.hpp")], over=("inputs", "histories"))

P("P23", "Triangle meshes keep their triangles, neighbours, points, samples and lines of sight straight",
  "For any conforming triangulation, listed in any rotation and direction and with repeated-point triangles mixed in, a mesh keeps exactly the proper triangles, counterclockwise, and knows for every side the triangle across it. Finding a triangle yields one containing the point exactly when some triangle does, with dense and sparse caches alike. A random position is the point of the triangle chosen by area share for all random numbers from zero to one inclusive. The visibility search from a point not at a vertex stops and finds every vertex seen clear of other vertices, each once, and none whose line of sight leaves the mesh.",
  "all conforming meshes, query points and random numbers", "points on shared edges and cache cell borders, the ends of the random range, interior vertices and holes; tests use one mesh",
  ["algorithm/mesh_2d.hpp", "algorithm/visible_vertices_mesh_search.hpp", "algorithm/is_segment_in_range.hpp", "algorithm/eberly_triangle_aabb_intersection.hpp"],
  [("adjacency and cached location", "algorithm/mesh_2d.hpp"), ("cone narrowing", "algorithm/visible_vertices_mesh_search.hpp")])

P("P31", "Fixed point numbers are scaled integers: no hidden loss, rounding only by the stated policy",
  "A fixed point number (compile time or run time scale, decimal, other radix or binary, signed integer format) built from a number is that number times the scale, rounded by its rounding policy (half to even, toward zero, up, down), whatever built-in type it came from; a value or product outside an int-sized format is refused with a numeric cast exception instead of wrapping. Sums, differences, increments, negation, fabs, copysign, fmod and all comparisons are exact on the scaled integers, and products and quotients are the exact ones truncated (floored for binary products) to the last place; with a built-in number that it can represent, on either side, every operator gives the result of converting that number first. Converting to floating point gives scaled value / scale, converting back restores it, copying between precisions keeps the value to the target's last place, and printing then reading a decimal number restores it. Dimensioned quantities of fixed point numbers compute as the numbers do.",
  "all scaled values, formats, scales and rounding policies listed, within range", "no existing test uses these types; rounding ties, sign and scale mixes depend on the input",
  ["numeric/fixed_point.hpp", "numeric/fixed_point_traits.hpp", "numeric/detail/fixed_point.hpp"],
  [("scaling and rounding", "numeric/fixed_point_traits.hpp"), ("scaled arithmetic", "numeric/fixed_point.hpp")])

P("P32", "Cartesian and polar reference frames describe the same location",
  "For every location in the plane or in space, given as a point or a vector, converting from the Cartesian to the polar frame gives its distance from the origin, the azimuth atan2(y, x) and, in space, the inclination from the z axis in [0, pi]; converting back restores the coordinates, and starting from polar coordinates the Cartesian ones are r times the usual sines and cosines (so the angle returns modulo a full turn). Construction and assignment convert alike, a sequence without a frame and one in the same frame keep their coordinates, and get_x/y/z and get_r/theta/phi give the coordinates of the frame they are named after whatever frame the sequence is in.",
  "all finite coordinates in 2D and 3D, on and off the axes, angles over several turns", "the test converts one point on the y axis; quadrants, axes and the third coordinate depend on the input",
  ["space/cartesian_polar_transformation.hpp", "space/polar_cartesian_transformation.hpp", "space/cartesian_access_traits.hpp", "space/polar_access_traits.hpp", "space/reference_frame_transformation.hpp", "primitive/point_traits.hpp", "tensor/vector_traits.hpp"],
  [("recursive term calculation", "space/cartesian_polar_transformation.hpp"), ("automatic transform", "primitive/point_traits.hpp")])
P("P33", "Supporting utilities keep their contracts under every history",
  "A memoised function returns what the function returns, calls it once per distinct argument list (also when recursive, and across copies sharing the cache) and honours entries already cached. Tagged quantities compute exactly as their values under every arithmetic, assignment, comparison, swap and math function, keeping equal tags. Containers with a private allocator behave as with the default one over any history, without leaks. Index, integer and real generators stay in their half-open ranges, reach every index, give an element of the range, and repeat after reseeding. hsv2rgb gives the HSV colour, palettes have the requested size and brightness. make_index_sequence<N> is 0..N-1. Scope timers count every scope once under its name, and their running count, sum, mean and variance are those of the durations pushed since the last clear.",
  "all argument histories, values, container histories, seeds and colours", "these helpers have at most one fixed example among the tests",
  ["utility/memoize.hpp", "utility/tagged_quantity.hpp", "utility/private_allocator.hpp", "utility/random_generator.hpp", "utility/golden_ratio_color_generator.hpp", "utility/integer_sequence.hpp", "utility/scope_timer.hpp", "utility/scope_timer.ipp", "algorithm/hyperplane_partition_policies.hpp"],
  [("cache lookup and hinted insertion", "utility/memoize.hpp"), ("operator families", "utility/tagged_quantity.hpp")], over=("inputs", "histories"))

P("P34", "Algorithms do not depend on how coordinates and point sequences are represented",
  "Every distance, intersection, motion, containment, path, grid and vector routine gives the same result for the same coordinates whether they are plain doubles, dimensioned boost.units quantities (lengths, velocities and times, with results in the matching unit), a user's point type reached through getters and setters, or a user's type built on a tuple. Polygons, polylines, std::vector, std::deque and std::array of the same points are interchangeable: the sequence traits list the same points forwards and backwards, by index and at both ends, and measures, distances and containment agree.",
  "all coordinates on which the routines are defined, every supported representation and container", "the tests call each routine with one or two representations on one fixed input",
  ["arithmetic/boost_units_arithmetic.hpp", "arithmetic/arithmetic_promotion_policy.hpp", "tensor/tensor_access_policy.hpp", "tensor/tuple_vector_access_policy.hpp", "tensor/fusion_vector_access_policy.hpp", "tensor/index_operator_vector_access_policy.hpp", "primitive/point_sequence_traits.hpp", "primitive/deque_point_sequence.hpp", "primitive/vector_point_sequence.hpp", "primitive/array_point_sequence.hpp", "utility/assignment_policy.hpp"],
  [("access policies", "tensor/tensor_access_policy.hpp"), ("type promotion", "arithmetic/arithmetic_promotion_policy.hpp"), ("container traits", "primitive/deque_point_sequence.hpp")])

P("P35", "Primitives are faithful values under every history of construction, copying and editing",
  "Under every sequence of constructions, copies, moves, assignments and edits, polygons, polylines, polygons with holes, segments, spheres, capsules, rectangles, oriented boxes, lines, points and vectors hold exactly the coordinates they were given, in order, through members, traits and free functions alike; copies are independent of their originals, and whatever was passed by reference is left unchanged. The corners of an oriented box are its centre plus and minus its half widths along its axes and give back the box; a line built from points, a direction or a segment passes through its reference point with a unit direction, its left normal and its signed offset from the origin.",
  "all coordinates, dimensions 2 to 5, and all histories of operations", "tests build primitives once by one constructor and read them",
  ["primitive/polygon.hpp", "primitive/polyline.hpp", "primitive/polygon_with_holes.hpp", "primitive/segment.hpp", "primitive/segment_traits.hpp", "primitive/sphere.hpp", "primitive/capsule.hpp", "primitive/rectangle.hpp", "primitive/oriented_bounding_box.hpp", "primitive/line.hpp", "primitive/vector_point_sequence.hpp", "primitive/array_point_sequence.hpp", "tensor/detail/point_n.hpp", "tensor/detail/vector_n.hpp", "utility/assignment_policy.hpp", "utility/construction_policy.hpp"],
  [("moves and edits", "primitive/polygon_with_holes.hpp"), ("constructors and assignments", "primitive/polygon.hpp"), ("invariants from each constructor", "primitive/line.hpp")], over=("inputs", "histories"))

P("P36", "The comparison policy the caller passes is the one that decides",
  "Where a routine takes a number comparison policy, that policy alone decides its verdicts. A planar or spatial figure whose coordinates are off a lattice figure by far less than the policy's absolute tolerance gets the lattice figure's verdict: orientation, betweenness, collinearity, ordering and equality of points, containment in triangles, boxes and polygons, kinds of intersection of segments (in the plane and in space), rays, lines and chains, side of a line or plane, simplicity and congruence of point sequences, duplicate and collinear vertex removal, edge-list assembly, range search, partition trees and the sweep. Under an exact policy no hidden tolerance or unit remains: scaling the whole figure by a power of two leaves every verdict the same and multiplies every reported length, area, distance and coordinate accordingly, and measuring time in another unit (velocities changed to match) leaves the verdicts and contact points of moving discs, boxes and polygons the same and scales their contact times.",
  "all planar and spatial figures, tolerances and scales", "tests use one policy and figures of one size, so a routine that ignores its policy or hides a constant passes",
  ["numeric/number_comparison_policy.hpp", "algorithm/orientation.hpp", "utility/utilities.hpp", "algorithm/point_in_polygon.hpp", "algorithm/line_intersection.hpp", "algorithm/linear_components_intersection.hpp", X+"segment_segment_intersection.hpp", X+"ray_segment_intersection.hpp", X+"ray_line_intersection.hpp", X+"segment_polyline_intersection.hpp", X+"polyline_polyline_intersection.hpp", X+"moving_sphere_segment_intersection.hpp", D+"segment_segment_closest_point.hpp", "tensor/is_null.hpp", X+"moving_sphere_obb_intersection.hpp", X+"moving_obb_obb_intersection.hpp", X+"moving_sphere_aabb_intersection.hpp", X+"moving_sphere_sphere_intersection.hpp", X+"moving_sphere_plane_intersection.hpp", X+"moving_separating_axis_convex_polygons.hpp", X+"sphere_obb_intersection.hpp", X+"sphere_polyline_intersection.hpp", Q+"polyline_offset.hpp", Q+"polyline_split.hpp", X+"segment_triangle_intersection.hpp", X+"segment_plane_intersection.hpp", Q+"remove_collinear_points.hpp", Q+"is_congruent.hpp", Q+"is_polygon_simple.hpp", Q+"self_intersection.hpp", "primitive/point_sequence_utilities.hpp", "algorithm/doubly_connected_edge_list.hpp", "algorithm/node_bsp_tree_2d.hpp", "algorithm/solid_leaf_bsp_tree.hpp", "algorithm/kd_tree.hpp", "algorithm/bentley_ottmann_segment_intersection.hpp"],
  [("the policy's predicates", "numeric/number_comparison_policy.hpp"), ("policy passed down to every helper", "algorithm/orientation.hpp")])

def main():
    for p in PROPS:
        for f in p['files']:
            assert os.path.exists('/repo/'+f), f
    man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": G + w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
            if glob.glob(os.path.join(V, "harness", p["id"] + "*.cpp")):
                man["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                    "technique": "property-based testing: choice-sequence generators, exact reference oracles, shrinking, ASan/UBSan",
                    "level": "exploration", "level_note": p["note"] or "Randomised search over small lattices, degenerate constructions and float inputs against an independent exact or brute-force oracle; shows absence of violations on the explored cases only, and trusts the oracle code in the harness."})
            else:
                man["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
    man["notes"] = "One harness per property in harness/<id>*.cpp, compiled by run.py against /repo's working tree; replay: python3 run.py <id> --replay FILE"
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
main()
