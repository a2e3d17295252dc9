#!/usr/bin/env python3
"""Emits /verif/properties.jsonl (source form of the property list)."""
import json, os
P = []

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

p("C01", "Mesh booleans compute exactly the set-theoretic solid",
  "For two closed, outward-oriented triangle meshes whose surfaces cross in general position, with details well above the tolerance of the predicates, or do not meet at all, union, intersection and difference each return a closed, structurally valid mesh whose triangles face outward and use all its vertices. A point off both surfaces lies inside the result exactly when the set operation applied to its membership in the two operands says so, so the volumes satisfy |A or B| = |A| + |B| - |A and B| and |A minus B| = |A| - |A and B|. This holds for every supported number type, for operands with several pieces or cavities, and when a result is used as an operand again.",
  ["inputs"], "all pairs of closed meshes (convex, star-shaped, tori, polycubes, several pieces, cavities) crossing in general position or not at all, three operations, three number types, chains of two operations",
  "The tests run a handful of fixed cube pairs and only assert that connectivity validation does not panic; neither volume nor membership is ever compared, and placements are not varied.",
  ["src/mesh_processing/boolean.rs", "src/mesh_processing/batching.rs", "src/geometry/tri_tri_intersect.rs", "src/operations/triangulation/delaunay.rs"],
  [("corefine_and_boolean", "src/mesh_processing/boolean.rs"), ("face classification flood fill", "src/mesh_processing/boolean.rs"), ("constrained retriangulation of cut faces", "src/operations/triangulation/delaunay.rs")])

p("C02", "Lazy-exact numbers are indistinguishable from exact rationals",
  "Any value built from f64 and rational inputs by addition, subtraction, multiplication, negation and division by non-zero values has exactly the value the same computation has over the rationals. Its sign, zero test, comparisons, equality and exact value agree with the rational result however close the operands are and in whatever order the value was previously queried, approximated, cloned or shared.",
  ["inputs", "histories"], "all expression DAGs over finite leaves, also more than a thousand operations deep, and all interleavings of queries that may populate caches",
  "No test builds a lazy-exact expression at all except through two missing mesh resources; near-cancellation and cached-state interleavings need search.",
  ["src/numeric/lazy_exact.rs", "src/numeric/ball.rs"],
  [("ball filter with exact fallback", "src/numeric/lazy_exact.rs, src/numeric/ball.rs"), ("exact/ball caches on DAG nodes", "src/numeric/lazy_exact.rs")])

p("C03", "Number types honour equality, ordering, hashing and conversion contracts",
  "For every number type, equal values hash equally, ordering is antisymmetric and agrees with the sign of the difference, and the field identities hold (exactly for the exact types). Converting a finite f64 into an exact type and back is lossless, converting between the exact types preserves the value, and any interval reported around a value contains it.",
  ["inputs"], "all finite doubles including subnormals and signed zeros, all small and large rationals, all pairs/triples of values",
  "Unit tests use a few literals such as 0.5 and never cross-check hash, order and conversion.",
  ["src/numeric/cgar_f64.rs", "src/numeric/cgar_rational.rs", "src/numeric/lazy_exact.rs", "src/numeric/scalar.rs"],
  [("Eq/Hash/PartialOrd/From impls", "src/numeric/*.rs")])

p("C04", "Orientation and in-circle predicates return the true sign",
  "With an exact number type the planar and spatial orientation predicates return the sign of the exact determinant for all inputs, including collinear, coplanar and axis-aligned ones, and the in-circle predicate never reports the wrong side and reports the true side whenever its determinant is outside the tolerance. With f64 the predicates return the true sign whenever the determinant is clearly outside the documented tolerance and never the opposite one. Swapping two arguments flips the sign.",
  ["inputs"], "all 3/4-tuples of points in 2D/3D, biased to degenerate and axis-aligned configurations",
  "Tests check a single CCW triple and three tetrahedra with axis-aligned unit coordinates.",
  ["src/kernel/orientation.rs", "src/kernel/predicates.rs", "src/kernel/f64_kernel.rs", "src/kernel/bigrational_kernel.rs"],
  [("orient / orient2d / incircle / kernel methods", "src/kernel")])

p("C05", "Point-versus-segment and point-versus-triangle classification is correct",
  "Collinearity with a segment of distinct ends, coincidence, point-on-segment (with its parameter) and point-in/on-triangle classification of points in the triangle's plane agree with exact arithmetic for exact number types, and with it outside the tolerance for f64. Endpoints and triangle vertices are reported as being on the segment or triangle, a segment without length holds its one point only, and classifications do not depend on the order in which the segment ends or the triangle vertices are given.",
  ["inputs"], "all points, segments and non-degenerate triangles in 2D and 3D, biased to points on or near the boundary",
  "Tests check one point per predicate.",
  ["src/kernel/predicates.rs"],
  [("are_collinear, is_point_on_segment, point_u_on_segment, point_in_or_on_triangle", "src/kernel/predicates.rs")])

p("C06", "Segment-segment intersection reports exactly the common points",
  "For two non-degenerate segments in 2D or 3D the intersection query reports nothing when they share no point, the unique common point when they share one, and the common sub-segment when they overlap collinearly. The answer is independent of the order of the segments and of their end points.",
  ["inputs"], "all pairs of segments, biased to touching, collinear, vertical and skew ones",
  "Tests check one crossing, one miss and one overlap per dimension.",
  ["src/geometry/intersection.rs", "src/geometry/tri_tri_intersect.rs", "src/kernel/orientation.rs"],
  [("segment_segment_intersection_2/3, segment_intersect_2d", "src/geometry")])

p("C07", "Triangle-triangle intersection matches the exact answer",
  "For two non-degenerate triangles in 3D the intersection query reports an intersection exactly when the closed triangles share a point, and the reported end points lie on both triangles and span the whole common segment when they cross. Every variant of the query (plain, precomputed, detailed) gives the same answer, and swapping the triangles or rotating their vertices does not change it. Features shorter than the library's point-merge distance are outside the claim.",
  ["inputs"], "all pairs of triangles on an integer grid and under generic perturbation, including touching and coplanar pairs",
  "The tests compare one or two hand-made pairs.",
  ["src/geometry/tri_tri_intersect.rs"],
  [("tri_tri_intersection*, TriPrecomp", "src/geometry/tri_tri_intersect.rs")])

p("C08", "Spatial queries never miss an intersecting box",
  "A box query over the spatial tree returns every live entry whose box intersects the query box, returns no entry whose box is clearly disjoint from it, and never returns an invalidated entry from the valid-only query. This holds after any sequence of builds, insertions, invalidations and compactions, and for every number type.",
  ["inputs", "histories"], "all sets of boxes, all histories of insert/invalidate/compact and all query boxes",
  "Tests build one three-element tree and query it twice; no history is exercised.",
  ["src/geometry/aabb_tree.rs", "src/geometry/aabb.rs"],
  [("build/query/query_valid/insert/invalidate/compact", "src/geometry/aabb_tree.rs")])

p("C09", "The half-edge structure stays a consistent manifold under every edit",
  "After any sequence of vertex and triangle insertions, single or batched triangle removals, and refills, the mesh contains exactly the triangles the caller asked for with their orientation, every half-edge has a matching twin with consistent next/previous links, every directed edge is indexed exactly once, and open edges are linked into closed border loops. Local queries (rings, incident faces, edge lookup, border vertices) agree with the triangle list.",
  ["histories"], "all edit histories that keep the triangle set manifold",
  "Tests build one to four fixed triangles and remove one.",
  ["src/mesh/triangle.rs", "src/mesh/core.rs", "src/mesh/topology.rs"],
  [("add_triangle, remove_triangle(s), border welding", "src/mesh/triangle.rs")])

p("C10", "Splitting edges and faces never changes the surface",
  "Splitting an edge at a point on it, or a face at a point inside it, replaces the affected triangles by ones that cover exactly the same region with the same orientation, keeps the mesh structurally valid with the same Euler characteristic and border, and inserts the requested point as a vertex. The spatial tree kept alongside stays complete for the new faces.",
  ["inputs", "histories"], "all closed and open meshes, all sequences of splits at arbitrary parameters",
  "Split operations are not directly tested at all.",
  ["src/mesh/core.rs"],
  [("split_edge, split_face", "src/mesh/core.rs")])

p("C11", "Edge flips preserve the mesh except for the flipped diagonal",
  "Flipping an interior edge replaces exactly the two triangles sharing it by the two triangles of the other diagonal with the same orientation, leaving all other triangles, the border and validity untouched; flipping back restores the original triangle set. Border edges, flips that would duplicate an existing edge and (in 3D) flips that would create a zero-area triangle are refused without modifying the mesh, and every other flip is performed.",
  ["inputs", "histories"], "all meshes and sequences of flips",
  "One square is flipped once.",
  ["src/mesh/core.rs"],
  [("flip_edge", "src/mesh/core.rs")])

p("C12", "Edge collapse keeps the mesh valid or leaves it untouched",
  "A collapse either is rejected and leaves the mesh unchanged, or removes exactly one vertex and the one or two triangles on the edge, keeps the surface a valid manifold with the same Euler characteristic and number of components, and rewires every remaining triangle from the removed vertex to the kept one; only a piece consisting of nothing but the edge's own triangles vanishes whole. A collapse that would violate the link condition, pinch an open surface, or break a requested normal or area restriction is rejected, and every other collapse is performed.",
  ["inputs", "histories"], "all closed meshes and all sequences of attempted collapses",
  "Tests collapse one edge in a few small fixed patches.",
  ["src/mesh/edge_collapse.rs", "src/mesh/topology.rs"],
  [("collapse_edge_begin_*/commit, link condition", "src/mesh/edge_collapse.rs")])

p("C13", "Delaunay triangulation is a Delaunay triangulation of all points",
  "Triangulating any set of points that are not all collinear, with separations well above the predicates' tolerance, yields counter-clockwise triangles that use every distinct point, tile the convex hull without overlap, and whose circumcircles contain no input point in their interior. Collinear sets yield no triangle, duplicates are ignored, and a batch gives one result per job in order.",
  ["inputs"], "all planar point sets, including cocircular and grid-aligned ones, anywhere in the plane",
  "There is no direct triangulation test.",
  ["src/operations/triangulation/delaunay.rs"],
  [("Delaunay::build (Bowyer-Watson)", "src/operations/triangulation/delaunay.rs")])

p("C14", "Constrained triangulation keeps every constraint and tiles the region",
  "Triangulating points with constraint segments that do not cross each other away from a given point yields counter-clockwise triangles over those points that tile their convex hull without overlap, and every constraint is a chain of triangulation edges through the points on it. Constraints that name no segment are ignored, and the triangles reported as inside a constrained face are exactly those that tile it.",
  ["inputs"], "all planar straight-line graphs with non-crossing constraints",
  "Only reached indirectly by boolean tests that compare nothing geometric.",
  ["src/operations/triangulation/delaunay.rs", "src/mesh_processing/batching.rs"],
  [("build_with_constraints_bowyer_watson, build_batch_with_constraints_bowyer_watson", "src/operations/triangulation/delaunay.rs")])

p("C15", "Point-in-mesh and ray queries give the geometric answer",
  "For a closed mesh, convex or not and in one or several pieces, a point is reported inside, outside or on the surface according to its true position, and a point off the outline of a planar mesh is reported inside exactly when some triangle contains it. A ray query reports a hit exactly when the ray meets a live face that is not parallel to it, at the true nearest parameter and on the vertex, edge or face actually hit with the right parameters. A ray started at a corner of a triangle leaves through the opposite edge at the true place, or is reported as running along a side, or not at all when it points outside.",
  ["inputs"], "all closed meshes (convex, star-shaped, toroidal, polycubes, two components, refined or with removed faces) and query points including those on vertices, edges and faces; all rays, including through vertices and edges and within face planes; all corner rays of all triangles",
  "There is no test of point-in-mesh or ray casting.",
  ["src/mesh/topology.rs"],
  [("point_in_mesh_3, cast_ray_3, point_in_mesh_2, cast_ray_2", "src/mesh/topology.rs")])

p("C16", "Locating a point on the surface finds the right face, edge or vertex",
  "Locating a point that lies on the surface, starting from any face, also one that has been split away or lies elsewhere on the mesh, ends at a live face that contains the point; the answer says inside, on an edge or at a vertex as is true for that face, with weights, edge parameter or vertex that reproduce the point. Starting from an edge that contains the point, whole or split since, the search ends at a live edge that contains it. Weights and edge membership asked for one face agree with geometry, and the box-tree lookup returns exactly faces holding the point strictly inside.",
  ["inputs", "histories"], "all points inside faces, on edges and at vertices of surfaces in the plane and in space, after any sequence of splits, from every live or removed face and half-edge",
  "There is no test of point location.",
  ["src/mesh/topology.rs"],
  [("find_valid_face, location_on_face, barycentric_coords_on_face", "src/mesh/topology.rs")])

p("C17", "Isotropic remeshing keeps the surface a closed manifold of the same kind",
  "Remeshing a closed mesh to a target edge length terminates with a structurally valid closed manifold mesh with the same Euler characteristic and number of pieces, and does nothing when no iteration is allowed; one iteration adds or removes no vertex when every edge already has an acceptable length, and adds some when an edge is clearly too long. When the faces and the target are small against the thickness of the solid, every vertex stays within a small multiple of the target from the original surface, the volume keeps its sign and magnitude, and after enough iterations the edge lengths lie around the target. Without a target the present mean length is used.",
  ["inputs", "configurations"], "all closed manifold meshes, target lengths from 0.4 to 2.4 times the present mean, up to ten iterations; geometric claims for meshes with at least 60 faces and targets below three times volume over area",
  "The only test needs a missing resource file and therefore never runs.",
  ["src/mesh_processing/remesh.rs", "src/mesh/edge_collapse.rs", "src/mesh/core.rs"],
  [("isotropic_remesh and its split/collapse/flip/smooth phases", "src/mesh_processing/remesh.rs")])

p("C18", "Writing a mesh and reading it back preserves it",
  "For OBJ and OFF, writing any mesh with finite coordinates and reading the file back yields the same vertices and triangles in the same order and orientation with the same coordinates up to the precision of the format; for STL it yields the same geometric triangles in the same order. The file is complete and well-formed, so that any other reader of the format finds the same mesh in it. Faces that were removed are not written.",
  ["inputs", "histories"], "all meshes with finite coordinates, including ones with removed faces, removed vertices and unused vertices",
  "File I/O is only exercised against paths that do not exist in the test environment.",
  ["src/io/obj.rs", "src/io/off.rs", "src/io/stl.rs"],
  [("write_*/read_*", "src/io")])

p("C19", "Readers parse well-formed files and reject malformed ones, never crashing",
  "Reading an OBJ, OFF or STL file with arbitrary content either returns a mesh with exactly the vertices and faces the file describes, or returns an error; it never panics or hangs. A well-formed file is always read, and a file with a non-numeric or non-finite coordinate, an index outside the file's vertices or a face repeating a vertex is always an error.",
  ["inputs"], "all byte sequences, biased to mutations of valid files",
  "No test reads a malformed file.",
  ["src/io/obj.rs", "src/io/off.rs", "src/io/stl.rs"],
  [("read_obj, read_off, read_stl", "src/io")])

p("C20", "Vertex welding and clean-up keep the surface",
  "Removing duplicate vertices, unused vertices and dead faces merges exactly coincident vertices, keeps the same set of geometric triangles (apart from ones that become degenerate), drops only unreferenced vertices, and leaves a structurally valid mesh. Looking up or inserting a vertex at the position of a live vertex returns that vertex, also after vertices were moved or removed.",
  ["inputs", "histories"], "all triangle soups with shared positions and all clean-up orders",
  "No test of clean-up exists.",
  ["src/mesh/core.rs", "src/mesh/spatial_hash.rs"],
  [("remove_duplicate_vertices, remove_unused_vertices, remove_invalidated_faces, get_or_insert_vertex", "src/mesh/core.rs")])

p("C21", "Vector, matrix and plane algebra is exact",
  "Over an exact number type, vector, point, segment, matrix and plane operations satisfy their defining identities: bilinearity, Lagrange's identity for cross products, determinant multiplicativity, inverse times matrix is the identity exactly when the determinant is non-zero, and a plane through three points contains them. The f64 versions agree with them within rounding.",
  ["inputs"], "all vectors, matrices and point triples with rational entries",
  "Only two cross products are tested.",
  ["src/geometry/vector.rs", "src/geometry/vector_2.rs", "src/geometry/vector_3.rs", "src/geometry/matrix.rs", "src/geometry/plane.rs", "src/geometry/point.rs", "src/geometry/segment.rs"],
  [("operator impls, det, inverse, plane construction", "src/geometry")])

p("C22", "Bounding boxes contain what they bound and intersect when they overlap",
  "A box built from points, faces or other boxes contains all of them, union is the smallest box containing both, the intersection test agrees with exact coordinate comparison including touching boxes, the approximate test never contradicts it, and inflating a box never loses points.",
  ["inputs"], "all boxes and points for all number types",
  "Tests check two fixed boxes per dimension.",
  ["src/geometry/aabb.rs", "src/mesh/core.rs", "src/kernel/predicates.rs"],
  [("Aabb::{from_points,union,intersects,intersects_approx,inflated}, face_aabb, bbox*", "src/geometry/aabb.rs")])

p("C23", "Intersection curves between meshes are complete curves on both",
  "Intersecting two meshes in general position yields, for each mesh, exactly one segment per pair of live faces that meet, with the true end points, lying on the named face, and none when the surfaces do not meet. What is said about an end point (edge, parameter and faces at it, or barycentric weights) reproduces the point. The segments form closed loops on closed meshes, and on open ones chains that end only at borders; exchanging the meshes exchanges the answers.",
  ["inputs"], "all pairs of closed or open meshes in general position, also after splits that left removed faces behind",
  "Never tested directly.",
  ["src/mesh_processing/boolean.rs", "src/geometry/tri_tri_intersect.rs"],
  [("get_mesh_intersections_3", "src/mesh_processing/boolean.rs")])

p("C24", "Surface measures and smoothing respect the geometry",
  "Face areas (the squared area in 3D), centroids, unnormalised normals and the root-mean-square edge length equal their definitions for every live triangle. Tangential smoothing moves a vertex by the requested fraction of the neighbour average's offset with its normal part removed, leaves border and isolated vertices and moves that would exceed the length limit untouched, reports exactly the moves it made, and never changes connectivity.",
  ["inputs"], "all meshes, vertices and smoothing parameters",
  "One right triangle's area is tested, and one grid is smoothed once.",
  ["src/mesh/topology.rs", "src/mesh/core.rs", "src/mesh_processing/remesh.rs"],
  [("face_area, face_centroid, face_normal, smooth_tangential, smooth_vertices", "src/mesh")])

p("C25", "Booleans are right for solids that touch or share faces",
  "For closed meshes that share vertices, edges or parts of faces, or coincide, and whose set operation has a manifold surface, union, intersection and difference return a closed, structurally valid mesh without unused vertices that bounds exactly that set, whatever the triangulation of the shared parts. The empty solid is an operand and a result like any other, and results can be combined further. Both operands still bound the same solids afterwards.",
  ["inputs"], "all chains of up to three operations on unions of cells of a tetrahedral grid (boxes and tetrahedra of any size with large or small faces, grown clusters), under any common affine map, three number types",
  "The tests combine two pairs of cubes that share a face and only validate connectivity.",
  ["src/mesh_processing/boolean.rs", "src/mesh_processing/batching.rs", "src/geometry/tri_tri_intersect.rs", "src/operations/triangulation/delaunay.rs"],
  [("corefine_and_boolean on coplanar and touching faces", "src/mesh_processing/boolean.rs"), ("coplanar face overlap", "src/geometry/tri_tri_intersect.rs")])

p("C26", "Booleans of planar meshes compute exactly the set of points",
  "For two triangulated regions of the plane with counter-clockwise triangles, whether they cross, touch, share edges, lie in each other, coincide or do not meet, and whose set operation is a manifold region, union, intersection and difference return a structurally valid mesh of counter-clockwise triangles that cover each point of that set once and nothing else, fit together edge to edge, and use all its vertices. The empty region is an operand and a result like any other, and results can be combined further. Both operands still cover the same regions afterwards.",
  ["inputs"], "all pairs of planar meshes in general position (grids, fans, with holes and several pieces) and all chains of up to three operations on unions of half squares of a grid, three number types",
  "The tests combine one pair of squares and look only at connectivity and the presence of faces.",
  ["src/mesh_processing/boolean.rs", "src/mesh_processing/batching.rs", "src/geometry/tri_tri_intersect.rs", "src/operations/triangulation/delaunay.rs", "src/mesh/topology.rs"],
  [("corefine_and_boolean in two dimensions", "src/mesh_processing/boolean.rs"), ("point_in_mesh_2", "src/mesh/topology.rs")])

p("C27", "Structural validation accepts sound meshes and rejects damaged ones",
  "The connectivity validation passes every mesh in which next, previous and opposite links are mutual, every half-edge lies in the cycle of its face, every vertex refers to an outgoing half-edge, and no directed edge occurs twice. It rejects every mesh in which one of these is broken, at borders as well as inside, and it always ends. The validation of half-edges rejects exactly the meshes with a directed edge that occurs twice.",
  ["inputs"], "all meshes with or without borders, sound or with one or two links, labels or handles changed to any other index",
  "The tests call the validation only on meshes that pass it, so a validation that accepts everything would pass them all.",
  ["src/mesh/topology.rs"],
  [("validate_connectivity", "src/mesh/topology.rs"), ("validate_half_edges", "src/mesh/topology.rs")])

p("C28", "The convex hull of planar points is exactly its corners in order",
  "For planar points that do not all coincide, the convex hull is the list of the corners of the hull, each once, counter-clockwise; points inside it or on its sides between corners, and repetitions, are left out. Points on one line give its two ends, and fewer than three points give all of them. Lifting a planar point back along a dropped axis restores the two kept coordinates and takes the third from the reference point.",
  ["inputs"], "all planar point sets (random, on grids, on lines, on circles, with repetitions) in any order, three number types",
  "No test calls it.",
  ["src/geometry/tri_tri_intersect.rs"],
  [("convex_hull_2d_indices", "src/geometry/tri_tri_intersect.rs"), ("back_project_to_3d", "src/geometry/tri_tri_intersect.rs")])

p("C29", "Number enclosures always contain the exact value",
  "An enclosure (a centre and a radius) built from doubles or from values within one step of a double, and combined by addition, subtraction, multiplication, division and negation, contains the exact value of the same computation, whatever the magnitudes and cancellations. A sign reported as certain is the sign of the exact value. An enclosure is not wider than the rounding and the operands call for.",
  ["inputs"], "all finite doubles including subnormal and huge ones, exact or off by up to one step, and all expressions over them",
  "A radius that is too small by one rounding shows only when everything else cancels.",
  ["src/numeric/ball.rs"],
  [("Ball arithmetic", "src/numeric/ball.rs"), ("sign_if_certain", "src/numeric/ball.rs")])

p("C30", "Lazily evaluated numbers can be shared between threads",
  "When several threads query and combine the same lazily evaluated numbers at the same time, every thread gets the answers of exact rational arithmetic, none of them panics, and the values are the same afterwards. The same holds for threads that locate points in a shared mesh with such coordinates.",
  ["inputs", "schedules"], "all expressions over finite leaves, two to four threads that start together with the same questions about values nobody has evaluated before, and all schedules the machine produces",
  "The tests are single-threaded; what goes wrong when two threads fill the same cache shows only in some schedules.",
  ["src/numeric/lazy_exact.rs"],
  [("shared caches of expression nodes", "src/numeric/lazy_exact.rs")])

p("C31", "A file that could not be written completely is reported",
  "Writing a mesh to OBJ, OFF or STL succeeds only if the whole file was stored: when the destination stops taking data after any number of bytes short of the length of the file, or cannot be opened, the writer returns an error and does not panic. When there is room for exactly the whole file it succeeds, and writing the same mesh again gives the same bytes.",
  ["inputs", "crash_points", "fault_sequences"], "all meshes, the three formats, and every byte position at which the destination may become full",
  "The tests write to disks with plenty of room; a writer that loses what is left in its buffer passes them all.",
  ["src/io/obj.rs", "src/io/off.rs", "src/io/stl.rs"],
  [("buffered writers and their final flush", "src/io/off.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
