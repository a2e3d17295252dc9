head=open('/verif/tools/design_head.md').read()
i=head.index('* *Degenerate contact of booleans.*')
head=head[:i].replace('The 24 properties','The 31 properties')+'''* *General position and contact.* C01 and C23 claim general position with a margin: an edge meets a face away
  from the face's edges and its own ends (in parameter and barycentric units), by 1/2048 in `f64`, and for exact
  types by 1/8192 in C01 and 1/131072 in C23. Different points of the curve are at least 2e-4 (`f64`) or 1e-4
  (exact) of the solid's size apart in C01, and 2e-5 in C23 for exact types. Below that the retriangulation of a
  face, which works with a tolerance of 1e-10 on normalised coordinates for every number type, drops triangles and C01
  does not hold (seen at features of 5e-5 on faces of size 4); the intersection curve itself is still right, which
  is why C23 goes further down. In `f64` chains faces have an altitude of at least 2% of
  the longest edge. Contact (common planes, edges, vertices, coinciding solids) is the subject of C25, on solids
  whose corners lie on a grid under a common affine map, where the exact answer is known cell by cell. What lies
  between the two, contact missed by less than the tolerances, is claimed nowhere: the retriangulation works
  with 1e-10 tolerances for every number type.
* *Results that are not manifold.* If the set operation itself gives solids that touch in an edge or a vertex
  only, a half-edge mesh cannot hold the result; C25 skips those cases and C01 excludes them by position.
* *`f64` chains in contact.* Rounded intersection points no longer lie on the common planes, so C25 chains
  operations for the exact types only.
* *Not covered:* timing, printing, and the dead modules `geometry/vector_2.rs` and `vector_3.rs`, which are not
  part of the crate.

## 3. Properties

Each entry: what is generated; the oracle; bounds; cost (quick/thorough case counts; seconds for quick on 8 idle
cores); what it reaches that the tests do not.

'''
P=[
("C01 Mesh booleans","Pairs of closed solids from all generators, also with a second piece or a cavity, refined by random splits first, B scaled and moved so that it overlaps A off A's grid; one or all three operations; the result used again as an operand with a third solid; operands reused after being cut.",
 "The result is audited from raw fields, must be closed, have manifold vertices, no triangle without area; every triangle's centroid must lie on one operand, on the right side of the other, facing the right way; volumes equal the exact inclusion-exclusion identities (the volume of the result is computed exactly); random points are compared by winding number.",
 "up to about 100 faces per operand; margins as in section 2","30k / 250k, 70 s","membership is compared at every face and at random points; the tests only validate connectivity of three fixed pairs"),
("C02 Lazy-exact numbers","Expression DAGs with shared nodes over doubles and rationals of very different magnitude, biased to cancellation (x+y-x, products of differences), with interleaved queries (sign, comparison, approximation, clone, exact value) that populate caches.",
 "The same DAG over `rug` rationals; every query must agree.","up to about 15 operations, some of them chains of up to 1034 unevaluated steps","1M / 8M, 9 s","cache state and filter failures depend on histories and on near-cancellation that fixed tests never build"),
("C03 Number contracts","Triples of values: special doubles, subnormals, signed zeros, rationals, derived lazy values.",
 "Equality, hash, order, sign of difference, field identities, conversions and intervals against `Q`.","finite values","1.5M / 10M, 18 s","contracts quantify over all pairs"),
("C04 Orientation and in-circle","Point tuples on grids, collinear/coplanar/cocircular by construction, perturbed by tiny amounts, large offsets.",
 "Exact determinant sign.","in-circle tolerance as documented","600k / 6M","zero pivots and degenerate placements"),
("C05 Point classification","Points on, near and off segments and triangles in 2D and 3D, built from barycentric weights.",
 "Exact classification; permutation of arguments.","non-degenerate triangles","600k / 6M","boundary cases in all orders"),
("C06 Segment intersection","Segment pairs: crossing, touching, collinear (overlapping, adjacent, apart), skew, parallel; also ray-segment.",
 "Exact solve of the 2x2 system.","positive length","500k / 5M","all contact types in both dimensions"),
("C07 Triangle intersection","Triangle pairs on grids: generic, vertex/edge contacts, coplanar, slanted planes, thin.",
 "Exact clipping of triangle against triangle in the oracle; all variants must agree with it and one another.","features above the merge distance","300k / 3M","contact types by construction, all variants, exchanged arguments"),
("C08 Box tree","Histories of build, insert, invalidate, compact, query over boxes in 1 to 3 dimensions with derived-number corners.",
 "A plain list of boxes.","up to 400 entries and 70 steps","120k / 1.5M, 3 s","tree shape depends on the history"),
("C09 Half-edge edits","Histories of adding/removing triangles (single, deferred batch, refill), vertices, on closed and open meshes.",
 "Set-of-triangles model plus audit of all half-edge fields, and every local query compared with the triangle list.","histories of up to about 60 edits","400k / 4M, 11 s","stale handles only show after specific orders of edits"),
("C10 Splits","Edge and face splits at any parameter including ends and borders, by half-edge or by point, repeated inside split regions, with the box tree kept along.",
 "Triangles map exactly to the parent (area, orientation, cover), Euler characteristic, border, tree completeness by linear scan.","up to 30 splits","150k / 1M, 14 s","removed-face chains and tree maintenance"),
("C11 Flips","Sequences of flips and attempted flips on open and closed meshes, 2D and 3D, then flipping back.",
 "Set-of-triangles model; refusal conditions recomputed independently.","up to 50 flips","200k / 2M","refusals must be exact in both directions"),
("C12 Collapses","Attempts on closed and open meshes with all options and placements.",
 "Independent link condition, model collapse, audit, Euler characteristic, components, option conditions.","up to 30 attempts","100k / 1.5M, 8 s","two-sided: unjustified refusals fail as well"),
("C13 Delaunay","Point sets: grids, circles, clusters, far from the origin, nearly flat, duplicates, collinear; points at very different distances, halfway between others (tiling only); batches.",
 "Exact orientation, empty circumcircle, hull area, every point used.","separations above the tolerance","150k / 1.5M","cocircular and far-away sets"),
("C14 Constrained triangulation","Planar straight-line graphs with non-crossing constraints through points, invalid constraint indices, constrained faces.",
 "Exact tiling (area, orientation), every constraint covered by edges, reported inside triangles tile the face.","non-crossing constraints","100k / 1M","constraint recovery through many triangles"),
("C15 Point-in-mesh and rays","Closed meshes of all kinds, query points on/inside/outside features, rays through vertices, edges and in face planes, corner rays.",
 "Exact winding number by an independent generic-direction crossing count; exact nearest ray hit with feature.","f64 outside the tolerance","250k / 3M, 24 s","non-convex solids and degenerate rays"),
("C16 Point location","Points inside faces, on edges, at vertices after split histories; search started from every kind of live or dead face and half-edge.",
 "Exact barycentric coordinates.","surfaces of up to about 60 faces","150k / 2M, 17 s","start faces that no longer exist"),
("C17 Remeshing","Closed meshes, targets 0.4 to 2.4 of the mean length, 0 to 10 iterations.",
 "Audit, Euler characteristic, components, distance to the original surface, volume, edge length statistics with bounds measured and then widened.","geometric claims only for fine meshes","100k / 1M, 45 s","topology must survive thousands of local edits"),
("C18 Writing files","Meshes with any finite coordinates, removed faces, unused vertices; three formats.",
 "An independent strict parser of the written text, and the library's reader, must both give the same mesh; facet normals checked.","finite coordinates","250k / 1.2M, 20 s","coordinate extremes and edited meshes"),
("C19 Reading files","Well-formed files in many spellings and mutations of them: tokens, counts, indices, line ends, truncation.",
 "An independent reader decides what the text describes or that it is malformed.","files of up to a few kB","500k / 3M","all byte sequences"),
("C20 Welding and clean-up","Soups with repeated positions, moved and removed vertices, all orders of clean-up calls, lookups.",
 "Set of geometric triangles; audit; linear-scan lookup.","coincident or clearly distinct positions","150k / 1.2M, 6 s","orders of clean-up"),
("C21 Vector, matrix, plane algebra","Vectors, matrices, segments, planes with rational entries, singular matrices by construction.",
 "Definitions over `Q`.","entries up to a few digits","400k / 3M","identities over all inputs"),
("C22 Boxes","Boxes and points from all number types, derived corners, touching boxes.",
 "Exact coordinate comparison.","","400k / 5M, 5 s","touching boxes with non-double corners"),
("C23 Intersection curves","Pairs of closed or open meshes in general position, also with removed faces.",
 "All face pairs intersected exactly; segments matched one to one; hints recomputed; loop closure; exchange of arguments.","margins as in section 2","60k / 600k, 52 s","never tested"),
("C24 Measures and smoothing","Meshes, vertices, parameters.",
 "Definitions over `Q` (f64 in floating point with tolerance).","","40k / 400k, 18 s","limits and borders"),
("C25 Booleans in contact","Solids that are unions of unit tetrahedra of the Kuhn subdivision of a grid: boxes and scaled tetrahedra with few large faces or all small ones, clusters grown through faces; chains of up to three operations; a common affine map (shears, thirds, sevenths); shuffled order.",
 "The set operation on cells. The result and both cut operands must be closed, manifold, of the exact volume, and have the right winding number at every cell's barycentre.","about 5x5x5 grid; results with manifold surface","60k / 500k, 60 s","coplanar overlap, edges on edges and vertices in faces, by construction in almost every case; the tests have one such pair"),
("C26 Planar booleans","Half of the cases: pairs of jittered grids and fans, with dropped faces and second pieces, each under its own linear map, moved over each other, in general position (every crossing at least 1e-3, for exact types 1e-4 of the longest edge, from edges it is not on; a third of the exact cases barely reach over something). The other half: rectangles and triangles with large faces, and grown clusters of half squares of a grid, or nothing, combined one to three times under a common map.",
 "Exact clipping gives the area of the common part, so the area of the result is known. At the centre of every common part, of every cell and of every triangle of the result, and at a random point of every operand triangle, the number of result triangles is compared with the set operation. The result and the cut operands are audited, their triangles counter-clockwise, and no two border edges lie on each other.","up to about 25 triangles per operand","60k / 600k, 50 s","overlaps, gaps and inverted triangles are visible only against the set; the tests look at connectivity"),
("C27 Validation","Planar, closed and open meshes; in most cases one or two links (next, previous, opposite), face labels, vertex handles, face handles or vertices of half-edges are set to another valid index, or two half-edges exchange a field.",
 "The conditions of the statement, read off the raw fields; the verdict must be the same both ways. A verdict that takes longer than a minute (instead of microseconds) counts as none.","up to about 60 half-edges","300k / 3M, 6 s","the tests never see the validation fail; it did not end on some damaged meshes (fixed)"),
("C28 Convex hull","Point sets of C13: random, grids, lines, circles, repetitions; all number types with derived coordinates.",
 "Exact monotone chain over `Q`, compared as a cycle.","up to 30 points","600k / 6M, 18 s","collinear runs, repetitions and ties in the sort order"),
("C29 Enclosures","Expressions over doubles of all magnitudes and values off by up to one step, with cancellation built in.",
 "The same computation over `Q`; containment, sign, and a bound on the width.","up to about a dozen operations","1.5M / 15M, 3 s","a radius that was itself rounded down missed the value after cancellation (fixed)"),
("C30 Threads","Expressions with chains of up to 210 operations (so that an evaluation takes a while), two to four threads with common first questions and their own later ones, released by a barrier; in some cases a shared mesh with derived coordinates and points to locate.",
 "Rational arithmetic for every answer of every thread, and for all values afterwards; exact winding for the points.","the schedules are those the machine happens to produce, so a replay of a failure may need several attempts","100k / 1M, 15 s","single-threaded tests cannot see two threads filling one cache"),
("C31 Full disk","Surfaces with and without removed faces or without any, all three formats and number types; one to three positions at which the destination is full: near the start, near the end, around multiples of the buffer size, with just enough room, and anywhere. The limit is the file size limit of the process, set only around the call; only files in the scratch directory of the check are written. Also directories and files that do not exist.",
 "The file written without a limit: less room than its length must give an error, enough room must give the same bytes.","only the size limit is simulated, not other causes of failing writes","60k / 600k, 15 s","every byte position is a place where the destination can fill up"),
]
body=''
for t,g,o,b,cst,why in P:
    body+=f'**{t}.** *Generated:* {g} *Oracle:* {o} '+(f'*Bounds:* {b}. ' if b else '')+f'*Cost:* {cst}. *Beyond tests:* {why}.\n\n'
tail='''## 4. Defects found and repaired

Every violation on the original tree was a defect; each is repaired by a small `fix:` commit in `/repo` and
listed with the commit in `known_findings.txt`. No known finding is left open. The larger ones: lazy-exact signs
near cancellation, orientation signs with zero pivots, segment and coplanar triangle intersection, border loops
and border splits, edge collapses that pinched the surface, lost hull triangles and dropped constraints in the
triangulation, point-in-mesh by majority vote, boolean classification from one seed face, booleans of touching
solids, planar booleans (rewritten on the spatial intersection code), remeshing that folded solids over, readers that crashed on malformed files.

False alarms met while building, and what was corrected: tolerance-sized inputs in `f64` (generators moved onto
coarse grids), exact coordinates that explode under repeated smoothing (exact types limited to small meshes in
C17), curve points closer than the triangulation's tolerance in C01 (margin made relative to the solid's size),
rounded contact in chained `f64` booleans (C25 chains exact types only).

## 5. Seeded bugs

Written from the property texts and the code; `tools/seeds*.py` regenerates them, `tools/catch.sh` runs checks
against one.

SEEDTABLE

Besides these, random single-line mutants of the whole library were run against the checks (scratch, not
committed). Those that survived were read one by one. They were equivalent (guards that cannot trigger, tree
balance, redundant fallbacks), or in code nothing calls, or led to a stronger check (for example the independent parser in C18).
'''
import json,os
res={}
try: res=json.load(open('/verif/tools/caught.json'))
except FileNotFoundError: pass
rows='| bug | property | needs | caught by |\n|---|---|---|---|\n'
for s in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{s}/meta.json'))
    rows+=f"| {s} | {m['property']} | {m['needs']} | {res.get(s,'')} |\n"
open('/verif/DESIGN.md','w').write(head+body+tail.replace('SEEDTABLE',rows))
