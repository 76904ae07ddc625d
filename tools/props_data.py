# The property table. tools/gen.py turns it into properties.jsonl, MANIFEST.json and checks.json.
PROPS = []
def P(id, title, statement, over, text, why, files, mechanism, programs, note, state=(), observe=(), hook=None, technique=None, rule='', assumptions=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, programs=programs, note=note, state=state, observe=observe, hook=hook,
                      technique=technique or 'model checking: exhaustive enumeration of executions of the real code against a reference model',
                      rule=rule, assumptions=list(assumptions)))

P('P01', 'Durations are never NaN and follow the documented infinity arithmetic',
  'Every duration that can be constructed or computed reads back as a number, never NaN: a NaN input gives positive infinity and every operation that IEEE 754 would make NaN gives an infinity with the documented sign. All other arithmetic, comparisons, unit conversions and conversions to and from wide durations agree with single-precision arithmetic on seconds, compound forms agree with plain ones, and equal durations hash and print alike.',
  ['inputs', 'histories'], 'for all float inputs and all short sequences of operations',
  'The unit tests try a few dozen values; the claim is about all 2^32 floats and their products, where 0*inf and 0/0 slipped through.',
  ['ink/types/duration.h', 'ink/types/duration.cc'],
  [('factories map NaN to infinity', 'ink/types/duration.h'), ('multiplication, division and ratio special-case infinities and zero', 'ink/types/duration.cc')],
  [dict(src='p01_duration.cc', mode='fast')],
  'Complete over all 2^32 floats for construction/reading; over a stated float grid x 9 durations (thorough: all 2^32) for scaling; complete over a 43-value special alphabet for pairs and 3-4 step histories.')
P('P02', 'Physical distances convert units and compute consistently',
  'For every float, constructing a physical distance in centimetres, inches or metres and reading it in any of the three units agrees with 2.54 cm per inch and 100 cm per metre up to float rounding. Arithmetic, comparison, hashing and compound forms are exactly those of the underlying centimetre value, for every finite or non-finite operand.',
  ['inputs', 'histories'], 'for all floats in each unit and all short sequences of operations',
  'Unit tests check a handful of round numbers.',
  ['ink/types/physical_distance.h', 'ink/types/physical_distance.cc'],
  [('all units are stored as centimetres', 'ink/types/physical_distance.h')],
  [dict(src='p02_distance.cc', mode='fast')],
  'Complete over all 2^32 floats for units; complete over the special alphabet for pairs and short histories.')
P('P03', 'Asset URI parsing accepts exactly the grammar and round-trips',
  'Parsing terminates on every byte string, reads no byte outside it, and succeeds exactly when the string is empty or matches the documented URI grammar, with scheme, authority and revision defaults filled in. The normalized text of a parsed URI is the shortest documented spelling and parses back to an equal URI with the same normalized text.',
  ['inputs'], 'for all byte strings (bounded: token strings, product of near-valid parts, all single-byte edits of valid URIs)',
  'Tests list accepted and rejected examples; the parser is a hand-written position machine whose parts interact.',
  ['ink/types/uri.h', 'ink/types/uri.cc'],
  [('part-by-part position parser', 'ink/types/uri.cc'), ('shortest-form printer', 'ink/types/uri.cc')],
  [dict(src='p03_uri.cc', mode='asan')],
  'Exhaustive over token strings up to length 5 (thorough 6), the product of grammar-part spellings and all single-byte edits of six URIs; oracle is an independent grammar recogniser; run under ASan/UBSan on exactly sized buffers.')
P('P04', 'Small containers behave as independent values under every history',
  'A fixed-capacity array always holds exactly the elements its history of construction, resizing, assignment and element writes dictates, with new elements initialised as requested and never more than its capacity. A copy-on-write handle behaves as an independent optional value: a write through one handle is never seen through another, an unshared write keeps the object in place, objects live exactly as long as some handle refers to them, and an iterator range visits exactly its elements.',
  ['histories'], 'for all operation histories up to 3-5 steps over two arrays or three handles',
  'Aliasing between handles only shows on particular multi-step histories.',
  ['ink/types/small_array.h', 'ink/types/internal/copy_on_write.h', 'ink/types/iterator_range.h'],
  [('size plus inline storage', 'ink/types/small_array.h'), ('shared_ptr use-count test before a write', 'ink/types/internal/copy_on_write.h')],
  [dict(src='p04_containers.cc', mode='asan')],
  'Every history up to the stated depth is run on the real containers under ASan/UBSan with instance-counting elements and compared with plain vectors/optionals.')
P('P05', 'Angles normalise into range, preserve direction and convert exactly',
  'For every finite angle the normalised forms lie in [0, 2pi) and (-pi, pi] respectively, differ from the angle by whole turns, leave angles already in range unchanged and agree with each other. Degree and radian conversion, trigonometric helpers, arithmetic, ordering and printing agree with the mathematical definition up to float rounding.',
  ['inputs'], 'for all float angles and all pairs from a special alphabet',
  'The range boundaries are broken by particular roundings (tiny negatives, values next to pi) that examples miss.',
  ['ink/geometry/angle.h', 'ink/geometry/angle.cc'],
  [('remainder followed by a wrap with boundary correction', 'ink/geometry/angle.cc')],
  [dict(src='p05_angle.cc', mode='fast')],
  'All floats of magnitude below 2^20 (thorough: all 2^32) for normalisation; stated grids for unit conversion and printing.')
P('P06', 'Vectors, points and segments are robust at every magnitude',
  'For every vector with finite components, including denormal and near-overflow ones, the unit vector has length one and the same direction, infinite components and zero give the direction atan2 defines, and NaN gives NaN. Angles between vectors lie in their documented ranges and match the difference of directions. Interpolating along a segment with finite endpoints never overflows, hits the endpoints exactly, and projection inverts it, reporting no value only for degenerate segments.',
  ['inputs'], 'for all vectors over an exponent-complete component grid and all segments and queries over a coordinate alphabet',
  'Unit tests use ordinary magnitudes; the guarantees fail at denormal and overflow boundaries.',
  ['ink/geometry/vec.h', 'ink/geometry/vec.cc', 'ink/geometry/point.h', 'ink/geometry/segment.h', 'ink/geometry/segment.cc'],
  [('pre-scaled normalisation', 'ink/geometry/vec.cc'), ('two-product interpolation', 'ink/geometry/segment.cc')],
  [dict(src='p06_vec.cc', mode='fast')],
  'Exhaustive over stated component grids; oracle is double-precision arithmetic with float rounding tolerances.')
P('P07', 'Rectangles and envelopes are exact bounding boxes under every history',
  'A rectangle keeps min at or below max through every sequence of offsets, scalings, translations, resizes and joins, each doing to every side exactly what is documented, with insets stopping at zero size. Its centre, half-extents and resizing about the centre never overflow for finite bounds, and containment includes the boundary. An envelope is always the tight box around everything added since it was last reset, and is empty otherwise.',
  ['inputs', 'histories'], 'for all rects over finite extremes and all mutation histories up to 3-4 steps',
  'Tests apply single operations to ordinary boxes; overflow and inset/flip cases arise from extremes and combinations.',
  ['ink/geometry/rect.h', 'ink/geometry/rect.cc', 'ink/geometry/envelope.h', 'ink/geometry/envelope.cc'],
  [('per-side mutators', 'ink/geometry/rect.h'), ('optional rect joined by each Add', 'ink/geometry/envelope.h')],
  [dict(src='p07_rect.cc', mode='fast')],
  'Exhaustive over the stated alphabets and histories; oracle is per-dimension double arithmetic.')
P('P08', 'Quads stay normalised and their derived geometry never goes stale',
  'After any sequence of constructions, setters and joins a quad has non-negative width, rotation in [0, 2pi), and semi-axes, corners, edges and area that match its current centre, size, rotation and shear, including after cached axes were read. A join keeps rotation and shear, contains the point and everything it contained before, and grows no more than needed; containment matches the parallelogram.',
  ['inputs', 'histories'], 'for all quads over a parameter alphabet and all histories up to 3-4 operations',
  'The lazily cached axes go stale only when a read falls between two particular setters.',
  ['ink/geometry/quad.h', 'ink/geometry/quad.cc'],
  [('lazy semi-axis cache invalidated by setters', 'ink/geometry/quad.h'), ('join in unit-axis coordinates', 'ink/geometry/quad.cc')],
  [dict(src='p08_quad.cc', mode='asan')],
  'Exhaustive over the stated alphabets and histories; oracle is double-precision parallelogram geometry.')
P('P09', 'Intersection tests between plain shapes are exact and symmetric',
  'Two shapes among points, segments, triangles, rectangles and quads are reported to intersect exactly when they share at least one point, boundary touching, containment and degenerate (point-like or segment-like) shapes included, whichever is passed first and at whatever scale the coordinates are exactly representable. Triangle containment includes the boundary and signed area has the sign of the winding.',
  ['inputs'], 'for all pairs of shapes with corners on 3x3 and 4x4 grids, at scales from 2^-55 to 2^55',
  'Tests draw single pictures; collinear, touching and degenerate configurations are combinatorial and the predicates cascade through special cases.',
  ['ink/geometry/intersects.h', 'ink/geometry/internal/intersects_internal.cc', 'ink/geometry/triangle.cc', 'ink/geometry/triangle.h'],
  [('orientation-sign predicates', 'ink/geometry/internal/intersects_internal.cc'), ('boundary-inclusive containment', 'ink/geometry/triangle.cc')],
  [dict(src='p09_intersects.cc', mode='fast')],
  'Exhaustive over all grid shapes; oracle is an exact integer separating-axis test.')
P('P10', 'Distance between plain shapes is the true minimum distance',
  'The distance between any two points, segments, triangles, rectangles and quads is the smallest distance between a point of one and a point of the other: never negative, zero (up to rounding of the projection) when they intersect, including when one contains the other, positive otherwise, and independent of argument order.',
  ['inputs'], 'for all pairs of shapes with corners on 3x3 and 4x4 grids at several scales',
  'Which features are nearest changes combinatorially; tests fix one picture per overload.',
  ['ink/geometry/distance.h', 'ink/geometry/distance.cc'],
  [('minimum over edges unless intersecting', 'ink/geometry/distance.cc')],
  [dict(src='p10_distance.cc', mode='fast')],
  'Exhaustive over all grid shapes; oracle is vertex-edge minimum with the exact integer intersection test.')
P('P11', 'Affine transforms compose, invert, apply and are found correctly',
  'Every transform factory yields its textbook matrix; applying, multiplying and inverting transforms agree with composition of maps, and singular transforms have no inverse. The image of a quad or rectangle is the quad spanning exactly the image of its corners, also for zero-sized quads and transforms that collapse the plane to a line. Finding a transform between two segments, triangles, rectangles or quads succeeds exactly when the source is not degenerate and then maps source onto target.',
  ['inputs'], 'for all products of transforms and all quads, segments, triangles and rects from parameter alphabets',
  'Products, inverses and collapsing transforms of degenerate shapes form a large case space with few test points.',
  ['ink/geometry/affine_transform.h', 'ink/geometry/affine_transform.cc'],
  [('quad image through transformed semi-axes', 'ink/geometry/affine_transform.cc'), ('determinant test before inversion', 'ink/geometry/affine_transform.h')],
  [dict(src='p11_affine.cc', mode='fast')],
  'Exhaustive over stated alphabets; oracle is double-precision matrix algebra and support functions of corner sets.')
P('P12', 'Circle arcs and tangents meet their geometric definitions',
  'The exterior tangent angles of two circles exist exactly when neither circle contains or internally touches the other and their centres differ, lie in (-pi, pi], mark lines tangent to both circles, and are labelled left and right of the direction of travel. An arc is approximated by the fewest evenly spaced on-circle points whose chord height stays within the limit, starts and ends exactly at the requested angles, appends without disturbing earlier points, and never exceeds the point cap. Containment includes coincidence.',
  ['inputs'], 'for all circle pairs on an integer grid and all arcs over parameter alphabets, at several scales',
  'Internal tangency, zero radii, over-full turns and the step cap need particular combinations of values.',
  ['ink/geometry/internal/circle.h', 'ink/geometry/internal/circle.cc'],
  [('acos of the radius difference over the distance', 'ink/geometry/internal/circle.cc'), ('step count from chord height', 'ink/geometry/internal/circle.cc')],
  [dict(src='p12_circle.cc', mode='fast')],
  'Exhaustive over stated grids and alphabets; oracle is the geometric definition in double precision.')
P('P13', 'The convex hull is exactly the hull, whatever the order and number of points',
  'For every finite set of points, in any order, with duplicates, collinear runs and any number of points (including beyond the threshold where interior points are pruned first), the convex hull lists exactly the extreme points, once each, anticlockwise, starting from the lowest then leftmost point.',
  ['inputs'], 'for all sequences of up to 5-6 grid points, all subsets of a 4x4 grid, and replicated sets above 500 points',
  'Ties in the angular sort and points on the pruning boundary are combinatorial accidents that examples with a few generic points avoid.',
  ['ink/geometry/convex_hull.h', 'ink/geometry/internal/convex_hull_helper.h'],
  [('angular sort with tie-break and concavity removal', 'ink/geometry/internal/convex_hull_helper.h'), ('Akl-Toussaint pruning above 500 points', 'ink/geometry/internal/convex_hull_helper.h')],
  [dict(src='p13_hull.cc', mode='fast')],
  'Exhaustive over grid point sequences; oracle is an exact integer hull.')
P('P14', 'The R-tree visits exactly the elements whose boxes meet the query',
  'For every number of elements, branching factor, layout (overlapping, identical, nested, degenerate boxes) and query box, a visit reports each element whose bounds touch the query exactly once and no other, stops as soon as the visitor says so, and works the same on copies. The tree is balanced, every node has between one and the branching factor of children, and each node is bounded tightly. An empty tree visits nothing.',
  ['inputs'], 'for all element counts up to 300 (1200), four branching factors, seven layouts, and all multisets of up to 4-5 small boxes',
  'Bulk-loading rounds several ratios per level; wrong slices appear only for particular counts and branching factors.',
  ['ink/geometry/internal/static_rtree.h', 'ink/geometry/internal/static_rtree.cc'],
  [('sort-tile-recursive bulk loading', 'ink/geometry/internal/static_rtree.h'), ('pruned recursive visit', 'ink/geometry/internal/static_rtree.h')],
  [dict(src='p14_rtree.cc', mode='fast')],
  'Exhaustive over stated counts, layouts and small multisets; oracle is a linear scan.')
P('P15', 'Segment and line intersections, projections and barycentrics are exact',
  'Two segments, degenerate or overlapping ones included, have an intersection ratio and point exactly when they share a point, and the ratios name the first common point along each (zero for a degenerate segment). Lines have a unique intersection ratio exactly when neither segment is degenerate and they are not parallel. The projection vector and barycentric coordinates exist exactly for non-degenerate segments and triangles and are the geometric ones. The legacy intersection reports the same existence and the full coincident interval on both segments.',
  ['inputs'], 'for all pairs of segments with ends on 3x3 and 4x4 grids, and all grid triangles and points, at four exact embeddings',
  'Parallel, overlapping, touching and degenerate combinations are many and each takes its own code path.',
  ['ink/geometry/internal/algorithms.h', 'ink/geometry/internal/algorithms.cc', 'ink/geometry/internal/legacy_segment_intersection.cc', 'ink/geometry/internal/legacy_triangle_contains.cc', 'ink/geometry/internal/legacy_vector_utils.cc'],
  [('determinant ratios with parallel special cases', 'ink/geometry/internal/algorithms.cc')],
  [dict(src='p15_algorithms.cc', mode='fast')],
  'Exhaustive over grid segments and triangles; oracle is exact integer geometry.')
P('P16', 'Interpolation helpers hit their ends, extrapolate and take the short way',
  'Interpolating floats, points, vectors, colours and angles gives the first value at ratio zero, the linear value at every other ratio (extrapolating outside [0, 1]), and the common value when both ends are equal. Inverse interpolation maps the ends to 0 and 1, stays within [0, 1] between them and is 0 for an empty interval; a linear map composes the two. Angle interpolation goes the shorter way and lands in [0, 2pi). Spiral interpolation interpolates direction and magnitude separately.',
  ['inputs'], 'for all pairs and triples over value alphabets, 1/48-turn angles over two turns each way and ten ratios',
  'Wrap-around, equal ends and extrapolation interact; tests check a few ratios of a few pairs.',
  ['ink/geometry/internal/algorithms.h', 'ink/geometry/internal/algorithms.cc'],
  [('lerp family', 'ink/geometry/internal/algorithms.cc')],
  [dict(src='p16_lerp.cc', mode='fast')],
  'Exhaustive over the stated alphabets; oracle is double-precision interpolation.')
P('P17', 'Lasso polylines are trimmed and closed exactly as documented',
  'Processing a polyline for mesh creation returns it unchanged when it neither crosses itself nor has a connectable endpoint; otherwise each end is either joined to the nearest admissible point of the line (close enough, walked far enough, curved enough, not better trimmed) or cut at the crossing nearest that end, including crossings made by the other end\'s new connection. It handles repeated points and lines of fewer than two points without failing.',
  ['inputs'], 'for all polylines of up to 5-7 points on small grids and seven parameter sets, and families of near-closed loops',
  'Which crossing is first or last and which connection wins depends on combinations of segments that examples only touch.',
  ['ink/geometry/internal/polyline_processing.h', 'ink/geometry/internal/polyline_processing.cc'],
  [('first and last crossing search', 'ink/geometry/internal/polyline_processing.cc'), ('endpoint connection rules', 'ink/geometry/internal/polyline_processing.cc')],
  [dict(src='p17_polyline.cc', mode='fast')],
  'Exhaustive over grid polylines; oracle is a brute-force double-precision statement of the documented rules; doubled-back (overlapping) lines are only checked for absence of failure.')
P('P18', 'Tessellating a polyline fills exactly its non-zero-winding interior',
  'Creating a mesh from a polyline fails for fewer than three points and for collinear points, and otherwise yields a non-empty position-only mesh whose triangles cover the union of the regions with non-zero winding number, once, and nothing outside it, for self-crossing and repeated-point polylines too.',
  ['inputs'], 'for all polylines of up to 5-6 points on small grids and all star polygons of up to 20-40 points',
  'Crossing vertices are created and mapped back by index bookkeeping that only self-intersecting inputs exercise.',
  ['ink/geometry/tessellator.h', 'ink/geometry/tessellator.cc', 'ink/geometry/internal/generic_tessellator.h'],
  [('mapping of tessellator output vertices to input and new vertices', 'ink/geometry/internal/generic_tessellator.h')],
  [dict(src='p18_tessellate.cc', mode='fast')],
  'Exhaustive over grid polylines with a point-membership oracle. libtess2 itself is not installed: a stand-in with the same interface and semantics is linked, so this checks google/ink\'s use of it.')
P('P19', 'Mesh formats validate their attributes and lay them out as documented',
  'A mesh format is accepted exactly when it has 1 to 16 attributes with named types and ids, no repeated id, and a two-component position. Its offsets, widths, strides and position index are the ones implied by the documented sizes in attribute order; removing attributes succeeds exactly for attributes that are present and not the position and leaves the rest in order. Equality, hashing, and packed and unpacked equivalence agree with the attribute lists.',
  ['inputs'], 'for all attribute lists up to a length and all pairs of formats in a family',
  'Tests pick some formats; offsets of every type combination and the exact acceptance rule are only sampled.',
  ['ink/geometry/mesh_format.h', 'ink/geometry/mesh_format.cc', 'ink/geometry/internal/mesh_constants.h'],
  [('Create validates and computes offsets', 'ink/geometry/mesh_format.cc'), ('attribute limit', 'ink/geometry/internal/mesh_constants.h')],
  [dict(src='p19_mesh_format.cc', mode='asan')],
  'Complete over all lists of up to two attributes (all types, all named and several unnamed ids), three over a representative alphabet, 13..19 attributes by rotation.')
P('P20', 'Packed vertex attributes round-trip within half a quantization step',
  'Packing writes the documented bit layout for every attribute type, unpacking returns the same integers, and unpacked types keep every bit. The default coding transform for any finite bounds whose range is finite has a positive finite scale, maps the minimum to 0, and reproduces every value between the bounds within half a step of the documented precision, up to float rounding; an overflowing range or an unsuitable custom transform is an error. Triangle index storage and partitioning lose, reorder or invent nothing and respect the vertex limit.',
  ['inputs'], 'for all integers a component can hold, all bounds in a float grid, all small triangle lists',
  'Tests pack a few values per type; bit layouts straddling bytes and tiny or huge ranges are where the loss occurs.',
  ['ink/geometry/internal/mesh_packing.h', 'ink/geometry/internal/mesh_packing.cc', 'ink/geometry/mesh_packing_types.h'],
  [('per-type bit packing', 'ink/geometry/internal/mesh_packing.cc'), ('scale from range', 'ink/geometry/internal/mesh_packing.cc')],
  [dict(src='p20_packing.cc', mode='fast')],
  'Complete over every value of every component (others at 4 patterns); all pairs of component values for types of up to 8 (thorough 12) bits; about 800 bounds per type; all lists of up to 3 triangles over 5 vertices.')
P('P21', 'MutableMesh behaves as a list of vertices and a list of triangles',
  'Under every history of appends, sets, inserts, resizes, clears, resets, clones and moves, a MutableMesh holds exactly the vertices (other attributes zero until set, zeroed growth) and triangles a plain list model holds, in both index widths, and clones are independent. ValidateTriangles accepts exactly lists whose triangles name three distinct existing vertices. FromMesh holds the unpacked contents of the mesh.',
  ['histories', 'inputs'], 'for all operation histories up to depth 4 (thorough 6) over 21 operations and three formats',
  'Byte-offset bookkeeping after mixed resizes, inserts and format resets depends on the history, of which tests run a few.',
  ['ink/geometry/mutable_mesh.h', 'ink/geometry/mutable_mesh.cc', 'ink/geometry/internal/mesh_packing.cc'],
  [('buffer and count bookkeeping', 'ink/geometry/mutable_mesh.h'), ('Clone, FromMesh, ValidateTriangles', 'ink/geometry/mutable_mesh.cc')],
  [dict(src='p21_mutable_mesh.cc', mode='asan')],
  'Exhaustive bounded histories against an independent model, the full observable state compared after every operation.')
P('P22', 'Mesh::Create accepts exactly valid input and keeps it within packing error',
  'Creating a mesh from columns succeeds exactly when none of the documented errors applies. The mesh then has the given counts and indices, bounds equal to the columns\' extremes, unpacked values bit for bit, packed values within half a step of a transform that uses the full precision for the bounds (or of the given custom transform), and copies share its data. Up to 65536 vertices are accepted, and packing parameters are ignored without vertices. (An overflowing range is only claimed to be an error for packed attributes.)',
  ['inputs'], 'for all attribute types, value families, error combinations of up to two faults, and a grid of custom transforms',
  'Which of a dozen error conditions applies, and precision per type and bounds, are only sampled by tests.',
  ['ink/geometry/mesh.h', 'ink/geometry/mesh.cc', 'ink/geometry/internal/mesh_packing.cc', 'ink/geometry/mesh_packing_types.h'],
  [('validation and packing', 'ink/geometry/mesh.cc'), ('coding params', 'ink/geometry/internal/mesh_packing.cc')],
  [dict(src='p22_mesh_create.cc', mode='fast')],
  'Exhaustive over the stated families; oracle is the documented error list and double-precision error bounds.')
P('P23', 'Packing a MutableMesh keeps its triangles and never worsens flips',
  'Packing a mutable mesh fails exactly for invalid triangles, non-finite kept values, bad packing parameters or bad omissions. Otherwise it yields meshes of at most 65536 vertices whose triangles, in order, are the source\'s; unused vertices are stripped, values are within packing error, bounds are those of each mesh\'s own vertices, and all parts share one transform. Positions move off the nearest step, by at most one step in total, only to repair triangles that rounding would turn negative, and never leave more negative triangles than rounding would; a triangle on its own, and any mesh that moving one vertex one step along one axis can repair, end with none.',
  ['inputs', 'shapes'], 'for all small triangle lists, all omission subsets, all triangles and shared-edge pairs on sub-step grids, and sizes around every partition boundary',
  'Flip repair propagates through neighbours by position; partition boundaries need more than 65536 vertices; tests hold a few hand-made cases.',
  ['ink/geometry/mutable_mesh.h', 'ink/geometry/mutable_mesh.cc', 'ink/geometry/internal/mesh_packing.cc'],
  [('AsMeshes validation and partitioning', 'ink/geometry/mutable_mesh.cc'), ('flipped-triangle correction', 'ink/geometry/mutable_mesh.cc'), ('PartitionTriangles, CopyAndPackPartitionVertices', 'ink/geometry/internal/mesh_packing.cc')],
  [dict(src='p23_as_meshes.cc', mode='fast')],
  'Exhaustive over the stated families; oracle is an independent double-precision statement of the contract.')
P('P24', 'PartitionedMesh keeps render groups, meshes and outlines as given',
  'Building a PartitionedMesh from meshes or mutable meshes fails exactly for a documented reason (empty mesh, mixed formats in a group, an empty or dangling outline, more meshes than 16-bit indices allow, invalid mutable mesh, bad omission). Otherwise groups, formats, meshes in order, outlines (over vertices in use, across partitions, empty mutable outlines dropped), positions and bounds are those given, out-of-range accessors CHECK-fail, and copies share meshes and one lazily built index. (65536 meshes exactly, where documentation and tests differ, is not claimed.)',
  ['inputs'], 'for all combinations of up to 2-3 groups over a palette of meshes and outlines, valid and invalid, and sizes around the partition limit',
  'Group boundaries are cumulative offsets: errors appear only for particular mixes of empty and non-empty groups and outlines.',
  ['ink/geometry/partitioned_mesh.h', 'ink/geometry/partitioned_mesh.cc'],
  [('FromMeshGroups, FromMutableMeshGroups', 'ink/geometry/partitioned_mesh.cc'), ('group accessors', 'ink/geometry/partitioned_mesh.h')],
  [dict(src='p24_pmesh.cc', mode='fast')],
  'Exhaustive over the palette combinations; oracle is the given data itself.')
P('P25', 'Spatial queries on a PartitionedMesh equal a brute-force search',
  'Visiting the triangles intersected by a point, segment, triangle, rect, quad or another PartitionedMesh under any affine transform, including collapsing ones, visits exactly the intersecting triangles, each once, whatever the number of triangles and meshes, and stops when told. Coverage is the visited share of the total absolute area and CoverageIsGreaterThan agrees with it. Intersects agrees in both argument orders. Empty shapes intersect nothing and have zero coverage.',
  ['inputs', 'shapes'], 'for all grid queries against four targets under fourteen transforms, all target pairs under all transform pairs, and every tree size up to 300-1100',
  'The index, the two-phase mesh query and the collapsing path only go wrong for particular geometry; tests use a few shapes.',
  ['ink/geometry/partitioned_mesh.h', 'ink/geometry/partitioned_mesh.cc', 'ink/geometry/intersects.cc', 'ink/geometry/internal/static_rtree.h', 'ink/geometry/internal/algorithms.cc'],
  [('query visits and coverage', 'ink/geometry/partitioned_mesh.cc'), ('mesh intersection under transforms', 'ink/geometry/intersects.cc'), ('CalculateCollapsedSegment', 'ink/geometry/internal/algorithms.cc')],
  [dict(src='p25_pmesh_query.cc', mode='fast')],
  'Exhaustive over the stated grids; oracle is an exact integer separating-axis test, with a margin of 0.002 units where the transform is inexact in floats.')
P('P26', 'Shader helper functions decode and shade exactly what the CPU encoded',
  'The SkSL helper functions recover from packed bytes or floats exactly the integers the CPU packer wrote for every attribute (positions, derivatives, opacity shift, labels, HSL shift, surface UV) with the same offsets and scales, decode label margins as the CPU does, and build, measure and rotate matrices and vectors as named. An HSL and opacity shift of zero keeps a colour (to the precision of the YIQ matrices), hue shifts are periodic in whole turns and keep luma, saturation -1 gives grey, luminosity adds to luma, and alpha is clamped to [0, 1]. The anti-aliasing helper reports the transformed distances of the derivatives in pixels, marks exactly the exterior sides named by the labels, never moves an interior vertex, and moves exterior vertices outward by the smaller of the target (0.5 to 0.7071 px) and the margin, ignoring the side margin as widths drop from 0.5 to 0.25 px and not counting a shared direction twice. Simulated coverage lies in [0, 1], is one in the interior and ramps over twice the target at each edge.',
  ['inputs'], 'for all packed byte patterns of each attribute and all derivatives, labels, matrices and colours over stated grids',
  'The shaders are strings that no test in the repository executes; a wrong constant only shows as slightly wrong pixels.',
  ['ink/rendering/skia/common_internal/sksl_common_shader_helper_functions.h', 'ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h', 'ink/rendering/skia/common_internal/sksl_fragment_shader_helper_functions.h', 'ink/strokes/internal/stroke_vertex.cc'],
  [('unpacking, colour-shift and anti-aliasing vertex helpers', 'ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h'), ('coverage helper', 'ink/rendering/skia/common_internal/sksl_fragment_shader_helper_functions.h'), ('pixel outset target', 'ink/rendering/skia/common_internal/sksl_common_shader_helper_functions.h')],
  [dict(src='p26_shaders.cc', mode='fast', gen='gen_shaders')],
  'The shader text of the current tree is printed by a program built from it, translated token by token (swizzles, out parameters, uniforms) to C++ over a small float-vector library, compiled and executed exhaustively: all 2^24 byte triples, all 2^24 one-float pairs, all 8-bit opacities and labels, all 10-bit and 12/20-bit components in stated combinations, and stated grids for shading.',
  assumptions=['harness/sksl.h gives SkSL operators and intrinsics their meaning in IEEE single precision (half is treated as float)'])
P('P27', 'Mesh specifications describe every supported mesh to the GPU correctly',
  'A stroke mesh format is accepted exactly when it has adjacent position and opacity-shift, side-derivative and side-label, and forward-derivative and forward-label attributes with one of the supported packed type combinations, and HSL shift and surface UV, if present, have a supported type; anything else gives an invalid-argument error. The specification then names exactly those attributes with their packed byte offsets and types and the packed stride, fixed varyings, and uniforms whose unpacking indices point at the right attributes; the in-progress specification describes the unpacked layout of the full stroke format and no other. Running the generated vertex and fragment shaders over any mesh packed by the library reproduces what unpacking on the CPU gives: outset position, premultiplied colour with HSL and opacity shift, edge and outset varyings, texture coordinates from the surface UV exactly when the mapping is winding and UVs exist, and colour times coverage.',
  ['inputs', 'histories'], 'for all attribute type combinations and orders, and all vertices of generated meshes in nine shader variants',
  'The repository only compares source strings and counts; nothing runs the shaders, and an offset or a swapped transform is invisible to it.',
  ['ink/rendering/skia/common_internal/mesh_specification_data.h', 'ink/rendering/skia/common_internal/mesh_specification_data.cc', 'ink/strokes/internal/stroke_vertex.cc', 'ink/geometry/internal/mesh_packing.cc'],
  [('format validation and interface assembly', 'ink/rendering/skia/common_internal/mesh_specification_data.cc'), ('shader main functions', 'ink/rendering/skia/common_internal/mesh_specification_data.cc')],
  [dict(src='p27_mesh_spec.cc', mode='fast', gen='gen_shaders')],
  'All type combinations (12800+), all block orders with insertions, removals and swaps; shaders generated for nine formats from the current tree are translated and executed on meshes packed by the library, compared with CPU unpacking and the helper functions decided by P26.',
  assumptions=['harness/sksl.h gives SkSL operators and intrinsics their meaning in IEEE single precision (half is treated as float)'])
P('P28', 'Stroke vertices encode labels, packing and interpolation as documented',
  'Replacing the margin of a vertex label keeps its category, never touches an interior label and stores the margin clamped to [0, 4] rounded down to a step of 4/126; decoding gives categories, outset sign and margin for every integral label. Attribute indices and custom packing parameters are found for every mesh format (packed opacity and HSL shifts, labels and surface UV only, skipping the skipped attributes). Stroke vertices written to a mutable mesh by any sequence of appends and setters read back exactly, with shifts clamped to [-1, 1] and no other attribute disturbed. Interpolating attributes is linear with exact endpoints, zeroes derivatives, and keeps a label category only at its own end or when both ends agree.',
  ['inputs', 'histories'], 'for all labels and margins, all attribute subsets and orders, and all setter histories up to 6-7 steps',
  'Tests try a few margins and formats; floor rounding at step boundaries and skipped attributes depend on exact values.',
  ['ink/strokes/internal/stroke_vertex.h', 'ink/strokes/internal/stroke_vertex.cc'],
  [('label encoding', 'ink/strokes/internal/stroke_vertex.cc'), ('custom packing parameters', 'ink/strokes/internal/stroke_vertex.cc'), ('mesh accessors', 'ink/strokes/internal/stroke_vertex.cc')],
  [dict(src='p28_stroke_vertex.cc', mode='fast')],
  'Exhaustive over stated float margins (thorough: all 2^32), all integral labels, attribute subsets up to four in every order with every skip set, and all setter histories to the stated depth.')
P('P29', 'Color spaces decode, encode and convert as their standards define',
  'In [0, 1] gamma decoding and encoding follow the sRGB transfer curve for both colour spaces, stay in [0, 1], undo each other, keep 0 and 1 and never run backwards; no input other than NaN gives NaN. The published decoding parameters describe the same curve. The XYZ matrices are those of the sRGB and Display P3 primaries with the D65 white point, the two directions are inverses, and the two layouts are transposes. Converting a colour multiplies by those matrices, leaves alpha alone, changes nothing within one space, and there-and-back is the identity. An unknown space is reported (DFATAL) and has a readable name.',
  ['inputs'], 'for every float (quick: 3 of each 65536), every 16-bit code, both spaces and layouts, and a 13-value grid of colours',
  'Unit tests compare a few values; a wrong digit in a matrix or exponent, or a swapped layout, shifts all colours slightly.',
  ['ink/color/color_space.h', 'ink/color/color_space.cc'],
  [('transfer curve', 'ink/color/color_space.cc'), ('matrices and conversion', 'ink/color/color_space.cc')],
  [dict(src='p29_color_space.cc', mode='fast')],
  'Exhaustive over the stated sets; oracle computed in double from the published primaries, white point and curve.')
P('P30', 'Color never holds NaN, clamps alpha, and converts formats losslessly',
  'Whatever floats a Color is made from and whichever operation follows, no channel is NaN and alpha is in [0, 1]: NaN counts as 0, alpha is clamped, and premultiplied input with alpha 0 and a nonzero channel is fatal. Channels come back from AsFloat in the same format (up to rounding), and 8-bit channels come back exactly from every format, separately or packed as RGBA or ARGB. Clamping and scaling to gamut give in-gamut colours, scaling by one common factor; conversion to another space keeps alpha and the colour. Equality is exact, near-equality a fixed per-channel bound after conversion. Named colours and strings are as declared.',
  ['inputs'], 'for all quadruples of special and ordinary floats, all byte values with all alphas, in all formats and spaces',
  'Infinite, NaN, denormal and transparent channels meet formats and spaces in thousands of combinations; tests pick a few.',
  ['ink/color/color.h', 'ink/color/color.cc', 'ink/color/color_helpers.h', 'ink/color/color_space.cc'],
  [('FromFloat, AsFloat, gamut operations', 'ink/color/color.cc'), ('Color invariants', 'ink/color/color.h'), ('ARGB packing', 'ink/color/color_helpers.h')],
  [dict(src='p30_color.cc', mode='fast')],
  'Exhaustive over the stated sets against formulas in double.')
P('P31', 'JNI strings, exceptions and angle calls obey the JNI rules and lose nothing',
  'A JStringView shows exactly the modified-UTF-8 bytes of its Java string (empty for null) for as long as it lives, even if the caller drops its reference, and JStringToStdString copies them; each global reference and character buffer acquired is released exactly once, also with several views of one string alive or an exception pending. A non-OK status becomes one Java exception of the class mapped from its code (IllegalState, IllegalArgument, NoSuchElement, IndexOutOfBounds or UnsupportedOperation; IllegalState for others) carrying its text; an OK status throws nothing. Catching clears the exception and gives the code of the mapped class it is an instance of (else unknown) and its message, empty if it has none. The Angle bindings return the C++ normalised angles bit for bit.',
  ['inputs', 'histories'], 'for all short strings over an alphabet of encodings, all view lifetimes up to 6-8 steps, all status codes and exception classes, and every float (quick: 3 of each 65536)',
  'The JNI layer has no tests in the repository; leaks and use after release depend on the order of events.',
  ['ink/jni/internal/jni_string_util.h', 'ink/jni/internal/jni_string_util.cc', 'ink/jni/internal/jni_throw_util.h', 'ink/jni/internal/jni_throw_util.cc', 'ink/geometry/internal/jni/angle_jni.cc'],
  [('acquire and release', 'ink/jni/internal/jni_string_util.cc'), ('exception mapping', 'ink/jni/internal/jni_throw_util.cc'), ('angle bindings', 'ink/geometry/internal/jni/angle_jni.cc')],
  [dict(src='p31_jni.cc', mode='asan')],
  'Exhaustive bounded histories against a modelled JVM that checks reference validity, acquire/release balance and calls with a pending exception.',
  assumptions=['harness/fakejvm.h models the JVM behind a real JNIEnv function table'])
P('P32', 'Geometry JNI bindings answer exactly as the C++ API they wrap',
  'Every geometry JNI function interprets its arguments as the shape, transform or handle its name states and returns, or fills its Java object with, exactly the value the C++ call gives: intersections between every pair of shape kinds and with meshes, coverages and thresholds, vectors, boxes, triangles, parallelograms, transforms, accumulators (reset when empty, untouched by an absent box) and mesh data, buffers and unpacking parameters. Meshes and formats handed to Java are independent of the partitioned mesh they came from, may be freed in any order, and nothing is leaked or used after free.',
  ['inputs', 'histories'], 'for all pairs from palettes of asymmetric shapes and transforms, all attribute types, and all handle histories up to 5-6 steps',
  'The bindings take up to fourteen floats each and have no tests in the repository; a swapped argument compiles and mostly works.',
  ['ink/geometry/internal/jni/intersects_jni.cc', 'ink/geometry/internal/jni/partitioned_mesh_jni.cc', 'ink/geometry/internal/jni/mesh_jni.cc', 'ink/geometry/internal/jni/parallelogram_jni.cc', 'ink/geometry/internal/jni/mutable_envelope_jni.cc', 'ink/geometry/internal/jni/vec_jni_helper.cc'],
  [('argument marshalling', 'ink/geometry/internal/jni/intersects_jni.cc'), ('handle ownership', 'ink/geometry/internal/jni/partitioned_mesh_jni.cc'), ('result objects', 'ink/geometry/internal/jni/rect_jni_helper.cc')],
  [dict(src='p32_geometry_jni.cc', mode='asan', dirs=['ink/geometry/internal/jni', 'ink/jni/internal'])],
  'Exhaustive over the palettes against direct C++ calls on shapes built from the documented argument order, with a modelled JVM.',
  assumptions=['harness/fakejvm.h models the JVM behind a real JNIEnv function table; the Java method tables are those the bindings name'])
P('P33', 'Copy-on-write values and ranges behave as specified, also between threads',
  'A range gives back its two iterators, the elements between them, their count where that is cheap and whether there are any, from two iterators or a pair. kPi and kSqrt2 are the nearest doubles; IsFinite is false exactly for infinities and NaN. A CopyOnWrite is empty or shows a value; copies share it, a moved-from or reset one is empty, writing through one never shows in another, the value is cloned exactly when it is shared, reading or writing an empty one is fatal, and each value is destroyed exactly once, when its last holder lets go. Copies held by different threads may be read, written, copied, moved and dropped at the same time without data races.',
  ['histories', 'schedules'], 'for all histories of 4-5 operations on three objects, all programs of 2-3 operations on 2-3 threads under every schedule within a preemption bound, all subranges of up to 7 elements, and every float (quick: 3 of each 65536)',
  'Sharing is decided by a reference count read while other threads change it; a test runs one schedule and cannot see a missing ordering.',
  ['ink/types/internal/copy_on_write.h', 'ink/types/iterator_range.h', 'ink/types/numbers.h', 'ink/types/internal/float.h'],
  [('sharing, cloning and emptiness', 'ink/types/internal/copy_on_write.h'), ('iterator_range', 'ink/types/iterator_range.h'), ('constants', 'ink/types/numbers.h')],
  [dict(src='p33_types.cc', mode='asan'), dict(src='p33_cow_threads.cc', mode='race')],
  'Exhaustive histories against a model; exhaustive schedules of the real code under a controlled scheduler with a happens-before race detector.',
  assumptions=['harness/race_rt.cc replaces libtsan: threads run one at a time and interleave at atomic and mutex operations, executions are sequentially consistent, and weaker orderings are judged by happens-before'])
P('P34', 'Shared geometry may be used from several threads at once',
  'Copies of one PartitionedMesh on different threads may be queried, copied, moved, dropped and have their spatial index built at the same time, in any interleaving: there is no data race, no deadlock (also when two meshes are queried with each other), nothing is used after it is freed, an index once initialised stays so, and every answer equals that of a sequential run. Const operations on a shared Quad, MutableMesh, Mesh, transform or other shape are free of data races and give the sequential answer.',
  ['schedules'], 'for all pairs (and triples) of operations out of 10 on the same or on two meshes, with the index built before or not, under every schedule within a preemption bound',
  'The lazily built index and cached area are shared mutable state behind a const interface; a broken lock shows only in rare schedules.',
  ['ink/geometry/partitioned_mesh.h', 'ink/geometry/partitioned_mesh.cc', 'ink/geometry/quad.h', 'ink/geometry/quad.cc', 'ink/geometry/mesh.h', 'ink/geometry/mutable_mesh.cc'],
  [('lazy spatial index', 'ink/geometry/partitioned_mesh.cc'), ('cached area', 'ink/geometry/partitioned_mesh.cc'), ('const methods of Quad', 'ink/geometry/quad.cc')],
  [dict(src='p34_shared_geometry.cc', mode='race')],
  'Exhaustive schedules of the real code within the preemption bound under a controlled scheduler with a happens-before race detector; answers compared with sequential runs.',
  assumptions=['harness/race_rt.cc replaces libtsan: threads run one at a time and interleave at atomic and mutex operations, executions are sequentially consistent, and weaker orderings are judged by happens-before', 'absl::Mutex is the shim\'s, over pthread mutexes'])
P('P35', 'Brush tips, easings and behavior nodes are valid exactly when the rules say so',
  'Validation accepts a brush tip, an easing function or a behavior node exactly when every field is in its documented range (finite floats, enum members, easing points ordered in x, angle and rounding bounds, nonempty source and range spans) and says which field is wrong otherwise. A behavior node list is valid exactly when it evaluates in post-order on a stack: every operator finds its operands, every terminal finds its inputs, and nothing is left over. Equality and hashing look at every field, and text never crashes for invalid values.',
  ['inputs'], 'for all node lists up to 6-7 nodes over nine kinds (each also with one invalid node), every float in each tip field, all pairs of field values',
  'Tests pick single invalid values; the stack rule depends on the whole node sequence, and a missing check lets bad brushes into the modelers.',
  ['ink/brush/brush_tip.h', 'ink/brush/brush_tip.cc', 'ink/brush/brush_behavior.h', 'ink/brush/brush_behavior.cc', 'ink/brush/easing_function.h', 'ink/brush/easing_function.cc'],
  [('tip validation', 'ink/brush/brush_tip.cc'), ('behavior validation', 'ink/brush/brush_behavior.cc'), ('easing validation', 'ink/brush/easing_function.cc')],
  [dict(src='p35_tip.cc', mode='fast')],
  'Exhaustive over the stated node lists and values against a stack model and a table of field rules.')
P('P36', 'Brushes, families, coats and paints accept and report exactly what is valid',
  'Texture layers, paints, coats, families and brushes are accepted exactly when every part is valid: enums are members, floats are in their ranges, one mapping mode per paint, one tip per coat, at most the allowed number of coats, a URI of the right type and a finite positive size and epsilon. A created family or brush returns what it was given; setters that fail leave the brush unchanged and successful ones change only their field; copies are independent. A coat asks for exactly the vertex attributes its paint and tip need. Equality, hashing and text follow every field.',
  ['inputs', 'histories'], 'for every float in each texture layer field, all pairs and triples of layers with mixed mappings, families of 0-12 coats, all Create overloads, and all setter histories to the stated depth',
  'Each setter validates alone; a value that slips past one, or a setter that fails half done, breaks every stroke drawn with the brush.',
  ['ink/brush/brush_paint.h', 'ink/brush/brush_paint.cc', 'ink/brush/brush_coat.h', 'ink/brush/brush_coat.cc', 'ink/brush/brush_family.h', 'ink/brush/brush_family.cc', 'ink/brush/brush.h', 'ink/brush/brush.cc'],
  [('paint validation', 'ink/brush/brush_paint.cc'), ('coat validation and attributes', 'ink/brush/brush_coat.cc'), ('family creation', 'ink/brush/brush_family.cc'), ('brush creation and setters', 'ink/brush/brush.cc')],
  [dict(src='p36_brush.cc', mode='fast')],
  'Exhaustive over the stated values and histories against a table of field rules and a model brush.')
P('P37', 'Easing evaluation computes the declared function for every input',
  'Evaluating an easing function gives what its declaration says: linear is the identity; steps give the documented level for each step position, 0 below 0 and 1 from 1 on; piecewise-linear passes exactly through its points with the implicit (0,0) and (1,1), takes the last of several points with one x, interpolates between and extrapolates outside; cubic Bezier curves follow the curve within the resolution of the table, clamp x to [0, 1], start at 0 and end at 1, and set-up always ends. NaN gives NaN. Critical points are ordered, in [0, 1], and the function is straight (or monotone) between them.',
  ['inputs'], 'for all step counts up to 40 (200) in all positions, all lists of up to 4 (5) points on a grid with repeated x, Bezier parameters on a grid with both ends, and x at and beside every boundary',
  'Tests compare a few points of a few curves; repeated x values at the ends and control points at 0 and 1 are the cases that break or hang.',
  ['ink/strokes/internal/easing_implementation.h', 'ink/strokes/internal/easing_implementation.cc'],
  [('evaluation', 'ink/strokes/internal/easing_implementation.cc'), ('function declarations', 'ink/brush/easing_function.h')],
  [dict(src='p37_easing.cc', mode='fast')],
  'Exhaustive over the stated grids against the mathematical definitions in double.')
P('P38', 'Stroke input batches accept exactly the documented inputs and hold them',
  'A batch accepts an input exactly when every field is in its documented range: finite position, finite non-negative time, unit length positive and finite, pressure in [0,1], tilt in [0, pi/2], orientation in [0, 2*pi), each optional property reported by all inputs of a batch or by none, one tool type and unit length, non-decreasing times and no repeated point. A rejected change leaves the batch as it was. Reading, setting, erasing, clearing, copying, appending (including a batch to itself) and transforming behave as on a plain list of inputs, and copies are independent, also when different threads use copies of one batch.',
  ['inputs', 'histories', 'schedules'], 'for every float in every field, all pairs of inputs differing in one field, all histories of 3 (4) operations on two batches sharing storage, and all schedules of two threads using copies',
  'Tests try one invalid value per field and one operation at a time; boundary values, aliasing and shared storage appear only in combination.',
  ['ink/strokes/input/stroke_input.h', 'ink/strokes/input/stroke_input.cc', 'ink/strokes/input/stroke_input_batch.h', 'ink/strokes/input/stroke_input_batch.cc', 'ink/strokes/input/internal/stroke_input_validation_helpers.h', 'ink/strokes/input/internal/stroke_input_validation_helpers.cc'],
  [('validation', 'ink/strokes/input/internal/stroke_input_validation_helpers.cc'), ('packed copy-on-write float storage', 'ink/strokes/input/stroke_input_batch.cc')],
  [dict(src='p38_inputs.cc', mode='asan'), dict(src='p38_threads.cc', mode='race')],
  'Exhaustive enumeration of inputs, pairs and histories on the real batches under ASan/UBSan against a vector of inputs; thread schedules enumerated with race detection on the real code.')
P('P39', 'Incremental input modeling equals modeling the whole history',
  'However a stroke\'s real inputs are split into updates and whatever predictions came with them, the modeled inputs after each update are those that modeling all real inputs so far plus only the latest prediction would give. Inputs once reported stable never change or disappear, stable <= real <= all, consecutive modeled inputs are at least the brush epsilon apart with non-decreasing time, and the reported distances, elapsed times, tool type and unit length agree with them. Starting a new stroke leaves no trace of the old one, moving the modeler changes nothing, and a non-positive epsilon or a missing start is fatal.',
  ['histories', 'inputs'], 'for all histories of 4 (5) updates with 0-2 real and 0-2 predicted inputs, restarts and moves, on 4 input paths x 3 input styles x 2 models x 2 epsilons, and every split of 8 (11) inputs',
  'Tests follow a few fixed histories; leftovers of predictions and restarts depend on the order of steps.',
  ['ink/strokes/internal/stroke_input_modeler.h', 'ink/strokes/internal/stroke_input_modeler.cc'],
  [('stable prefix, save/restore of the smoother', 'ink/strokes/internal/stroke_input_modeler.cc'), ('documented state', 'ink/strokes/internal/stroke_input_modeler.h')],
  [dict(src='p39_input_modeler.cc', mode='asan')],
  'Every history in the bound is run on the real wrapper and compared after every step with a from-scratch computation over the whole history. The external smoothing library is not installed: a deterministic stand-in with the same interface contract takes its place, so the smoothing itself is not judged.',
  assumptions=['the external ink-stroke-modeler library honours its documented interface (save/restore, event protocol)'])
P('P40', 'An in-progress stroke follows its documented life cycle',
  'Starting, enqueueing, updating, finishing, clearing, moving and restarting an in-progress stroke in any order leaves exactly the documented inputs (all processed real inputs plus the latest prediction), counts, brush and finish state; calls that break a rule return an error and change nothing. The geometry shown depends only on the brush, the inputs and the clock: not on how inputs were split into updates, on predictions since replaced, on earlier strokes in the same object or on moving it. Mesh indices, attributes and outlines are valid, the bounds are those of the mesh, the updated region covers every changed triangle, a stroke that is finished and needs no update never changes, and a copied stroke has the same inputs, brush, triangles and outlines.',
  ['histories', 'inputs'], 'for all histories of 4 (5) of 14 operations on 10 brushes and 5 paths, all histories of 4 (5) with refused calls, and every split of 8 (10) inputs with 0, 1 or 3 predictions per update',
  'Tests drive one stroke in the expected order; predictions, moves, restarts and idle updates interact only in particular orders.',
  ['ink/strokes/in_progress_stroke.h', 'ink/strokes/in_progress_stroke.cc', 'ink/strokes/internal/stroke_shape_builder.h', 'ink/strokes/internal/stroke_shape_builder.cc', 'ink/strokes/internal/brush_tip_extruder.cc', 'ink/strokes/internal/stroke_outline.h', 'ink/strokes/internal/stroke_outline.cc'],
  [('input queues and status checks', 'ink/strokes/in_progress_stroke.cc'), ('save and restore of volatile geometry', 'ink/strokes/internal/brush_tip_extruder.cc'), ('documented life cycle', 'ink/strokes/in_progress_stroke.h')],
  [dict(src='p40_in_progress.cc', mode='fast'), dict(src='p40_in_progress.cc', mode='asan', flags=['-DWITH_SANITIZERS'])],
  'Every history in the bound runs on the real classes next to a model of the inputs and a second stroke started afresh that never sees predictions, moves or earlier strokes; geometry must agree exactly. The external smoothing library is replaced by a stand-in.',
  assumptions=['the external ink-stroke-modeler library honours its documented interface (save/restore, event protocol)'])
P('P41', 'A stroke keeps its shape in step with its brush and inputs',
  'After any sequence of constructing, setting, copying, moving, swapping and rebuilding strokes, including setters called with the stroke\'s own brush, family or inputs, a stroke has exactly the brush and inputs last set, one render group per brush coat, and the shape those give: the one a fresh in-progress stroke with the same brush and inputs is copied to, in order and up to mesh packing the triangles of a fresh shape builder. The shape is regenerated by SetInputs and SetBrushAndInputs and by any change of tips, size or epsilon, and is otherwise kept, even a shape given from outside. Refused sizes and epsilons return an error and change nothing. Strokes made earlier on the thread leave no trace, copies do not affect each other, and threads may regenerate copies of one stroke at the same time.',
  ['histories', 'inputs', 'schedules'], 'for all histories of 2 (3) of 46 operations from 88 starts, all ordered pairs of 150 strokes made on one thread (quick: 43%), and all schedules with 1 preemption of 2 threads regenerating copies',
  'Tests set one thing on one fresh stroke; aliasing setters, shapes kept or regenerated, thread-local builders reused between strokes and shared copies matter only in sequences.',
  ['ink/strokes/stroke.h', 'ink/strokes/stroke.cc', 'ink/strokes/internal/stroke_shape_builder.cc', 'ink/brush/brush.cc', 'ink/strokes/in_progress_stroke.cc', 'ink/geometry/partitioned_mesh.cc'],
  [('when a shape is regenerated', 'ink/strokes/stroke.cc'), ('thread-local shape builders', 'ink/strokes/stroke.cc'), ('documented setters', 'ink/strokes/stroke.h')],
  [dict(src='p41_stroke.cc', mode='fast'), dict(src='p41_stroke.cc', mode='asan', flags=['-DWITH_SANITIZERS']), dict(src='p41_threads.cc', mode='race')],
  'Every history in the bound runs on the real strokes next to a model of brush, inputs and decoded shape; thread schedules are enumerated with race detection on the real code. The external smoothing library is replaced by a stand-in.',
  assumptions=['the external ink-stroke-modeler library honours its documented interface (save/restore, event protocol)', 'harness/race_rt.cc replaces libtsan: threads run one at a time and interleave at atomic and mutex operations, executions are sequentially consistent, and weaker orderings are judged only through happens-before'])
P('P42', 'Extruding tips covers what they sweep, however the states arrive',
  'However a stroke\'s brush tip states are split into calls, and whatever volatile states came in between, the extruded geometry, its vertex attributes and its outlines after each call are those of an extruder given all fixed states at once plus the latest volatile ones: nothing of removed predictions remains. Triangles index existing vertices, outlines repeat none, the reported bounds are those of the vertices, and every call reports a region and first vertex and index offsets that cover everything it changed. The triangles cover the area swept by tips moving between states and nothing far outside it.',
  ['histories', 'inputs'], 'for all histories of up to 4 (5) fixed and volatile tip states out of 12 in up to 4 calls, with and without texture coordinates; and all paths of 3-4 (4-5) points on a 3x3 grid with 5 tips without exact reversals or two sharp turns in a row',
  'Tests extrude a few strokes in one direction; volatile states over breaks, containment and simplification, and wrong triangles drawn by simplification, depend on particular orders of states.',
  ['ink/strokes/internal/brush_tip_extruder.h', 'ink/strokes/internal/brush_tip_extruder.cc', 'ink/strokes/internal/brush_tip_extruder/geometry.h', 'ink/strokes/internal/brush_tip_extruder/geometry.cc', 'ink/strokes/internal/stroke_outline.cc', 'ink/strokes/internal/brush_tip_shape.cc', 'ink/strokes/internal/constrain_brush_tip_extrusion.cc', 'ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc'],
  [('save and restore of volatile extrusion', 'ink/strokes/internal/brush_tip_extruder.cc'), ('triangulation and simplification', 'ink/strokes/internal/brush_tip_extruder/geometry.cc')],
  [dict(src='p42_extruder.cc', mode='fast'), dict(src='p42_extruder.cc', mode='asan', flags=['-DWITH_SANITIZERS'])],
  'Every history in the bound runs on the real extruder, compared after each call with a second extruder that never saw the volatile states; every path in the bound is extruded and compared with the exact swept area (convex hulls of neighbouring tips) on a grid of sample points.')
P('P43', 'Brush behaviors and tip states are what the documentation says they are',
  'A brush tip\'s behaviors give, for every modeled input, the documented result: each source its documented value, put in range by its out-of-range rule; filters, damping, responses, sums, products and interpolations as documented, null when an input is missing or a result overflows; targets combine in any order, keep their last value while null, and leave everything else to the tip. Tip states are always finite and inside their documented ranges. Particles appear as soon as both gaps have passed, each made from the interpolated input. However inputs are stable, real or predicted over the updates, a tip state reported fixed is one no later input or time can change, everything that can be fixed is, and the states so far are those the whole input would give.',
  ['inputs', 'histories'], 'for all sources x out-of-range rules on a grid of inputs, all chains of up to 2 (3) operators and graphs of 2-3 leaves, all triples of targets, extreme values to every target, particles over all histories of 3 (4) inputs, and all histories of 3 (4) updates for 24 tips',
  'Tests set one source and one target and look at one update; null values, orders of targets, overflow and what may be fixed while later inputs are unknown depend on combinations and histories.',
  ['ink/strokes/internal/brush_tip_modeler.h', 'ink/strokes/internal/brush_tip_modeler.cc', 'ink/strokes/internal/brush_tip_modeler_helpers.h', 'ink/strokes/internal/brush_tip_modeler_helpers.cc', 'ink/brush/brush_behavior.h', 'ink/strokes/internal/brush_tip_state.h'],
  [('behavior nodes and targets', 'ink/strokes/internal/brush_tip_modeler_helpers.cc'), ('fixed and volatile tip states, particles', 'ink/strokes/internal/brush_tip_modeler.cc'), ('documented nodes', 'ink/brush/brush_behavior.h')],
  [dict(src='p43_behaviors.cc', mode='fast')],
  'Exhaustive over the stated grids and histories against a model of the documented behaviors in double; fixed and volatile states after every update are compared with those of the whole input.')
P('P44', 'Brush tip shapes and the joins between them cover exactly their hulls',
  'For any brush tip state, however flat, slanted, pinched or empty, the tip shape is one of 1 to 4 distinct equal circles in convex clockwise order around the documented shape, contains itself, and its bounds and outline are those of its hull. A rounded polygon contains a circle exactly when its hull does. For two tips, containment agrees with the hulls; tangents are called good only if exactly two straight edges join the shapes and do so for shapes that are apart or the same, and start and end caps then go once around the hull of both. Turns stay inside what the tip sweeps and reach as far. A constrained tip is the furthest interpolation with good tangents. Extruding any path of such tips neither aborts nor leaves the swept region.',
  ['inputs'], 'for a full grid of widths, heights, radii, rotations, slants and pinches, all ordered pairs of 14 kinds of tips at 25 (49) displacements, all turns over a 5x5 grid, and all paths of 3 tips of 16 (26) extreme kinds',
  'Tests use rectangles and circles in general position; coinciding and collinear circles, ties between tangents and shapes that half contain each other are where outlines loop, fall short or abort.',
  ['ink/strokes/internal/brush_tip_shape.h', 'ink/strokes/internal/brush_tip_shape.cc', 'ink/strokes/internal/brush_tip_extrusion.h', 'ink/strokes/internal/brush_tip_extrusion.cc', 'ink/strokes/internal/rounded_polygon.h', 'ink/strokes/internal/rounded_polygon.cc', 'ink/strokes/internal/circular_extrusion_helpers.h', 'ink/strokes/internal/circular_extrusion_helpers.cc', 'ink/strokes/internal/constrain_brush_tip_extrusion.h', 'ink/strokes/internal/constrain_brush_tip_extrusion.cc', 'ink/strokes/internal/brush_tip_state.h'],
  [('perimeter circles, tangents, caps and turns', 'ink/strokes/internal/brush_tip_shape.cc'), ('quality of tangents', 'ink/strokes/internal/brush_tip_extrusion.cc')],
  [dict(src='p44_shapes.cc', mode='fast')],
  'Exhaustive over the stated grids on the real classes, against convex hulls of circles computed in double.')
P('P45', 'Brush JNI bindings build exactly the brush asked for, or throw, without leaks',
  'Every brush JNI call builds the native object its arguments name, field for field and in order: tips from their nine numbers, every kind of behavior node with every enumerator and curve, texture layers from a URI, numbers and enumerations, paints, coats and families from arrays of their parts, and brushes from a family, colour, size and epsilon. When the C++ rules for that object reject it, exactly one IllegalArgumentException with that rule\'s message is thrown, the half-built object is deleted, and nothing else changes. Objects hold copies of their parts, which may be freed before or after them; every object freed gives back all of its memory; array elements and characters are released; unknown colour spaces are fatal.',
  ['inputs', 'histories'], 'for every pair of fields of each call over values in, at and beyond their range, every node call alone and in pairs, every sequence of up to 3 (4) valid nodes, and every family of up to 3 coats, 2 tips and 3 layers under both orders of freeing',
  'The bindings take up to twelve positional numbers and enumerations and have no tests in the repository; a swapped argument or a path that forgets to free compiles and mostly works.',
  ['ink/brush/internal/jni/brush_jni.cc', 'ink/brush/internal/jni/brush_behavior_jni.cc', 'ink/brush/internal/jni/brush_tip_jni.cc', 'ink/brush/internal/jni/brush_paint_jni.cc', 'ink/brush/internal/jni/brush_coat_jni.cc', 'ink/brush/internal/jni/brush_family_jni.cc'],
  [('behavior nodes', 'ink/brush/internal/jni/brush_behavior_jni.cc'), ('texture layers', 'ink/brush/internal/jni/brush_paint_jni.cc'), ('families', 'ink/brush/internal/jni/brush_family_jni.cc')],
  [dict(src='p45_brush_jni.cc', mode='asan', dirs=['ink/brush/internal/jni', 'ink/jni/internal', 'ink/color/internal/jni'])],
  'Exhaustive over the stated sets against objects built directly in C++ from the documented argument order, with a modelled JVM and byte-exact heap accounting.',
  assumptions=['harness/fakejvm.h models the JVM behind a real JNIEnv function table'])
P('P46', 'Strokes JNI bindings show Java exactly the native inputs, strokes and meshes',
  'A StrokeInput crosses the JNI boundary in both directions with every field intact: whole milliseconds come back as the same milliseconds (up to 4000 s), and the duration of a batch is exactly the difference of its first and last milliseconds (up to 2000 s). Appending returns null or the exact C++ error, and after any history of appends, clears and copies everything readable matches the inputs accepted so far, in independent copies. A stroke in progress driven from Java equals a native one driven by the same calls after every call: counts, inputs, bounds, updated region, raw vertices, outlines, formats and copied strokes; its 16-bit index data are the whole triangles before the first one they cannot express. Strokes and the copies of their inputs and shapes are independent of each other\'s lifetime; null handles are fatal; nothing leaks.',
  ['inputs', 'histories'], 'for every pair of fields of an input, all pairs of times below 260 (1200) ms and around larger ones, all histories of 4 batch calls, all histories of 4 (5) stroke calls for 4 brushes, and 9 (18) strokes with more than 65536 vertices',
  'The bindings have no tests in the repository; truncated milliseconds, stale index caches and cut-off triangles only show at particular values and after particular histories.',
  ['ink/strokes/internal/jni/stroke_input_jni_helper.cc', 'ink/strokes/internal/jni/stroke_input_batch_jni.cc', 'ink/strokes/internal/jni/in_progress_stroke_jni.cc', 'ink/strokes/internal/jni/stroke_jni.cc'],
  [('inputs to and from Java', 'ink/strokes/internal/jni/stroke_input_jni_helper.cc'), ('batches', 'ink/strokes/internal/jni/stroke_input_batch_jni.cc'), ('strokes in progress', 'ink/strokes/internal/jni/in_progress_stroke_jni.cc'), ('strokes', 'ink/strokes/internal/jni/stroke_jni.cc')],
  [dict(src='p46_strokes_jni.cc', mode='asan', dirs=['ink/strokes/internal/jni', 'ink/geometry/internal/jni', 'ink/jni/internal']), dict(src='p46_strokes_jni.cc', mode='fast', flags=['-DMANY'], dirs=['ink/strokes/internal/jni', 'ink/geometry/internal/jni', 'ink/jni/internal'])],
  'Exhaustive over the stated sets and histories on the real bindings, against native objects driven by the same calls and a list of the inputs as Java knows them, with a modelled JVM.',
  assumptions=['harness/fakejvm.h models the JVM behind a real JNIEnv function table'])
P('P47', 'Stroke vertices carry the tip\'s opacity, colour, texture and side',
  'Every vertex of an extruded stroke has exactly the opacity and colour shifts of the tip state whose tip it lies on, or, where sides meet or turns overlap, a mixture of states of that part of the path, in all four components alike. Particle texture coordinates are the vertex\'s place in its own tip\'s box, reach the texture\'s edges there, and are zero without particle textures. On straight strokes vertices lie on their tips, never around the far side; left and right labels are on that side of the travel direction, side derivatives point from left to right with the stroke\'s width, forward derivatives forward; the two ends are labelled start and end; and moving an outline vertex outwards as the shader does never moves it into the stroke.',
  ['inputs'], 'for all pairs and triples of particles on a grid of sizes, rotations, roundings, slants, pinches and colourings, all paths of 2-4 (5) points on a 3x3 grid with 4 tips at 3 spacings, and all straight strokes of 2-4 states in 16 (48) directions with 5 tips in 3 sizes at 3 spacings',
  'Tests extrude along the axes with a few tips; collinear tangents decided by rounding in other directions, mixed-up components and wrong sides show only at particular directions and shapes.',
  ['ink/strokes/internal/brush_tip_extruder.h', 'ink/strokes/internal/brush_tip_extruder.cc', 'ink/strokes/internal/brush_tip_extruder/geometry.h', 'ink/strokes/internal/brush_tip_extruder/geometry.cc', 'ink/strokes/internal/brush_tip_extruder/derivative_calculator.h', 'ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc', 'ink/strokes/internal/stroke_vertex.h', 'ink/strokes/internal/stroke_vertex.cc', 'ink/strokes/internal/brush_tip_shape.cc', 'ink/strokes/internal/circular_extrusion_helpers.cc', 'ink/strokes/internal/stroke_outline.h', 'ink/strokes/internal/stroke_outline.cc'],
  [('vertex attributes', 'ink/strokes/internal/brush_tip_extruder.cc'), ('labels and derivatives', 'ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc'), ('turns and caps', 'ink/strokes/internal/brush_tip_shape.cc')],
  [dict(src='p47_vertices.cc', mode='fast')],
  'Exhaustive over the stated grids on the real extruder, against the attributes of the tip states and the geometry of straight strokes computed in double. A flat tip that shrinks while moving along its own axis is left out (the constrained tip keeps the old size), and so are five overlapping points (extending an outline at a turn extrapolates attributes).')
P('P48', 'The pieces strokes are extruded from keep their documented contracts',
  'A view of a mesh or of legacy vectors holds exactly what was written through it, knows the first vertex and triangle changed since the last reset, and dies on indices out of range. A partial outline runs backwards down one side and on up the other, as far as each side reaches. Searching an outline finds the first of its segments that meets a given segment within the budget and the containing triangle, at its earliest point, with exact indices, position, interpolation values and remaining budget. The last clockwise segment of a fan is found across discontinuities. Simplifying keeps both ends and drops only points within the tolerance of what replaces them. Interpolated vertices are weighted sums in every field, legacy conversion keeps what it can hold, and joined updates cover all their parts.',
  ['inputs', 'histories'], 'for all sequences of up to 3 (4) of 17 operations on both kinds of view, all partial outlines of two sides of up to 4 indices, all outlines of up to 3 (4) grid points against all grid segments, all fans of up to 4 (5) grid points and all with up to 2 discontinuities, and all grid polylines of up to 5 (6) points',
  'Tests try a few meshes and outlines; which index is first changed, where an outline starts and stops, and ties and degenerate segments depend on histories and exact positions.',
  ['ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.h', 'ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc', 'ink/strokes/internal/brush_tip_extruder/directed_partial_outline.h', 'ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc', 'ink/strokes/internal/brush_tip_extruder/find_clockwise_winding_segment.h', 'ink/strokes/internal/brush_tip_extruder/find_clockwise_winding_segment.cc', 'ink/strokes/internal/brush_tip_extruder/simplify.h', 'ink/strokes/internal/brush_tip_extruder/simplify.cc', 'ink/strokes/internal/brush_tip_extruder/extruded_vertex.h', 'ink/strokes/internal/brush_tip_extruder/extruded_vertex.cc', 'ink/strokes/internal/brush_tip_extruder/side.h', 'ink/strokes/internal/legacy_vertex.h', 'ink/strokes/internal/legacy_vertex.cc', 'ink/strokes/internal/stroke_shape_update.h', 'ink/strokes/internal/stroke_shape_update.cc'],
  [('mutation tracking', 'ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc'), ('outline search', 'ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc'), ('fans', 'ink/strokes/internal/brush_tip_extruder/find_clockwise_winding_segment.cc')],
  [dict(src='p48_extruder_helpers.cc', mode='fast'), dict(src='p48_extruder_helpers.cc', mode='asan')],
  'Exhaustive over the stated sets on the real classes, next to plain models and exact integer geometry.')
P('P49', 'Bitmaps and mesh specifications reach Java valid, exact and in full',
  'A bitmap passes validation exactly if its width and height are positive, its pixel format is a known one, and its data are four bytes for each of its pixels, also where the product does not fit in 32 bits; the first thing wrong is reported with its value. Pixel data are returned as given. For every mesh format a stroke can have, packed or in progress, Java receives exactly the specification C++ computes: types, offsets, names, stride, varyings, uniforms and shader sources, with -1 or no name in every unused entry whatever was computed before. A format that cannot be drawn throws its error and writes nothing.',
  ['inputs', 'histories'], 'for all bitmaps of 14 widths by 14 heights by formats by data sizes at and next to the valid ones, all bitmaps of up to 3x3 pixels with up to 40 bytes, and all mesh formats of the position and any of seven other attributes, packed or not, in three orders, drawn packed and in progress and after one another',
  'Tests render a few strokes on a device; overflow in sizes and entries left over from an earlier call show in values no test looks at.',
  ['ink/rendering/bitmap.h', 'ink/rendering/bitmap.cc', 'ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc'],
  [('bitmap validation', 'ink/rendering/bitmap.cc'), ('mesh specifications for Java', 'ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc')],
  [dict(src='p49_rendering.cc', mode='asan', dirs=['ink/rendering/skia/common_internal/jni', 'ink/jni/internal'])],
  'Exhaustive over the stated sets on the real classes and the real JNI function, next to the specification computed in C++.',
  assumptions=['harness/fakejvm.h models the JVM behind a real JNIEnv function table'])
