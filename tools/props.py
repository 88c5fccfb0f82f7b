H = 'histories'; I = 'inputs'; F = 'fault_sequences'; S = 'schedules'; C = 'crash_points'; K = 'configurations'
prop('C01', 'Curve editing sessions preserve the curve',
 'After any sequence of curve edits (knot insertion, refinement, removal, degree elevation, clamping, knot normalisation, reversal, affine transformation, splitting, trimming, Bezier decomposition), rational or polynomial, 2D or 3D, every point of the edited curve is the point of the original at the corresponding parameter (within the stated tolerance of a removal), and domain, tangents, samples and end points agree. The curve stays well formed (knot count, order, positive weights). Saves, restarts and refused edits in between change nothing.',
 [H, I, F], 'every sequence of edits, on every curve, with refusals, saves and restarts at any point',
 'The tests try single edits on a few fixed, mostly single-span or unweighted curves; errors appear only for particular combinations of knots, weights and earlier edits.',
 ['src/curve/nurbs_curve.rs', 'src/split/mod.rs', 'src/trim/mod.rs', 'src/knot/knot_vector.rs', 'src/misc/invertible.rs'],
 [('Boehm insertion and Oslo-style refinement', 'src/curve/nurbs_curve.rs: try_add_knot, try_refine_knot'), ('knot removal with a tolerance', 'src/curve/nurbs_curve.rs: try_remove_knot'), ('degree elevation', 'src/curve/nurbs_curve.rs: try_elevate_degree'), ('splitting by refinement', 'src/split/mod.rs')],
 [('knots', 'the knot vector', 'NurbsCurve'), ('control_points', 'homogeneous control points', 'NurbsCurve')], ['point_at', 'tangent_at', 'knots_domain', 'sample_regular_range_with_parameter'])
prop('C02', 'Surface editing sessions preserve the surface',
 'After any sequence of surface edits (refinement and splitting in either direction, flipping either or both directions, transformation, save and restore), every point of the edited surface is the point of the original at the corresponding parameters. Isocurves, boundary curves, regular samples, derivatives and normals taken from any such state agree with the surface itself, and the surface stays well formed.',
 [H, I, F], 'every sequence of surface edits on every surface, with saves and restarts',
 'The tests evaluate a few surfaces once; they do not chain edits or take isocurves at repeated knots.',
 ['src/surface/nurbs_surface.rs', 'src/split/mod.rs', 'src/trim/mod.rs'],
 [('refinement per direction', 'src/surface/nurbs_surface.rs: try_refine_knot'), ('split', 'src/split/mod.rs'), ('isocurve', 'src/surface/nurbs_surface.rs: try_isocurve'), ('flip', 'src/surface/nurbs_surface.rs: flip_u, flip_v, invert')],
 [('control_points', 'grid of homogeneous control points', 'NurbsSurface')], ['point_at', 'normal_at', 'try_isocurve', 'try_boundary_curves', 'regular_sample_points', 'rational_derivatives'])
prop('C03', 'An edit that is refused or aborted leaves its model as it was',
 'When an editing call on a curve, surface or compound curve returns an error or panics because of its arguments, the object it was called on is unchanged, bit for bit, and still usable; an edit that reports success leaves a well-formed model that can be evaluated, whatever its arguments. Calls that only read a model never change it, whatever their outcome, including when the entropy source fails in the middle.',
 [F, I, H], 'every edit with every argument, valid or not, at any point of a session, with entropy failing at any draw',
 'The tests contain no failing edit followed by a look at the object.',
 ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/region/compound_curve.rs', 'src/knot/knot_vector.rs'],
 [('validation before mutation', 'src/curve/nurbs_curve.rs: try_add_knot, try_remove_knot, try_clamp, try_refine_knot'), ('working on copies of the knots and control points', 'src/curve/nurbs_curve.rs: try_remove_knot; src/surface/nurbs_surface.rs: try_refine_knot')], (), ['return values', 'knots(), control_points()'])
prop('C04', 'Saving and restoring is exact; damaged saves never give a broken model',
 'A curve, surface, trimmed surface, compound curve or region saved through serde and restored is the same model, bit for bit, however the bytes are delivered (short reads, interrupted calls) and wherever a crash interrupts the writer: the last completed save is what restarts. A read or write error is reported as an error, and a torn or altered save is either refused or restores a model whose parts fit together (counts and order of knots and control points) and whose evaluation, where the weights are positive, does not panic.',
 [C, F, I], 'every model, every crash point of the saving process, every delivery and damage of the saved bytes',
 'tests/serialize.rs round-trips three fixed objects through an intact in-memory string.',
 ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/surface/trimmed_surface.rs', 'src/region/compound_curve.rs', 'src/knot/knot_vector.rs'],
 [('Serialize and Deserialize implementations', 'the files named above, feature serde'), ('counts and order checked on restoring', 'src/knot/knot_vector.rs: is_valid_for')], (), ['serde_json::to_writer', 'serde_json::from_reader'])
prop('C05', 'Curve tessellation stays on the curve, in order, in tolerance, for any entropy',
 'For every stream the random source may produce, the tessellation of a curve or compound curve is a finite polyline whose points lie on the curve in increasing parameter order, from its start to its end, with the curve nowhere far from the polyline compared with the tolerance. A polyline curve yields its own vertices and a straight curve its two ends; repeating a call may differ only within these bounds.',
 [F, I, H], 'every curve, tolerance and entropy stream, including constant, biased and failing ones',
 'The tests never control the random source that picks the split points, so they see one stream.',
 ['src/tessellation/tessellation_curve.rs', 'src/tessellation/tessellation_compound_curve.rs'],
 [('recursive bisection at random mid-parameters', 'src/tessellation/tessellation_curve.rs: tessellate_recursive')], (), ['tessellate()'])
prop('C06', 'Region tessellation covers exactly the region',
 'The triangulation of a region with holes, for any entropy, hash seed and clock, is a valid mesh: indices in range, no degenerate or overlapping triangle, every triangle inside the tessellated exterior and outside the holes, and the triangles\' area equal to that of the region within the tolerance of its polylines.',
 [F, I, K], 'every region, tolerance, entropy stream and hash seed',
 'There is no test of it.',
 ['src/tessellation/tessellation_region.rs'],
 [('constrained Delaunay triangulation of the tessellated boundaries', 'src/tessellation/tessellation_region.rs')], (), ['Region::tessellate'])
prop('C07', 'Surface tessellation yields a valid mesh independent of the environment',
 'Tessellating a surface or a trimmed surface, with or without options and constraints, gives a mesh whose vertices, normals and uvs correspond (each vertex is the surface point of its uv), whose indices are in range and triangles well oriented, that covers the whole (trimmed) domain without overlap or gap, and meets its requested boundary constraints (vertices exactly at the constrained parameters of a constrained border). Normals point along the surface normal. The result does not depend on clocks, hash seeds or what ran before.',
 [F, I, K, H], 'every surface, option set, constraint set and environment',
 'The tests check nothing but example programs that are only looked at.',
 ['src/tessellation/surface_tessellation.rs', 'src/tessellation/adaptive_tessellation_processor.rs', 'src/tessellation/adaptive_tessellation_node.rs', 'src/tessellation/trimmed_surface.rs', 'src/tessellation/boundary_constraints.rs'],
 [('adaptive quad tree', 'src/tessellation/adaptive_tessellation_node.rs'), ('constrained triangulation in uv', 'src/tessellation/trimmed_surface.rs')], (), ['SurfaceTessellation'])
prop('C08', 'Curve-curve intersection finds the true crossings for any entropy',
 'Whatever the random source produces, every reported intersection of two curves (or compound curves) is one: both points lie on their curves at the reported parameters inside the domains and coincide within the tolerance. Every well separated transversal crossing of gently curved arcs (little change of direction and speed near the crossing) is reported once, in either order of the arguments and at every repetition.',
 [F, I, H], 'every pair of curves, option set and entropy stream',
 'The tests intersect fixed pairs with one uncontrolled entropy stream each.',
 ['src/intersects/curve_curve/intersection_curve_curve.rs', 'src/intersects/curve_curve/intersection_compound_curve.rs', 'src/intersects/curve_curve/curve_intersection_bfgs.rs', 'src/bounding_box/curve_bounding_box_tree.rs', 'src/bounding_box/bounding_box_traversal.rs'],
 [('bounding box tree split at random parameters', 'src/bounding_box/curve_bounding_box_tree.rs'), ('BFGS refinement and merging', 'src/intersects/curve_curve')], (), ['find_intersections'])
prop('C09', 'Surface-curve intersection finds the true crossings for any entropy',
 'Whatever the random source produces, every reported intersection of a surface and a curve is one: the surface point at the reported parameters and the curve point at the reported parameter coincide within the tolerance, inside both domains. Every well separated transversal crossing is reported once.',
 [F, I], 'every surface, curve and entropy stream',
 'The tests try one fixed pair.',
 ['src/intersects/surface_curve/intersection_surface_curve.rs', 'src/bounding_box/surface_bounding_box_tree.rs', 'src/intersects/surface_curve/surface_curve_intersection_bfgs.rs'],
 [('paired bounding box trees', 'src/bounding_box'), ('BFGS refinement', 'src/intersects/surface_curve')], (), ['find_intersections'])
prop('C10', 'Point containment agrees with the winding of the boundary, for any entropy',
 'For every closed curve or compound curve and every point not near its boundary, containment is true exactly when the boundary winds around the point an odd number of times, whatever the random source produces and however the boundary was edited or reversed.',
 [F, I, H], 'every closed boundary, every point away from it, every entropy stream',
 'The tests try fixed shapes and points with one entropy stream.',
 ['src/contains/contains_curve.rs', 'src/contains/contains_compound_curve.rs'],
 [('ray casting through curve-curve intersection', 'src/contains')], (), ['contains()'])
prop('C11', 'Boolean operations equal pointwise set operations, for any entropy',
 'For every two operands in general position (simple closed curves, compound curves, regions with holes), union, intersection and difference give regions whose membership, away from the boundaries, is exactly the pointwise boolean of the operands\' membership, with area to match, enclosed holes, islands and separate parts included; every result region is closed and its holes lie in its exterior. This holds for every entropy stream, start point, direction and representation of the operands.',
 [F, I, H], 'every operand pair in general position, every entropy stream',
 'The tests check a handful of fixed pairs, mostly counting regions.',
 ['src/boolean/clip.rs', 'src/boolean/boolean_curve.rs', 'src/boolean/boolean_compound_curve.rs', 'src/boolean/boolean_region.rs', 'src/boolean/degeneracies.rs'],
 [('Greiner-Hormann style clipping on intersection lists', 'src/boolean/clip.rs')], (), ['boolean()'])
prop('C12', 'Results depend on arguments only: no clock, hash seed or history leaks in',
 'A query repeated with the same arguments and the same random stream returns bit-identical results whatever the clock does, whatever hash seeds the process drew, and whatever other calls ran before; queries that use no randomness return bit-identical results for every random stream.',
 [K, H, F], 'every query, environment and preceding history',
 'Each test runs once in one environment.',
 ['src/misc/binomial.rs', 'src/tessellation/tessellation_region.rs', 'src/tessellation/trimmed_surface.rs', 'src/tessellation/tessellation_curve.rs', 'src/bounding_box/curve_bounding_box_tree.rs'],
 [('only point lookups in hash maps', 'src/misc/binomial.rs, src/tessellation'), ('no global state', 'whole crate')], (), ['all queries'])
prop('C13', 'Concurrent use of shared models gives each caller its solo result',
 'When several threads query and copy-edit the same models at once, under any interleaving and with threads stalled anywhere, each thread obtains exactly the results it obtains when running alone with the same random stream; nothing deadlocks and the shared models are unchanged.',
 [S, F], 'every interleaving of any callers over shared models',
 'The tests use no shared model from two threads.',
 ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/misc/binomial.rs', 'src/tessellation', 'src/bounding_box'],
 [('immutable sharing, no interior mutability, thread-local random generator', 'whole crate')], (), ['all queries'])
prop('C14', 'Every call finishes within bounded work under adversarial entropy and clocks',
 'Every tessellation, intersection, containment, boolean, closest-point and length query on a valid model finishes in a number of steps bounded by the size of its input and result, without panic, stack overflow or runaway memory, even when the random source is constant, extreme or biased and the clock stops or jumps.',
 [F, I], 'every query, every entropy stream and clock behaviour',
 'With a fair random source the bad streams never occur in a test.',
 ['src/tessellation/tessellation_curve.rs', 'src/bounding_box/curve_bounding_box_tree.rs', 'src/intersects', 'src/contains', 'src/boolean', 'src/closest_parameter'],
 [('recursion limits and minimum widths', 'src/tessellation/tessellation_curve.rs, src/bounding_box'), ('iteration limits', 'src/closest_parameter, src/intersects')], (), ['all queries'])
prop('C15', 'Compound-curve sessions preserve the outline and its connectivity',
 'A compound curve built from connected spans in any order and direction, and then edited in any sequence (reversed, transformed, trimmed or split, spans appended, saved and restored), keeps its spans connected head to tail, traces exactly the outline of its spans, reports consistent length, end points, closedness and closest points, and leaves out spans that connect to neither end.',
 [H, I, F], 'every chain of spans in any order, and every sequence of edits',
 'The tests build a few fixed compounds.',
 ['src/region/compound_curve.rs', 'src/region/mod.rs'],
 [('span reordering and reversal on construction', 'src/region/compound_curve.rs: new'), ('trimming at the joints of spans', 'src/trim/mod.rs: try_trim_range')], (), ['spans()', 'point_at', 'tessellate'])
prop('C16', 'Measurements agree with the curve after any history',
 'On a curve in any state an editing session can reach, its length equals the true arc length, dividing by length or count yields parameters at those arc lengths (within a small fraction of one part) in increasing order, the parameter found for a length inverts the length within the tolerance asked for, the bounding box contains the curve, and the closest point found is on the curve and, wherever one stretch of the curve is clearly nearest, no farther than the true closest point.',
 [H, I, F], 'every curve state reachable by edits, every query argument',
 'The tests measure a few fixed unedited curves.',
 ['src/curve/nurbs_curve.rs', 'src/closest_parameter', 'src/bounding_box/mod.rs'],
 [('Gauss-Legendre length per Bezier span', 'src/curve/nurbs_curve.rs: try_length'), ('bisection on length', 'src/curve/nurbs_curve.rs: try_parameter_at_length'), ('Newton closest point', 'src/closest_parameter')], (), ['try_length', 'try_divide_by_length', 'find_closest_point', 'BoundingBox'])
NA = 'A pure function of its arguments, computed in one step: no randomness, time, I/O, concurrency, shared state or history for a simulator to schedule or fault; simulating it would be plain input testing.'
prop('C17', 'Interpolated curves pass through their points',
 'A curve interpolated through any admissible list of points, open or periodic, passes through every point in order.', [I], 'every admissible list of points', 'Tests use fixed lists.',
 ['src/curve/nurbs_curve.rs'], [('linear solve for control points', 'src/curve/nurbs_curve.rs: try_interpolate, try_periodic_interpolate')], na=NA)
prop('C18', 'Circle, arc, ellipse and polyline constructors are exact',
 'Constructed circles, arcs, ellipses and polylines lie exactly on the conic or segments they are named after, over exactly the requested range.', [I], 'every admissible argument', 'Tests use a few fixed conics.',
 ['src/curve/nurbs_curve.rs'], [('rational quadratic spans', 'src/curve/nurbs_curve.rs: try_circle, try_arc, try_ellipse_arc')], na=NA)
prop('C19', 'Extruded, lofted, swept and revolved surfaces contain their generators',
 'A surface constructed by extrusion, lofting, sweeping, revolution or as plane or sphere contains the curves it was constructed from at the parameters documented.', [I], 'every admissible set of generators', 'There is hardly a test.',
 ['src/surface/nurbs_surface.rs', 'src/misc/frenet_frame.rs'], [('constructors', 'src/surface/nurbs_surface.rs: extrude, try_loft, try_sweep, try_revolve')], na=NA)
prop('C20', 'Basis functions are a partition of unity and derivatives are consistent',
 'At every parameter, basis functions are non-negative, sum to one, and their derivatives match the functions.', [I], 'every knot vector and parameter', 'Tests use one knot vector.',
 ['src/knot/knot_vector.rs'], [('Cox-de Boor recursion', 'src/knot/knot_vector.rs')], na=NA + ' (C01, C02 and C16 check evaluation as a whole.)')
