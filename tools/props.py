#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to regenerate the file."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    anchors['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()), 'anchors': anchors})

prop('C01', 'A drafted pattern puts every point where its construction says',
"""After a pattern is evaluated, every point stands where its construction step defines it from the evaluated
formulas and the points it refers to: given coordinates, along a line, at an angle and distance, at the crossing of
two lines, on a rotated normal, at the contact of a line with a circle (on the segment of the two points when one is), or taking the abscissa of one point and the ordinate of another;
a spline's control points stand at the given angle and length from its ends.
This holds whatever the order of sizes, the signs of lengths and angles, the labels and ids used and however often the pattern is
evaluated, a step whose construction has no solution never receives an arbitrary position, and lines, splines and the pattern's bounding box follow those positions.""",
['programs', 'histories'],
"every construction program over all step kinds up to the depth bound, every operand choice and every formula of the alphabet, each evaluated once and repeatedly",
"No unit test evaluates a pattern; the guarantee is over all programs of construction steps, which multiply quickly.",
['Patro/Pattern/SketchOperation.py', 'Patro/Pattern/Sketch.py', 'Patro/Pattern/Pattern.py'],
[('evaluation in construction order', 'Sketch.eval'), ('one evaluation rule per step kind', 'SketchOperation.*.eval_internal')],
['Point.vector, control_point1/2, geometry(), Sketch.bounding_box after Sketch.eval()'])

prop('C02', 'A formula is worth what its arithmetic says, whatever the names',
"""A formula used in a pattern evaluates to the arithmetic value of its text, where each measurement name (custom
measurements written with a leading @ included) stands for that measurement's value, Line_A_B for the distance of points A and B,
AngleLine_A_B for the orientation of the vector from A to B, and CurrentLength for the length of the line being drafted on.
The value does not depend on names being prefixes or parts of one another, on how many names, custom measurements or functions the formula contains
or in which order they come, and once evaluated, the points a formula mentions through Line_ or AngleLine_ are reported as its dependencies.""",
['inputs', 'programs'],
"every formula of the grammar up to the token bound over a colliding set of names",
"No test evaluates a formula; naming collisions and repeated functions need combinations a handful of examples does not reach.",
['Patro/Pattern/Calculator.py'],
[('rewriting of @names and special functions, then Python evaluation', 'Expression._compile, Expression.eval'),
 ('dependency visitor', 'NodeVisitor.visit_Call')],
['Expression.value, Expression.dependencies'])

prop('C03', 'Pattern steps keep unique ids and true references; patterns are isolated',
"""Every construction step has an id that is unique in its pattern: an id given explicitly is kept, an automatic one is greater than every
id attributed before in that pattern, and a step can be looked up by its id and, for a point, by its name.
Once evaluated, the declared dependencies of a step are exactly the steps it refers to directly or through formulas, its regenerated construction call
rebuilds an equal step, and several patterns or scopes living in one process never see each other's ids, names, points or values.""",
['histories', 'programs', 'configurations'],
"every interleaving of building, evaluating and querying several patterns and scopes up to the depth bound",
"Tests build no pattern at all; isolation needs several patterns built in interleaved orders in one process.",
['Patro/Pattern/SketchOperation.py', 'Patro/Pattern/Sketch.py', 'Patro/Pattern/Pattern.py', 'Patro/Common/Object.py'],
[('process-wide id counter', 'ObjectGlobalIdMixin.__object_counter__'), ('lookup table', 'Sketch._add_operation, get_operation'),
 ('scope list', 'Pattern.add_scope/scope/remove_scope')],
['operation.id, Sketch.get_operation, has_operation_id, operation.dependencies, to_python'])

prop('C04', 'Measurement formulas resolve exactly in any naming and order, and survive saving',
"""The value of a measurement is the full-precision value of its formula in terms of the other measurements, independent of the names,
of the order the measurements were added in, of the order they are queried in, and of how deep the chain of references is.
Adding a name twice is refused without altering the set; looking a measurement up by item or attribute gives the same object, and saving a set to a file and loading it
back gives the same names, values, full names and descriptions.""",
['inputs', 'histories'],
"every acyclic reference graph over up to four measurements, every assignment of names, every insertion and query order, then save and load",
"There is no test of measurements; order and name independence is over all permutations.",
['Patro/Measurement/Measurement.py', 'Patro/Measurement/ValentinaMeasurement.py', 'Patro/Measurement/StandardMeasurement.py'],
[('symbolic substitution', 'MeasurementSet.subs, Measurement.value'), ('YAML save/load', 'MeasurementSet.save_as_yaml, load_yaml'),
 ('custom measurement alias', 'ValentinaMeasurement.replace_custom_prefix, ValentinaMeasurements.add')],
['Measurement.value, MeasurementSet iteration and lookup, the YAML file'])

prop('C05', 'A Valentina pattern file round-trips: what is written reads back equal',
"""A pattern written to a Valentina .val file, in Valentina's own element and attribute names, and read back has the same unit, scopes, and the same steps in the same order with the same kind, id, name, references, formulas,
label offsets, line styles and colours, and it evaluates to the same points. Its measurements are the file that it designates from its own directory, whatever the working directory, and elements which are not supported, in its steps or in its details, are left out without losing the others.
Reading and writing again produces the same calculation elements, and several pattern files can be read in one process, in any order and repeatedly, each independent of the others.""",
['programs', 'histories'],
"every pattern of the step alphabet up to the length bound through write and read, and every order of reading several files in one process",
"No test writes or reads a .val file; a round trip is a statement over all patterns.",
['Patro/FileFormat/Valentina/Pattern.py', 'Patro/FileFormat/Valentina/VitFormat.py', 'Patro/Common/Xml/Objectivity.py'],
[('XML binding of each step kind', 'FileFormat/Valentina/VitFormat.py'), ('reader and writer', 'ValFileReader, ValFileWriter')],
['the re-read Pattern and the XML file'])

prop('C06', 'A Valentina measurement file loads into exactly the measurements it declares',
"""Loading a .vit measurement file yields the unit, pattern-making system, personal data and exactly the body measurements it declares, each with its name (custom @ names included), formula,
full name and description, optional fields absent or empty included, whatever the element order and comments between measurements; each value is the formula evaluated over the file's own measurements.""",
['inputs', 'configurations'],
"every file of the bounded grammar: presence or absence of each optional part, units, genders, measurement lists up to the bound",
"No test reads a .vit file; the guarantee is over all combinations of optional parts.",
['Patro/FileFormat/Valentina/Measurement.py', 'Patro/Measurement/ValentinaMeasurement.py', 'Patro/Measurement/PersonalData.py', 'Patro/Common/Xml/XmlFile.py'],
[('reader', 'VitFileInternal.read'), ('XML binding', 'XmlMeasurement')],
['VitFile(path).measurements'])

prop('C07', 'Counters, object ids and singletons are safe under every thread interleaving',
"""When several threads increment or set a shared counter, every increment returns a value no other call returned and the calls agree with some sequential order consistent with their overlap;
objects created concurrently with automatic ids get pairwise distinct ids.
A singleton class yields one single instance, initialised once, however many threads ask for it first, and no interleaving deadlocks.""",
['schedules'],
"every interleaving of two and three threads, at bytecode granularity, up to the preemption bound",
"Unit tests run one schedule; a lost update or duplicated id shows only in rare interleavings.",
['Patro/Common/AtomicCounter.py', 'Patro/Common/Object.py', 'Patro/Common/Singleton.py'],
[('lock around the counter', 'AtomicCounter._lock'), ('lock around instantiation', 'SingletonMetaClass')],
['return values of increment/set/constructor calls'],
state=[('counter value', 'last attributed value', 'AtomicCounter._value')])

prop('C08', 'The dependency graph stays consistent under every history of edits',
"""After any sequence of node insertions and connections, ancestors and descendants mirror each other, roots and leaves are exactly the nodes
without ancestor and without descendant, lookups find exactly the inserted nodes and a duplicate identifier is refused without changing the graph.
Topological order lists every node once with all its ancestors first whenever the graph is acyclic and reports an error exactly when there is a cycle; breadth-first traversal
visits every node reachable from its start exactly once, in non-decreasing distance.""",
['histories'],
"every graph over up to four nodes reached by every sequence of edits up to the bound",
"No unit test touches the graph; the guarantee is over all edit histories, including duplicate edges, self loops and cycles.",
['Patro/Common/Graph/DirectedAcyclicGraph.py'],
[('mirrored ancestor/descendant sets', 'DirectedAcyclicGraph/Node.connect_ancestor')],
['nodes, roots, leafs, ancestors, descendants, topological_sort, bfs'])

prop('C09', 'XML binding: an object written to XML reads back with the same attributes',
"""An object bound to an XML element keeps every declared attribute value (booleans, integers, floats, lists of floats, strings, text content) through conversion to XML and back,
absent attributes take their declared default, attributes inherited from several mixins are all bound, and undeclared XML attributes are never read or written.
Setting one attribute of one object never affects another object or another class, and lists of numbers are read whatever mix of spaces and commas separates them.""",
['inputs', 'programs', 'histories'],
"every assignment of attribute presence and value over the alphabet for a family of bound classes, through every order of set, write and read",
"The single test binds one class with one document.",
['Patro/Common/Xml/Objectivity.py'],
[('attribute descriptors collected by the metaclass', 'XmlObjectAdaptatorMetaClass'), ('typed attributes', 'BoolAttribute, IntAttribute, FloatAttribute, FloatListAttribute, StringAttribute')],
['to_xml / constructor from element, to_dict, attribute values'])

prop('C10', 'Vector arithmetic obeys exact plane geometry',
"""For all plane vectors, addition, subtraction, scaling, dot and cross products, norms, middle point, normal, quarter turns, projections and deviations agree with exact coordinate arithmetic; orientation and signed angles between
vectors lie in (-180, 180] and agree with the true angle in every quadrant and on every axis, and rotating or building a vector from an angle is consistent with them.
In-place operators change only their left operand, all others leave their operands untouched, equality, near-equality, parallelism and orthogonality predicates agree with their definitions, and the null vector is falsy and has no direction.""",
['inputs', 'histories'],
"every vector, pair and triple of the coordinate grid (axes, diagonals, null, tiny and large), every operation, and every short chain of in-place operations",
"Tests check a few vectors; quadrants, axes, aliasing and chains need all combinations.",
['Patro/GeometryEngine/Vector.py'],
[('numpy backed coordinates', 'Vector2D, Vector2DBase, Vector2DFloatBase')],
['all public operations of Vector2D, Vector2DInt, HomogeneousVector2D'])

prop('C11', 'Transformations compose like matrices and know what they are',
"""For every pair or chain of plane transformations (identity, translation, rotation, scaling, parity, rotation about a point, shears and general ones, linear or affine), applying their product to a point equals
applying them one after the other, right operand first (a weighted homogeneous vector keeps its weight, so that a direction is not translated), and the identity and the declared inverse kinds behave as such.
The kind reported for a transformation, constructed or composed, always describes its matrix, and a length is transformed by the scale factor and refused when the frame is sheared, and neither application nor a product modifies its operands, an in-place product being applied after the transformation it changes.""",
['programs', 'inputs'],
"every chain of transformations of the alphabet up to the length bound applied to every point of the grid",
"The tests compose no transformation beyond a few; the guarantee is over all chains.",
['Patro/GeometryEngine/Transformation.py'],
[('matrix product and type deduction', 'Transformation.__mul__, _mul_type, _check_type')],
['array, type, application to vectors'])

prop('C12', 'Line and segment predicates agree with exact geometry',
"""For every pair of lines or segments, parallelism, orthogonality, intersection points, whether two segments meet, on which side a point lies, whether a point is on the segment, the projection and the distance of a point, abscissae,
parallel and orthogonal lines and points at a distance agree with exact rational geometry, including collinear, touching, overlapping, reversed and degenerate positions.
The answers do not change when an argument pair is swapped, a segment is reversed, a line is described by another point or a direction vector of another length.""",
['inputs'],
"every pair of segments and lines with end points on the grid, every query point",
"The tests have a handful of positions; the degenerate ones (touching, collinear, reversed) are not covered.",
['Patro/GeometryEngine/Line.py', 'Patro/GeometryEngine/Segment.py'],
[('orientation tests', 'Segment.triangle_orientation, intersect_with'), ('cross product solution', 'Line2D.intersection_abscissae')],
['all public queries of Line2D and Segment2D'])

prop('C13', 'Triangles, rectangles and polylines measure right',
"""Area, perimeter, edge lengths, angles and the equilateral, isosceles, scalene, acute, obtuse and oblique predicates of a triangle, the corners, centre, diagonal, lengths and area of a rectangle however constructed,
and the length, edges and distance to a point of a polyline agree with exact geometry for every placement and vertex order, and conversion to a path preserves the outline.""",
['inputs'],
"every triple of grid points, every rectangle construction, every polyline up to four grid points",
"The tests check one triangle, one rectangle and one polyline.",
['Patro/GeometryEngine/Triangle.py', 'Patro/GeometryEngine/Rectangle.py', 'Patro/GeometryEngine/Polyline.py', 'Patro/GeometryEngine/Primitive.py'],
[('cached edge lengths and angles', 'Triangle2D._cache_length, _cache_angle')],
['public measures of Triangle2D, Rectangle2D, Polyline2D'])

prop('C14', 'Polygon measures and predicates agree with exact geometry',
"""For every simple polygon, area, orientation, barycentre, perimeter, convexity and the containment of a point that is off the boundary agree with exact rational geometry, whatever the starting vertex, the direction of
traversal and the translation; a polygon is reported simple exactly when no two of its edges meet other than consecutive edges at their common vertex.
Principal axes are those of the vertices about the origin, invariant under these renumberings, and regular polygons have the stated circumradius, side and area.""",
['inputs'],
"every polygon with three to five vertices on the grid and every half-grid query point, under every rotation and reversal of its vertices",
"Tests use two or three polygons; predicates fail on touching, collinear, clockwise or renumbered shapes.",
['Patro/GeometryEngine/Polygon.py'],
[('shoelace sums', 'Polygon2D._compute_area_barycenter'), ('edge intersection test', 'Polygon2D.is_simple'), ('winding and crossing number tests', 'Polygon2D.is_point_inside')],
['area, barycenter, is_clockwise, is_convex, is_simple, is_point_inside, perimeter'])

prop('C15', 'The convex hull is the smallest convex polygon around the points',
"""For every finite set of points, the hull's vertices are input points, form a strictly convex counter-clockwise polygon and enclose every input point, independent of input order, duplicates, collinear runs and translation,
and the input points are not modified.""",
['inputs'],
"every multiset of up to five grid points in every order, and every subset of a 3x3 grid",
"The test runs one point set.",
['Patro/GeometryEngine/Polygon.py', 'Patro/GeometryEngine/Primitive.py'],
[('Graham scan', 'get_convex_hull, sort_point_for_graham_scan')],
['get_convex_hull'])

prop('C16', 'A geometry object never answers from a superseded state',
"""After any history of queries, in-place transformations, recentring and cloning, every measure or predicate of a geometric object (vector, line, segment, triangle, rectangle, polyline, polygon, Bézier curve, B-spline, circle or ellipse arc, path) equals that
of an object freshly built from its current points, and querying never changes the object.
A clone equals its source, and changing either one never changes the other, nor does changing a line derived from an object change that object; applying a transformation without modifying the object leaves it unchanged.""",
['histories'],
"every sequence of queries, transformations, recentrings and clonings up to the depth bound on every primitive kind",
"Unit tests query freshly built objects; stale caches need query, change, query histories.",
['Patro/GeometryEngine/Primitive.py', 'Patro/GeometryEngine/Polygon.py', 'Patro/GeometryEngine/Polyline.py', 'Patro/GeometryEngine/Path.py', 'Patro/GeometryEngine/Bezier.py', 'Patro/GeometryEngine/Triangle.py'],
[('cached derived values', 'Polygon2D._area, _edges, _is_simple...; Path2D part caches'), ('in-place update', 'Primitive2DMixin._set_points, transform, recenter')],
['every public query, before and after'],
state=[('derived caches', 'values computed at first query', 'Polygon2D, Polyline2D, Triangle2D, PathSegment')])

prop('C17', 'Bézier curves: split, convert, measure and intersect exactly',
"""For every quadratic and cubic curve, including straight, folded and closed ones, points, tangents and the length up to a parameter, by formula or by interpolation, match the curve's polynomial, splitting or trimming at any parameter traces the same curve, converting quadratic to cubic traces the same
curve, the parameter at a given arc length inverts the length, the signed area is that between the curve and its chord, and the point of the curve closest to a point is found.
Intersections with a line are exactly the parameters where the curve meets it, and the bounding box and the fat line contain the curve.""",
['inputs'],
"every control polygon on the grid, every parameter and line of the alphabets",
"Tests evaluate one curve of each kind; degenerate control polygons and lines are not covered.",
['Patro/GeometryEngine/Bezier.py', 'Patro/Common/Math/Root.py'],
[('Bernstein evaluation and de Casteljau', 'QuadraticBezier2D, CubicBezier2D')],
['point_at_t, tangent_at, split_at_t, length, length_at_t, t_at_length, intersect_line, to_cubic, area'])

prop('C18', 'B-spline evaluation, knot insertion and Bézier conversion agree',
"""For every control polygon, degree and knot vector, the two evaluation methods of a spline give the same point, equal to the Cox-de Boor definition, at every parameter of the domain including its ends; inserting a knot leaves the curve
unchanged, and converting to Bézier curves (uniform knots) gives connected pieces tracing the same curve.""",
['inputs'],
"every clamped spline of degree 1 to 3 over the grid of control polygons and parameters",
"No unit test covers splines.",
['Patro/GeometryEngine/Spline.py'],
[("de Boor's algorithm and knot insertion", 'BSpline2D')],
['point_at_t, insert_knot, to_bezier'])

prop('C19', 'Circles, ellipses and arcs obey their equations',
"""For every circle and ellipse, whatever the radii and orientation, points, tangents, eccentricity, area, bounding box, containment, distance to a point, line, segment and circle intersections satisfy the defining equations: every reported intersection lies on both
curves and none is missed.
An SVG elliptical arc given by its end points, radii and flags passes through both ends with the requested sweep and size, radii being scaled up when too small, and the Bézier approximation of an arc follows the arc's angular domain.
Applying a similarity to a circle, an ellipse or an arc gives the curve through the transformed points, and a shear is refused.""",
['inputs'],
"every conic, point, line and flag combination of the alphabets, degenerate and tangent positions included",
"The tests check one circle and one ellipse.",
['Patro/GeometryEngine/Conic.py', 'Patro/GeometryEngine/Mixin.py'],
[('implicit and parametric equations', 'Circle2D, Ellipse2D'), ('endpoint to centre conversion', 'Ellipse2D.svg_arc')],
['point_at_angle, intersect_segment, intersect_circle, is_point_inside, distance_to_point, bounding_box, svg_arc, to_bezier, apply_transformation'])

prop('C20', 'A path is connected and goes where its commands say',
"""For every sequence of path commands (line, horizontal, vertical, compass-direction, quadratic, cubic, smooth and arc commands, absolute or relative, with or without rounded corners, open or closed), each part starts where the previous one ends and stops where the
command says, and a closed path returns to its start.
A rounded corner is an arc of the requested radius, tangent to both neighbouring segments at its ends; cloning and transforming a path gives the path of the same commands with transformed points, and an arrow head has its tip, size and direction.""",
['programs'],
"every command sequence up to the length bound over the point and radius alphabets",
"One test walks one path.",
['Patro/GeometryEngine/Path.py', 'Patro/GeometryEngine/Shape/ArrowHead.py'],
[('linked path parts', 'Path2D._add_part, PathPart.prev_part/next_part'), ('bulge computation', 'LinearSegment bulge properties')],
['start_point, stop_point, points, geometry of every part'])

prop('C21', 'SVG path and transform attributes are read as the SVG grammar says',
"""The d attribute of an SVG path, in any spacing and compact form, with every command absolute or relative and with repeated arguments, produces exactly the outline the SVG specification defines for its first sub-path, and a transform
attribute, any list of matrix, translate, scale, rotate and skew functions with any optional arguments, produces the specified matrix.
Writing the attribute back and reading it again gives the same outline or matrix, lengths are read with their unit, and a malformed attribute is reported rather than misread.""",
['inputs', 'programs'],
"every command sequence up to the length bound over the argument alphabet, in every formatting variant",
"The SVG test is not runnable; the grammar has far more forms than a test can list.",
['Patro/FileFormat/Svg/SvgFormat.py'],
[('attribute parsers', 'PathDataAttribute.from_xml/to_xml, TransformAttribute.from_xml/to_xml')],
['parsed path geometry and transformation matrix'])

prop('C22', 'Reading an SVG document applies exactly the enclosing groups',
"""Reading an SVG document delivers every supported element once, in document order, with the transformation and style accumulated from the groups that enclose it and from no other group, whatever the nesting, siblings and position of groups,
a style being given by attributes, a style declaration or the keyword inherit; other elements, elements of other vocabularies, comments and metadata do not disturb it, and the view box is read.
A document written from elements reads back the same geometry and attributes.""",
['inputs', 'programs'],
"every document tree of groups and shapes up to the node bound with every transform and style assignment of the alphabet",
"The only SVG test does not run; leaks between sibling groups need tree shapes tests do not have.",
['Patro/FileFormat/Svg/SvgFile.py', 'Patro/FileFormat/Svg/SvgFormat.py', 'Patro/GraphicEngine/Painter/SvgPainter.py'],
[('render state stack', 'RenderState, SvgDispatcher')],
['callbacks and geometry delivered by SvgFileInternal; the written SVG document'])

prop('C23', 'The graphic scene mirrors exactly the items added and not removed',
"""After any history of adding, removing, querying and changing items, the scene lists exactly the live items, in z-order then insertion order where order is promised, finds items by user data and position, resolves named coordinates, and, its index being up to date, a region or proximity query returns exactly
the items which meet it.
Each item's geometry and bounding box match its definition under the scene's translation or rotation, and the detail scene of a sketch shows its points, labels, lines and splines where they were evaluated.""",
['histories'],
"every history of scene operations up to the depth bound over all item kinds",
"No scene test exists; index consistency is over all add, remove and query histories.",
['Patro/GraphicEngine/GraphicScene/Scene.py', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py', 'Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py'],
[('spatial index', 'GraphicSceneScope.update_rtree/add_item/remove_item')],
['items, z_value_iter, selected_items, item_in, item_at, bounding_box'])

prop('C24', 'Output: paper, units and tiles cover the drawing exactly',
"""Length conversions between units are mutually consistent and exact to rounding, and paper sizes match the ISO series within a millimetre in both orientations.
Tiling a drawing on sheets covers every point of its bounding box, one drawing unit being one centimetre, keeps every sheet's drawn area within the margins, uses the least number of rows and columns, lays neighbouring sheets edge to edge, and does not alter the drawing.""",
['inputs', 'configurations'],
"every unit pair and value, every paper, margin and bounding box of the alphabets",
"No test covers tiling, paper or unit conversion.",
['Patro/GraphicEngine/Painter/Painter.py', 'Patro/GraphicEngine/Painter/Paper.py', 'Patro/GraphicEngine/GraphicScene/TypographyUnit.py'],
[('tile grid', 'Tiler'), ('conversion factors', 'TypographyUnit')],
['Tiler iteration, paper sizes, unit conversions'])

prop('C25', 'Every painter draws each visible scene item once, at its place, in its style',
"""Painting a scene calls the painter once for every item, in drawing order, and the produced SVG, PDF, DXF, TikZ or Matplotlib output contains for each text, dot, segment and cubic curve the primitive with its position, size, text and, where the format carries one, colour, width and dash; invisible lines are not drawn and named positions are resolved as the scene resolves them.
Exporting a pattern draws its points, labels, lines and splines at their evaluated positions, and painting does not change the scene.""",
['programs', 'inputs'],
"every scene of up to the bound of items of every kind and style through every painter",
"No painter test runs.",
['Patro/GraphicEngine/Painter/Painter.py', 'Patro/GraphicEngine/Painter/SvgPainter.py', 'Patro/GraphicEngine/Painter/PdfPainter.py', 'Patro/GraphicEngine/Painter/DxfPainter.py', 'Patro/GraphicEngine/Painter/TexPainter.py', 'Patro/GraphicEngine/Painter/MplPainter.py', 'Patro/Pattern/Sketch.py'],
[('dispatch by item class', 'Painter.paint')],
['the generated documents'])

prop('C26', 'Colours and styles convert without loss and never leak between objects',
"""Any 8-bit colour given by hexadecimal string, integer, floating or hue components reads back to the same components in every representation, equality agrees with them, invalid texts and components are refused, and named colours resolve to their table value, the first table holding a name winning.
A graphic style keeps every field it is given, a clone equals its source in every field, and setting a field of a style or a clone never affects another one.""",
['inputs', 'histories'],
"all 256 values of each component, every named colour, every single and paired style field change",
"No test covers colours or styles.",
['Patro/GraphicStyle/Color/ColorDataBase.py', 'Patro/GraphicStyle/Color/__init__.py', 'Patro/GraphicEngine/GraphicScene/GraphicStyle.py', 'Patro/GraphicStyle/__init__.py'],
[('component conversion', 'Color._to_int, _to_float'), ('clone by field list', 'GraphicPathStyle._dict_keys, clone')],
['Color properties, ColorDataBase lookup, GraphicPathStyle fields'])

prop('C27', 'DXF entities are imported where they are, bulged polylines as the right arcs',
"""Every DXF polyline, open or closed, with any sequence of straight and bulged edges, is imported as the edges joining its vertices in order, closed exactly when declared closed, in which each bulged edge is the arc whose sagitta-to-half-chord ratio and side are given by its bulge.
Lines, circles, arcs, ellipses and clamped splines are imported in file order, once each, as the same curves with the same ends, and other entities are skipped.""",
['inputs'],
"every polyline of up to four grid vertices with every bulge assignment, open and closed",
"No test reads a DXF file.",
['Patro/FileFormat/Dxf/Polyline.py', 'Patro/FileFormat/Dxf/Importer.py'],
[('bulge geometry', 'DxfPolyline segments')],
['geometry, iteration and path of the imported polyline'])

prop('C28', 'Sequence and numeric helpers match their definitions',
"""Pairwise, closed and sliding-window iterators yield exactly the windows of their definition for every length, including empty and short ones, and any iterable.
Polynomial root finders return all real roots and only real roots, the sign of non-zero numbers, trigonometric helpers, interpolation, middle and angle conversions match their definitions, and dates given as text or date objects are normalised to the same value.""",
['inputs'],
"every sequence up to length seven with every window size, every polynomial with roots on the grid",
"No test covers the helpers although every geometry algorithm relies on them.",
['Patro/Common/IterTools.py', 'Patro/Common/Math/Functions.py', 'Patro/Common/Math/Root.py', 'Patro/Common/Datetime.py', 'Patro/GeometryEngine/Interpolation.py'],
[('generators', 'Common/IterTools.py'), ('closed-form roots', 'Common/Math/Root.py')],
['return values'])

prop('C29', 'The viewer shows the scene point under the cursor; Qt paints every item',
"""After any history of resizing, setting the scene, fitting, zooming, panning and picking, the view's mappings between scene and screen are inverse of each other and mutually consistent, fitting shows the whole scene, zooming at a position centres
the view on the scene point there, panning moves the view by the drag, and picking selects the item under the cursor.
The Qt painter draws every item of the scene once at the mapped place with the pen, brush and text of its style (its selection colour when selected), curve control points when asked, and grid lines at the multiples of the grid step over the whole view. Its SVG export shows the bounding box of the scene at the scale asked, with every item at its place (y upwards in the scene).""",
['histories', 'inputs'],
"every history of view operations up to the depth bound; every kind of item x style x selection x view",
"No test opens a viewer; drift and stale state need histories of operations.",
['Patro/GraphicEngine/Painter/QtPainter.py', 'Patro/GraphicEngine/GraphicScene/Scene.py', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py'],
[('viewport area', 'ViewportArea'), ('item painters', 'QtPainter.paint_*')],
['viewport mappings after each operation; the calls received by a recording QPainter'])

prop('C30', 'Yarn units are consistent and textile data keep what they are given',
"""The weight of a yarn in tex, denier and metric number describe the same yarn, and converting from one unit to another and back gives the same value.
The fibre database holds every fibre of its file once, in order, with its type and source; the first of two entries with one name stays, and fabrics, needles, seams and yarns keep the values they are given, a missing mandatory one being refused.""",
['inputs', 'histories'],
"every yarn weight of the alphabet, every small fibre file, every history of additions, every field of a fabric",
"No test covers the textile data.",
['Patro/TextileTechnology/Yarn.py', 'Patro/TextileTechnology/Fiber.py', 'Patro/TextileTechnology/Database.py', 'Patro/TextileTechnology/Fabric.py', 'Patro/TextileTechnology/Needle.py', 'Patro/TextileTechnology/Seam.py'],
[('unit conversions', 'tex2den, den2tex, tex2nm, nm2tex'), ('loading', 'FiberDatabase.load')],
['Yarn and Fiber properties, Database look-up'])

prop('C31', 'The application runs the user script, shows its scene and obeys its window',
"""Started with a user script, however it is named on the command line (relative or absolute, any folder, with or without arguments for the script), the application executes it exactly once, when the window exists, in a context of its own where `application` is the one running application; the scene it gives is the one the window shows, with one change notification for each actual change, and the application keeps running. A script in a declared encoding is read in it. A script which is missing, not readable, ill-formed or which raises ends the application with status 1 and prints its error; one which exits ends it with its own status. A second application in the process is refused, wrong options end with a usage, and the exit status is the one of the event loop.
After any history of arrow keys, tool bar buttons, wheel turns, clicks, drags, moves, resizing and change of scene, the window shows the view these actions give (keys pan by ten pixels, buttons fit or zoom by ten percent, the wheel doubles or halves the zoom and centres the view on the point under the cursor, the middle button drags, the left button selects) and the scene position of the cursor.
The platform description has the cores, the processor, its frequency and the memory the kernel reports, and the screens; the logger has the name and the level asked, from any folder. What Qt and the QML code say is told once, in order, at its level, with its file and function; a critical message is printed whatever the level of the log.""",
['histories', 'inputs'],
"every kind of user script x way to name it; every history of actions in the window up to the depth bound; every kernel document of the alphabet; every level",
"No test starts the application.",
['Patro/QtApplication/QmlApplication.py', 'Patro/QtApplication/qml/main.qml', 'Patro/Common/Platform.py', 'Patro/Common/ArgparseAction.py', 'Patro/Common/Logging/Logging.py', 'bin/patro'],
[('user script', 'Application.execute_user_script'), ('window', 'main.qml'), ('platform', 'Platform._get_*'), ('logging', 'setup_logging')],
['lines written by the script, exit status and output of the process; zoom, mapping, selection and position label of the window; attributes of Platform'])

def main():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            fh.write(json.dumps(p, ensure_ascii=False) + '\n')

if __name__ == '__main__':
    main()
