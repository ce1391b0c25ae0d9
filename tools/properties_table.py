P('P01', 'Plane vectors obey Euclidean vector algebra and the documented conventions',
  """Plane vectors obey Euclidean algebra: sums, scalings, dot and cross products, norms and projections satisfy
  their defining identities, and every rotation, quarter turn or mirror agrees with the counter-clockwise,
  degree-based convention of the documentation. Orientations and angles between vectors lie in a half-open or closed
  half-turn range and rebuild the vector (or the rotation) they measure. Operators that return a new vector leave their
  operands unchanged, and in-place operators change only their left operand.""",
  ['inputs', 'histories'], 'all finite vectors, scalars and angles (null vectors only where the operation is defined), and all sequences of in-place and copying operations',
  'The unit tests evaluate about twenty fixed vectors; conventions must hold in every quadrant, on the axes and for every angle.',
  [GE + 'Vector.py'], [('vector operators and trigonometric properties', GE + 'Vector.py')])

P('P02', 'Plane transformations act as, and compose like, the maps they denote',
  """Applying a plane transformation to a point gives the image under the map it was built for (identity, rotation,
  rotation about a centre, scaling, reflection, translation, screen flip). The product of two transformations applied to
  a point equals applying the right one and then the left one, and the in-place product makes the transformation
  additionally apply the right operand afterwards. Any classification attached to a transformation agrees with its
  matrix, so that scaling a length by it gives the length of the image of a vector of that length when it is a similarity.
  Homogeneous coordinates keep their weight: points are mapped as points and directions, which have a null weight, by the linear part.""",
  ['inputs', 'histories'], 'all angles, factors, vectors and centres, and all finite products and in-place products of transformations',
  'One unit test multiplies a handful of matrices; composition is an algebra over all sequences of transformations.',
  [GE + 'Transformation.py'], [('matrix product and type propagation', GE + 'Transformation.py')])

P('P03', 'Geometric primitives transform pointwise, clone independently, stay coherent',
  """Transforming, mirroring, rotating or scaling a geometric primitive moves each of its points by that map and nothing
  else. Asking for a transformed or reversed copy, or cloning, yields an independent object of the same kind, and the
  original is unchanged. After any sequence of such operations, every quantity the primitive reports (edges, lengths,
  area, orientation, barycentre, box) equals the one of a fresh primitive built from its current points. A regular polygon has at
  least three vertices, evenly spaced on its circumcircle; its centre, radius and angle follow similarities, and it refuses shears.""",
  ['inputs', 'histories'], 'all segments, rectangles, triangles, polylines, polygons and Bézier curves, and all sequences of transforms, copies and queries',
  'Tests build primitives once and query them once; stale caches and aliasing only appear along histories.',
  [GE + 'Primitive.py', GE + 'Polygon.py', GE + 'Polyline.py'],
  [('point-based primitive mixins', GE + 'Primitive.py'), ('cached edges, area and orientation', GE + 'Polygon.py')])

P('P04', 'Bounding boxes enclose the geometry and are tight',
  """The bounding box of a primitive contains every point of that primitive. For straight primitives (points, segments,
  triangles, rectangles, polylines, polygons), circles, circular arcs and ellipses, each of its four sides is moreover
  touched by the primitive, and for Bézier curves it is contained in the box of the control points. The bounding box of a path contains the
  geometry of all its parts.""",
  ['inputs'], 'all primitives, arcs with any angular domain, rotated ellipses and paths',
  'Only two boxes of axis-aligned shapes are asserted by tests.',
  [GE + 'Primitive.py', GE + 'Conic.py', GE + 'Path.py', GE + 'Vector.py'],
  [('bounding_box of primitives', GE + 'Primitive.py'), ('bounding_box of conics', GE + 'Conic.py')])

P('P05', 'Line queries: intersections, projections, parallels and distances are right',
  """Two non-parallel lines intersect at the unique point that lies on both, at the reported abscissae, and parallel lines
  report no intersection. The projection of a point lies on the line with the residual orthogonal to it, the abscissa of
  the projection and the signed distance decompose the offset of the point, and parallel, shifted and orthogonal lines have
  the direction and passing point or offset requested. Ordinates and abscissae computed from one coordinate designate
  points of the line.""",
  ['inputs'], 'all lines with a non-null direction of any magnitude, and all points',
  'Tests use a few lines along the axes, where direction magnitude and sign conventions cannot be distinguished.',
  [GE + 'Line.py'], [('line predicates and projections', GE + 'Line.py')])

P('P06', 'Segment predicates and distances agree with exact plane geometry',
  """Two segments are reported as intersecting exactly when they share a point, including contact at end points and
  overlap of collinear segments, symmetrically in the two segments and in the order of their ends. The side of a point, collinearity, and containment of a point agree with exact arithmetic, and the distance from a
  point to a segment is the distance to its nearest point. The intersection point of the supporting lines lies on both, and is
  flagged as interior exactly when it belongs to both segments.""",
  ['inputs'], 'all pairs of segments and all points, with emphasis on degenerate lattice configurations',
  'Tests sample a few general-position pairs; degenerate contacts are the whole difficulty.',
  [GE + 'Segment.py', GE + 'Triangle.py'],
  [('orientation based intersection test', GE + 'Segment.py'), ('triangle_orientation', GE + 'Triangle.py')])

P('P07', 'Polygon measures agree with exact reference computations',
  """For every simple polygon, perimeter, area, barycentre and orientation equal those of the region it bounds, and do not depend
  on the starting vertex; reversing the vertices flips the orientation only. A polygon is reported as simple exactly when
  no two non-adjacent edges touch, and as convex exactly when all its turns have the same direction. The axes of inertia are those of
  the second moments of its vertices about the origin. Triangle and rectangle measures agree with the same polygon, and the classification of a triangle agrees with its side lengths.""",
  ['inputs'], 'all simple polygons (star-shaped, comb-shaped, convex), self-intersecting polygons for the simplicity test, triangles and rectangles',
  'The tests contain four fixed polygons.',
  [GE + 'Polygon.py', GE + 'Triangle.py', GE + 'Rectangle.py'],
  [('shoelace computation and edge intersection scan', GE + 'Polygon.py'), ('triangle measures', GE + 'Triangle.py')])

P('P08', 'Point-inside tests agree with an independent exact oracle',
  """A point that is not on the boundary of a simple polygon, triangle or rectangle is reported inside exactly when it
  belongs to the bounded region, whatever the orientation of the vertices and the starting vertex.""",
  ['inputs'], 'all simple polygons, triangles and rectangles, and all points off the boundary, including points level with vertices',
  'Tests do not cover polygons, and points aligned with vertices are where inclusion tests go wrong.',
  [GE + 'Polygon.py', GE + 'Triangle.py', GE + 'Rectangle.py'],
  [('winding and crossing number', GE + 'Polygon.py'), ('is_point_inside', GE + 'Triangle.py')])

P('P09', 'The convex hull is convex, encloses all points and uses only input points',
  """The convex hull of a set of points in the plane is a convex counter-clockwise polygon whose vertices are input points, and it contains every
  input point. It has the same area and extreme points as a reference hull, whatever the order of the input points, also with
  duplicated and collinear points. Three points turn counter-clockwise, clockwise or are collinear as the sign of their determinant says.""",
  ['inputs'], 'all finite sets of at least three points that are not all collinear, in every order, with duplicates and collinear triples',
  'One fixed cloud is tested; degenerate positions and ordering are unbounded.',
  [GE + 'Polygon.py'], [('Graham scan', GE + 'Polygon.py')])

P('P10', 'Polylines: length, edges, distance and simplification are faithful',
  """The length of a polyline is the sum of its edge lengths, and the distance from a point to it is the distance to the nearest point of
  its edges. Simplifying a polygon keeps a subsequence of its vertices and only removes vertices whose removal changes the outline
  by less than the threshold. Converting a polyline or a polygon to a path yields the same vertices.""",
  ['inputs'], 'all polylines and polygons, points and thresholds',
  'A single fixed example is asserted.',
  [GE + 'Polyline.py', GE + 'Polygon.py'], [('edge iteration', GE + 'Polyline.py'), ('simplify', GE + 'Polygon.py')])

P('P11', 'Circles and arcs: points, angles, intersections and distances are consistent',
  """Every point computed from an angle lies on the circle and reports that angle back; diameter, perimeter, eccentricity and the tangent
  direction follow from centre and radius. Intersections of a circle with a line or another circle lie on both, and all of them are reported. The distance of a
  point to a circle or to an arc is the distance to its nearest point, and an arc's extent, closure and membership follow its start and stop angles. A similarity maps a circle or an arc,
  ends included, onto its image (an arc stays counterclockwise), any other map raises ValueError and changes nothing; clones are independent, domain included.""",
  ['inputs'], 'all circles, arcs with any start and stop angle, lines and points',
  'Tests check one circle without any domain.',
  [GE + 'Conic.py', GE + 'Mixin.py'], [('Circle2D', GE + 'Conic.py'), ('AngularDomain', GE + 'Mixin.py')])

P('P12', 'Ellipses: frames, distances, arcs from end points and Bézier forms agree',
  """Points computed from an angle satisfy the equation of the rotated ellipse, and the change of frame round-trips. An elliptical arc given by
  its end points, radii, rotation and flags starts and ends at these points, has the requested sweep direction and extent, and
  radii that are too small are enlarged just enough. The distance of a point to the ellipse is the distance to its nearest point, and the approximating cubic
  curves follow the ellipse closely and join end to end. An affine map sends an ellipse or an arc, point by point from start to stop, onto its image, and similarities keep which radius is which.""",
  ['inputs'], 'all centres, radii, rotation angles, end points and flag combinations',
  'Tests check a single axis-aligned ellipse.',
  [GE + 'Conic.py'], [('Ellipse2D', GE + 'Conic.py'), ('end point parameterisation', GE + 'Conic.py')])

P('P13', 'Bézier curves: evaluation, splitting, elevation and tangents are exact',
  """A quadratic or cubic Bézier curve evaluates to the Bernstein combination of its control points, stays in their convex hull, and starts and ends at the
  first and last of them. Splitting it at a parameter, or extracting the part between two parameters, yields curves with the same geometry, and raising the degree or reversing
  it does not change the curve. Tangents are parallel to the derivative.""",
  ['inputs'], 'all control points, including repeated and collinear ones, and all parameters in the unit interval',
  'Tests evaluate one curve of each degree.',
  [GE + 'Bezier.py'], [('QuadraticBezier2D, CubicBezier2D', GE + 'Bezier.py')])

P('P14', 'Bézier measures: length, area, flatness, nearest point match quadrature',
  """The length of a Bézier curve, and the area between a cubic curve and its chord, agree with numerical quadrature of the curve, and are unchanged by rigid motions, and by
  reversal up to the sign of the area. A curve declared flat stays within the given tolerance of its chord. Intersections of a
  quadratic curve with a line lie on both, and the nearest point is not farther than any sampled point of the curve. The fat line
  encloses the curve and is not wider than its control points ask for; the graph of the distances to a line gives the distance of every point of the curve.""",
  ['inputs'], 'all control points including degenerate ones, tolerances and points',
  'Tests compare two lengths.',
  [GE + 'Bezier.py', 'Patro/Common/Math/Root.py'], [('length, area, is_flat_enough, closest_point', GE + 'Bezier.py')])

P('P15', 'B-splines: evaluation, knot insertion and Bézier conversion keep the curve',
  """A uniform or clamped B-spline evaluates to the combination of its control points with the Cox–de Boor basis functions, which are
  non-negative and sum to one on the domain. Inserting a knot and converting to Bézier segments leave the curve unchanged
  everywhere, and the Bézier segments join end to end.""",
  ['inputs', 'histories'], 'all control polygons, degrees, knot values, and sequences of insertions',
  'A single fixed spline is exercised only by examples.',
  [GE + 'Spline.py'], [('knot insertion and de Boor evaluation', GE + 'Spline.py')])

P('P16', 'Path building: each drawing command ends where its definition says',
  """A path built from any sequence of absolute and relative moves, horizontal, vertical, diagonal, straight, quadratic, cubic and arc commands is
  the concatenation of the pieces defined by the commands: each part starts where the previous one stops and has the control points obtained by interpreting the command from that point. Closing a path
  adds a piece back to the start.""",
  ['histories', 'programs'], 'all sequences of path commands with arbitrary arguments',
  'Tests build a few paths and assert little about their geometry.',
  [GE + 'Path.py'], [('path parts and point resolution', GE + 'Path.py')])

P('P17', 'Transforming or cloning a path acts on its geometry and on nothing else',
  """The geometry of a transformed path is the image of the geometry of the path under the transformation, for absolute and relative
  commands alike. A clone has the same geometry and is independent of the original.""",
  ['histories', 'programs', 'inputs'], 'all paths and all rigid or affine transformations',
  'Tests never compare a transformed path with an independently computed image.',
  [GE + 'Path.py'], [('apply_transformation', GE + 'Path.py')])

P('P18', 'Path corner rounding is tangent to both sides and has the given radius',
  """A rounded corner between two straight parts of a path is a circular arc of the requested radius that joins both
  sides tangentially on the inner side of the corner, and the straight parts are shortened to its ends. This holds also for the corner at which a path is closed.""",
  ['inputs', 'programs'], 'all corner angles, orientations, side lengths and radii that fit',
  'A unit test samples eight directions and two radii without checking tangency.',
  [GE + 'Path.py'], [('bulge geometry', GE + 'Path.py')])

P('P19', 'Polynomial root finders return exactly the real roots',
  """For a polynomial of degree at most five with real coefficients, each returned value is a real root and every real root is returned. Degenerate leading coefficients
  reduce the degree.""",
  ['inputs'], 'all coefficients built from chosen real roots and irreducible quadratic factors, including zero leading coefficients and repeated roots',
  'There is no test of the root finders.',
  ['Patro/Common/Math/Root.py'], [('quadratic_root, cubic_root, fifth_root', 'Patro/Common/Math/Root.py')])

P('P20', 'Dependency graphs and sequence iterators enumerate exactly what they should',
  """A topological sort of an acyclic dependency graph lists every node once, each before its dependents, and a cycle is rejected;
  breadth-first traversal, roots and leafs agree with reachability and degrees, after any history of connections and disconnections. The sliding-window and closed
  iterators enumerate the windows of the sequence in order.""",
  ['histories', 'inputs'], 'all graphs built by add, connect and disconnect histories, and all sequences and window sizes',
  'No test covers graphs or iterators.',
  ['Patro/Common/Graph/DirectedAcyclicGraph.py', 'Patro/Common/IterTools.py'],
  [('DirectedAcyclicGraph', 'Patro/Common/Graph/DirectedAcyclicGraph.py'), ('iterators', 'Patro/Common/IterTools.py')])

P('P21', 'Mapping between XML elements and typed objects is a faithful round-trip',
  """For every class mapped declaratively to an XML element, reading an element gives each declared attribute its typed value or default, and writing the object then
  reading it again yields the same attribute values and text. Undeclared attributes are ignored, and subclasses
  inherit the declarations of their parents.""",
  ['inputs', 'programs'], 'all declared schemas with boolean, integer, float, float-list and string attributes and all values',
  'The unit test uses one class and one instance.',
  ['Patro/Common/Xml/Objectivity.py'], [('attribute converters', 'Patro/Common/Xml/Objectivity.py')])

P('P22', 'SVG path data and transform attributes denote what the SVG standard says',
  """Reading SVG path data gives the same absolute pieces as the grammar of the SVG standard: absolute and relative commands, implicit repetition, compact
  number and separator syntax, smooth curves and closing (one subpath). Data in error are rejected. Reading a transform attribute gives the map obtained by
  composing its functions as the standard defines, the last one being applied first. Writing a path or a transformation, without loss of digits, then reading it preserves its meaning.""",
  ['inputs', 'programs'], 'all path data and transform lists of the SVG grammar supported by the reader',
  'The SVG unit test does not pass on the base and asserts nothing about geometry.',
  ['Patro/FileFormat/Svg/SvgFormat.py'], [('PathDataAttribute, TransformAttribute', 'Patro/FileFormat/Svg/SvgFormat.py')])

P('P23', 'Reading an SVG document applies to each item exactly its ancestors’ state',
  """When an SVG document (a file, bytes or a text, in the encoding that it declares) is read, every circle, ellipse, line, path, polyline, polygon and rectangle of its tree of groups is delivered once, in document order, with its
  geometry, and with a render state made of the transformation obtained by composing those of its ancestor groups and its own, and of each property from the element itself or
  its nearest ancestor that sets it: the style beats the presentation attribute, 'inherit' is as if unset and 'none' is None, else the default applies. Presentation attributes are
  fill, stroke, stroke-width, -linecap, -linejoin, -miterlimit and -dasharray, and fonts and clip-path on groups; a style may set any property. Groups are delivered before their
  content. Leaving a group restores the state of its parent. The view box is read as intervals.""",
  ['inputs', 'programs'], 'all trees of groups and graphic elements with transforms and style attributes',
  'No test reads a document with nested groups.',
  ['Patro/FileFormat/Svg/SvgFile.py', 'Patro/FileFormat/Svg/SvgFormat.py'],
  [('render state stack', 'Patro/FileFormat/Svg/SvgFile.py')])

P('P24', 'SVG files written by the library read back as the same elements',
  """Writing SVG elements to a file and reading it back with a standard XML parser, or with the library itself, yields
  the same elements in the same order with the same attribute values (numbers without loss of digits, lengths with their unit, dashes, texts, paths with their rounded corners,
  transformations), under a group with the given transformation if any, and the page and its view box have the dimensions of the paper in mm. The outline of a rectangle follows its
  position, size and corner radii, with the defaults and the limits of the standard.""",
  ['inputs', 'programs'], 'all lists of elements with attributes of every supported type',
  'No test writes SVG.',
  ['Patro/FileFormat/Svg/SvgFile.py', 'Patro/FileFormat/Svg/SvgFormat.py'],
  [('SvgFileWriter', 'Patro/FileFormat/Svg/SvgFile.py')])

P('P25', 'Valentina measurement files are read with every value and formula intact',
  """Reading an individual measurement file yields every measurement of the file under its name, with the value obtained by evaluating its formula over
  the other measurements, and the personal data and the unit of the file. Custom measurements are known both by their name in the file and by a valid identifier.""",
  ['inputs', 'programs'], 'all well-formed measurement files, with chains of dependent formulas',
  'No test reads a measurement file; the module does not even import at the base.',
  ['Patro/FileFormat/Valentina/Measurement.py', 'Patro/Measurement/ValentinaMeasurement.py'],
  [('VitFile', 'Patro/FileFormat/Valentina/Measurement.py')])

P('P26', 'Valentina pattern files round-trip through reading and writing',
  """Reading a pattern file yields, in order, one operation per drawing element with the points, formulas, angles, colours and line styles of the file.
  Elements that are not supported are skipped. The measurement file is found relatively to the pattern. Writing a pattern and reading it again yields an equivalent pattern: same pieces, identifiers, names,
  dependencies, formulas, styles, colours and label positions.""",
  ['inputs', 'programs', 'histories'], 'all patterns built from the supported operations with any styles and formulas',
  'No test reads or writes a pattern; the modules do not import at the base.',
  ['Patro/FileFormat/Valentina/Pattern.py', 'Patro/FileFormat/Valentina/VitFormat.py'],
  [('ValFileReader, ValFileWriter', 'Patro/FileFormat/Valentina/Pattern.py'), ('dispatcher', 'Patro/FileFormat/Valentina/VitFormat.py')])

P('P27', 'Pattern expressions evaluate to their mathematical value',
  """An arithmetic expression over numbers, measurements, custom measurements, distances between points and angles between points evaluates to the value of the same expression over these
  quantities, whatever names are used and however often they occur. The dependencies recorded for an expression are exactly the points whose distances and angles it uses.""",
  ['programs', 'inputs'], 'all expressions of the supported grammar and all namings',
  'No test evaluates an expression.',
  ['Patro/Pattern/Calculator.py'], [('expression translation', 'Patro/Pattern/Calculator.py')])

P('P28', 'Measurement sets evaluate formulas exactly and round-trip through YAML',
  """Each measurement of a set evaluates to the value of its formula over the other measurements, independently of definition order where references are already defined, to full float precision. Saving a set to a
  file and loading it yields the same names, expressions, values and descriptions.""",
  ['inputs', 'programs'], 'all acyclic systems of measurement formulas',
  'No test evaluates measurements.',
  ['Patro/Measurement/Measurement.py'], [('MeasurementSet, Measurement', 'Patro/Measurement/Measurement.py')])

P('P29', 'Sketch operations construct the points and curves they define',
  """Evaluating a sketch places each point and curve where the geometric definition of its operation says, given its operands: absolute points, end of a line by angle and
  length, along a line, normal to a line, line intersections, axis intersections, contact of a line with a circle (when several contacts exist, one inside the segment if there is one), and spline by
  angles and lengths. Lengths and angles given as expressions use the current measurements and previous points. An operation depends exactly on the points of its operands and expressions.""",
  ['histories', 'programs', 'inputs'], 'all sequences of sketch operations over previously defined points with any formulas',
  'No test evaluates a sketch.',
  ['Patro/Pattern/Sketch.py', 'Patro/Pattern/SketchOperation.py'], [('operation evaluation', 'Patro/Pattern/SketchOperation.py')])

P('P30', 'A sketch can be re-created and re-evaluated from its own description',
  """The statements a sketch prints to re-create its operations, executed on an empty sketch with the same measurements, yield a sketch whose operations, evaluated points and graphics
  are the same. The graphic scene of a sketch shows each point at its place with its name, and each line and curve with its style. Re-evaluating a sketch gives the same result. Identifiers
  are unique within a pattern, automatic ones increase, and they do not depend on other patterns. The pieces of a pattern are listed in order of addition, found by index or by their current name (the first of
  that name), and removed one at a time.""",
  ['histories', 'programs'], 'all sketches built by histories of operations',
  'No test builds a sketch.',
  ['Patro/Pattern/SketchOperation.py', 'Patro/Pattern/Sketch.py', 'Patro/Common/Object.py'],
  [('to_python', 'Patro/Pattern/SketchOperation.py')])

P('P31', 'DXF import yields the geometry drawn in the file',
  """Importing a DXF drawing yields, in drawing order, one geometry per supported entity (lines, circles, arcs, ellipses, light-weight polylines with bulges, splines) covering the same points
  as the entity, as evaluated independently, in the direction and with the closure of the entity; unsupported entities, blocks and paper spaces are skipped. Entities are seen from above, elevations are ignored;
  entities with the extrusion (0, 0, -1) are mirrored. Knots of a spline are kept up to an affine transformation, a spline given by fit points passes by them. A light-weight polyline gives a list of segments and arcs.""",
  ['inputs', 'programs'], 'all drawings made of supported and unsupported entities',
  'No test imports DXF.',
  ['Patro/FileFormat/Dxf/Importer.py', 'Patro/FileFormat/Dxf/Polyline.py'],
  [('DxfImporter', 'Patro/FileFormat/Dxf/Importer.py'), ('bulge geometry', 'Patro/FileFormat/Dxf/Polyline.py')])

P('P32', 'The graphic scene keeps, orders, finds and removes exactly its items',
  """After any history of adding, removing, hiding, selecting and re-ordering items, a scene enumerates exactly the visible items by
  increasing depth and then insertion order, knows its items by user data, and its spatial queries return exactly the items whose box or
  distance (sorted by increasing distance) matches, closed bounds included, once the index of the boxes is updated and items that use a moved coordinate are marked dirty. User data are known by identity.
  Adding a geometric primitive (segment, polyline, polygon, triangle, rectangle, circle or ellipse with or without a domain, quadratic and cubic Bézier, B-spline, path) creates items whose geometry is that
  primitive with its positions transformed by the scene; radii and angles are not transformed. Positions given by the name of a coordinate are resolved at query time. A path gives one item for each of its
  parts and rounded corners (or one item for the whole path, whose arcs are then cubic curves), a Bézier path of degree 1 to 3 one item for each curve.""",
  ['histories', 'inputs'], 'all histories of scene operations and all primitives',
  'The module does not parse at the base, so nothing tests it.',
  ['Patro/GraphicEngine/GraphicScene/Scene.py', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py'],
  [('GraphicSceneScope', 'Patro/GraphicEngine/GraphicScene/Scene.py')])

P('P33', 'Exported drawings (TeX, DXF, PDF, SVG) contain every item at its place',
  """Exporting a scene made of texts, dots, segments and cubic curves writes every visible item exactly once and no hidden item, by increasing depth then in the order of insertion, with its
  points mapped by the transformation of the scene then by the fixed mapping of the output: TeX 8 mm for an unit in a figure and 10 mm in the tiles, rounded to a hundredth of unit; SVG 10 mm,
  downwards from the top left corner of the bounding box of the scene; DXF and Matplotlib the scene coordinates (10 mm for an unit in DXF); PDF 7 mm, upwards, with the lower left corner of the bounding box at
  1 cm from the one of the page. Texts keep their characters. Segments and curves keep their colour (TeX, SVG, DXF, Matplotlib), width (TeX, SVG, Matplotlib) and kind of dashes (TeX, SVG, DXF, Matplotlib); an
  item without pen is not drawn visibly. PDF drawings have no styles and dots are not in DXF drawings. Tiles of a TeX document contain the whole drawing clipped to the tile, and tell their row and column.
  A visible item of another kind is refused with NotImplementedError. An export does not change the scene.""",
  ['inputs', 'programs', 'configurations'], 'all scenes made of texts, dots, segments and cubic curves, with every style, transformation, paper and bounding box',
  'No test compares an exported drawing with the scene.',
  ['Patro/GraphicEngine/Painter/TexPainter.py', 'Patro/GraphicEngine/Painter/DxfPainter.py', 'Patro/GraphicEngine/Painter/PdfPainter.py', 'Patro/GraphicEngine/Painter/SvgPainter.py',
   'Patro/GraphicEngine/Painter/MplPainter.py', 'Patro/GraphicEngine/TeX'],
  [('painters', 'Patro/GraphicEngine/Painter')])

P('P34', 'Tiling a drawing on paper covers it completely and without overlap',
  """The pages produced to tile a drawing cover its whole bounding box including the requested margin, have pairwise disjoint interiors, all have the printable
  size of the paper (the paper less its margin and 2 mm on each side), and are numbered by row and column without gap. No page is superfluous.""",
  ['inputs', 'configurations'], 'all drawing sizes and positions, papers, orientations and margins',
  'No test covers tiling.',
  ['Patro/GraphicEngine/Painter/Painter.py', 'Patro/GraphicEngine/Painter/Paper.py'],
  [('Tiler', 'Patro/GraphicEngine/Painter/Painter.py')])

P('P35', 'Physical units, paper sizes and yarn counts convert consistently',
  """Conversions between millimetre, inch and point (and between yarn count systems) agree with their definitions, compose and round-trip. Paper
  sizes follow the ISO series: fixed aspect ratio, each format half the area of the previous one, portrait and
  landscape swapped, and invalid names or orientations are rejected.""",
  ['inputs', 'configurations'], 'all values and all paper names, orientations and margins',
  'No test covers units or papers.',
  ['Patro/GraphicEngine/GraphicScene/TypographyUnit.py', 'Patro/GraphicEngine/Painter/Paper.py', 'Patro/TextileTechnology/Yarn.py'],
  [('TypographyUnit', 'Patro/GraphicEngine/GraphicScene/TypographyUnit.py'), ('PaperSize', 'Patro/GraphicEngine/Painter/Paper.py')])

P('P36', 'Colours round-trip between notations and styles keep what they are given',
  """A colour read from its hexadecimal notation, component integers or floats has these components and prints back the same notation; colours built from hue
  systems match the standard conversion. The colour database finds registered colours by name, and graphic styles normalise colour arguments and keep their
  settings, also when cloned.""",
  ['inputs', 'histories'], 'all colours, notations, names and style settings',
  'No test covers colours or styles.',
  ['Patro/GraphicStyle/Color/ColorDataBase.py', 'Patro/GraphicEngine/GraphicScene/GraphicStyle.py'],
  [('Color, ColorDataBase', 'Patro/GraphicStyle/Color/ColorDataBase.py')])

P('P37', 'Counters and object identifiers are unique, also under concurrent use',
  """Identifiers handed out by the shared counter are pairwise distinct and increasing in each thread, a counter never goes back, and the value returned by an increment is the one that increment
  produced, for every interleaving of threads. A singleton is created once.""",
  ['schedules', 'histories'], 'all interleavings of increments and explicit settings by several threads, and all single-threaded histories',
  'No test uses threads.',
  ['Patro/Common/AtomicCounter.py', 'Patro/Common/Object.py', 'Patro/Common/Singleton.py'],
  [('lock-protected counter', 'Patro/Common/AtomicCounter.py')])

P('P38', 'Drawings of a Valentina pattern show each operation where its formulas put it',
  """Reading the measurement and pattern files of Valentina, evaluating the sketches and exporting their detail scenes to TeX (one figure or tiles), SVG, PDF or DXF draws for each piece, in the order of the
  operations: each point as a dot, with its name at its label position (the vertical label offset is downwards) and a line from the point to its label; the construction line of the points at an end, along a line or on a normal; each line; each
  spline; with the style and colour of the operation and the width of the kind of line. This also holds when the pattern was written and read again. Pieces are independent, names of points included. The
  bounding box of a scene encloses its points and curves.""",
  ['inputs', 'programs', 'configurations'], 'all measurements, patterns of several pieces, sketch styles, papers and output formats',
  'No test goes from the files to the drawings: the stages are related by coordinates, names and styles.',
  ['Patro/FileFormat/Valentina/Pattern.py', 'Patro/Pattern/Sketch.py', 'Patro/Pattern/Calculator.py', 'Patro/GraphicEngine/Painter'],
  [('Sketch.detail_scene', 'Patro/Pattern/Sketch.py'), ('ValFileReader', 'Patro/FileFormat/Valentina/Pattern.py')])

P('P39', 'The Qt viewer shows every item of the scene at its place in the viewport',
  """After any history of resizes, changes of scene, fits, zooms and pans, the viewport of the Qt item is given by a center and a scale: fitting centers the bounding box of the scene and shows it whole with a
  margin of 2 % along the tightest axis (a scene without size keeps the scale), zooming at a pixel makes it the center, zooming at the center and resizing keep the center, panning moves the center by
  pixels, upwards; setting another scene fits it, as soon as the viewport has a size. Positions, displayed with 3 decimals, are converted consistently in both directions. Painting draws a grid at the multiples of a power of
  ten (the largest one not above the smallest side, at least 10) and of its tenth, then every visible item once, by increasing depth then insertion, upwards, at its transformed position, with its stroke
  and fill colours and alphas, width, dashes, cap and join; selected items are red and four times wider; items without pen or color have no stroke; texts are black; images are upright; control points of Bézier curves are
  drawn on demand. The SVG export draws the same items with the requested scale, in the bounding box of the scene. A click selects the nearest item within 10 pixels and unselects the others. Rectangles are
  refused with NotImplementedError.""",
  ['histories', 'inputs', 'configurations'], 'all histories of the viewport, scenes made of items of every kind and style, transformations, sizes and scales',
  'No test imports the Qt painter.',
  ['Patro/GraphicEngine/Painter/QtPainter.py'],
  [('QtPainter, ViewportArea, QtQuickPaintedSceneItem', 'Patro/GraphicEngine/Painter/QtPainter.py')])

P('P40', 'Arrow heads are at the tip, along the direction, with the requested size',
  """An arrow head has its tip at the anchor point, its back at its length before the tip along the normalised direction (and the axial offset further for its outline), its side points at its width on the left and on
  the right of the back, and its outline goes exactly through the tip and these points. The sides of a curvy head are quadratic curves whose control point is the middle of the side moved outwards by the depth
  times the length of the side, so that both sides are mirror images. The angle is the full angle at the tip. Heads can have only one side and are refused with ValueError without side. The arguments are not changed.""",
  ['inputs', 'configurations'], 'all tips, directions, lengths, widths, offsets, depths and sides',
  'No test covers arrow heads.',
  ['Patro/GeometryEngine/Shape/ArrowHead.py'],
  [('TriangularHead, TriangularCurvyHead', 'Patro/GeometryEngine/Shape/ArrowHead.py')])

P('P41', 'Databases of fibres, stitches and standard measurements hold what files say',
  """Loading a data file adds exactly its items, in order, with their attributes: fibres by name, with their type, source type and source (None when unknown); defined stitches by number, also when several share a name,
  with their numbers of needles, threads and loops (None when unknown). An item whose key is already used does not replace the first one, and other keys raise KeyError. The shipped files of fibres, stitches and Valentina
  measurements load completely. A set of standard measurements refuses a duplicated name with NameError and is unchanged, enumerates, finds and dumps its measurements in order of addition, and sets are independent.
  Seams are named class, type, dash, rows; sewing machines accept any subset of their attributes; needles, fabrics and yarns keep what they are given.""",
  ['inputs', 'histories'], 'all data files of the layout of the shipped ones, and all histories of additions and lookups',
  'No test loads a database of the textile package.',
  ['Patro/TextileTechnology/Database.py', 'Patro/TextileTechnology/Fiber.py', 'Patro/TextileTechnology/StitchType.py', 'Patro/Measurement/StandardMeasurement.py', 'Patro/TextileTechnology/SewingMachine.py'],
  [('Database, FiberDatabase, StitchDatabase', 'Patro/TextileTechnology/Database.py'), ('StandardMeasurement', 'Patro/Measurement/StandardMeasurement.py')])
P('P42', 'Common helpers: file search, paths, dates, rounding, names, personal data',
  """Searching a file in one or several directories returns a regular file of exactly that name, in the first listed directory whose tree has it and not below a directory of the path that already has it, and raises
  NameError when none has it. The n-th parent of a path drops its n last components; absolute paths expand ~ and dots; path arguments of command lines become Path objects, alone, in lists, or None. Dates and date-times are kept,
  or read from ISO texts to the microsecond, and other texts raise ValueError. rint rounds to the nearest integer (ties to even), ceil_int up, cmp, sign, middle, clamping and comparison within a tolerance agree with
  rational arithmetic, limits included. Personal data return what they are given, converted to their type, keep the previous value when a date or gender is refused, and are independent of each other; names are texts or None.""",
  ['inputs', 'histories'], 'all directory trees, lists of directories, paths, dates, numbers and histories of settings',
  'No test searches a file, reads a date or uses personal data.',
  ['Patro/Common/Path.py', 'Patro/Common/Datetime.py', 'Patro/Common/Math/Functions.py', 'Patro/Common/Object.py', 'Patro/Common/ArgparseAction.py', 'Patro/Measurement/PersonalData.py'],
  [('find, parent_directory_of', 'Patro/Common/Path.py'), ('PersonalData', 'Patro/Measurement/PersonalData.py')])
P('P43', 'LaTeX buffers, environments and documents hold what is appended, in order',
  """The source of a buffer is the concatenation of what was appended since it was cleared: texts, numbers, elements of lists, and other buffers, by reference (their later changes show) or by copy (they do not). An environment
  is its content between its begin, with its options in brackets if any, and its end. A document is its class and options, its preamble, and its content in the document environment, with page breaks in place; it is written to its name
  with the extension .tex, given or not, and the PDF file has the same name. Documents and buffers are independent. A path style gives its width, its colour as RGB, and a dash pattern or no drawing.""",
  ['histories', 'inputs'], 'all histories of appends and clears over buffers that share parts, all names and styles',
  'The test of the painter writes one file and compares nothing.',
  ['Patro/GraphicEngine/TeX/Buffer.py', 'Patro/GraphicEngine/TeX/Environment.py', 'Patro/GraphicEngine/TeX/Document.py', 'Patro/GraphicEngine/TeX/Tikz.py'],
  [('Buffer', 'Patro/GraphicEngine/TeX/Buffer.py'), ('Document', 'Patro/GraphicEngine/TeX/Document.py')])
