#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Range sets hold exactly the right integers after any operation history",
  "A set of 64-bit integers built by any sequence of inserts and erases (including ranges that wrap past the largest integer, and first == last meaning everything), complements, unions, intersections, differences, symmetric differences, fills and clears - plain, in place, or applied to the object itself - holds exactly the integers ordinary set theory says it holds. It always enumerates them as a canonical list: sorted, disjoint, non-adjacent, non-empty ranges, so that two sets compare equal exactly when they hold the same integers, and it reports its own validity. Its range count, emptiness, fullness, cardinality (modulo 2^64), and the ranges of its complement agree with that list, and its iterators move, compare and dereference as random-access iterators over it.",
  ["histories", "inputs"], "every finite history of mutators and set operators over any number of set objects, and every 64-bit endpoint, including 0, 2^63 and 2^64-1",
  "tests run a few fixed sequences; the representation (bookended vector, offset bit, divide and conquer merge) has many boundary-dependent branches whose combination only a history exposes",
  ["include/lsst/sphgeom/RangeSet.h", "src/RangeSet.cc"],
  [("insert/_insert with leading/trailing bookend cases", "src/RangeSet.cc:111-126,_insert"), ("erase via complement-insert-complement", "src/RangeSet.cc:128"), ("_intersect divide and conquer merge", "src/RangeSet.cc:_intersect*"), ("symmetricDifference sweep", "src/RangeSet.cc:173")],
  [("_ranges", "sorted end points with zero bookends", "include/lsst/sphgeom/RangeSet.h"), ("_offset", "whether 0 is outside the set", "include/lsst/sphgeom/RangeSet.h")],
  ["public iterator over ranges and complement ranges", "size/empty/full/cardinality/isValid/operator=="])

p("P02", "Range-set queries answer exactly as set theory does",
  "For every set and every integer, range (wrapping, full or ordinary) or other set, the questions 'intersects', 'contains', 'is within' and 'is disjoint from' are answered exactly as for the corresponding mathematical sets. Queries never modify the sets they are asked about, and the four answers are mutually consistent.",
  ["inputs", "histories"], "every pair of sets reachable by some history, every integer and every (first, last) pair including first == last and first > last",
  "tests probe a few dozen pairs; the recursive search depends on the number of ranges and on the 0 / 2^64 bookends",
  ["include/lsst/sphgeom/RangeSet.h", "src/RangeSet.cc"],
  [("_intersectsOne/_intersects recursion", "src/RangeSet.cc"), ("wrap-around splitting in intersects/contains/isWithin", "src/RangeSet.cc:248-305")],
  observe=["return values of intersects/contains/isWithin/isDisjointFrom for integer, range and set arguments"])

p("P03", "Coarsening and scaling of range sets follow their definition",
  "Coarsening a set by n bits yields exactly the union of its ranges with each beginning rounded down and each end rounded up to a multiple of 2^n (so a superset that never has more ranges), for every n including 0 and n >= 64. Scaling by k yields exactly the ranges with both end points multiplied by k, cut off at 2^64, for every k including 0 and overflowing ones. Results are canonical, and the copying forms leave the original untouched.",
  ["inputs", "histories"], "every set, every n in 0..2^32-1, every 64-bit factor",
  "tests use a handful of sets and n; merging of ranges that meet after rounding, appearance of 0 or 2^64 and overflow are corner cases",
  ["include/lsst/sphgeom/RangeSet.h", "src/RangeSet.cc"],
  [("simplify", "src/RangeSet.cc:315"), ("scale", "src/RangeSet.cc:358")],
  observe=["ranges of simplified()/scaled()/simplify()/scale()"])

p("P04", "Every direction has one valid pixel index, and that pixel covers it",
  "For HTM, Q3C and modified-Q3C pixelizations at every supported level, every unit vector (including face edges, corners, poles and their neighbourhoods) is given an index inside the universe, and the region returned for that index contains the vector (for HTM, whose trixels have no margin, up to a few roundings of a coordinate). A point well inside the region of a pixel has exactly that pixel's index. Asking for the region of an index that is not valid (cube pixelizations: outside the universe; HTM: not an index of any supported level), or constructing an unsupported level, is refused with an exception.",
  ["inputs", "configurations"], "every unit vector, every level, every 64-bit index, all three pixelizations",
  "tests sample a few points per level; the mapping goes through per-face tables, curve look-up tables and wrap bits, an error in one table row affects only some faces or orientations",
  ["src/HtmPixelization.cc", "src/Q3cPixelization.cc", "src/Mq3cPixelization.cc", "src/Q3cPixelizationImpl.h"],
  [("HTM trixel descent", "src/HtmPixelization.cc:index"), ("face selection and face tables", "src/Q3cPixelizationImpl.h"), ("grid/atan remaps", "src/Q3cPixelizationImpl.h,src/Mq3cPixelization.cc")],
  observe=["index(v), pixel(i)->contains(v), universe(), exceptions"])

p("P05", "Pixel hierarchies nest and labels are faithful",
  "Dropping the last two bits of a direction's index at level L+1 gives its index at level L, and the region of every child pixel lies inside the region of its parent (up to rounding). Four children tile their parent, and the pixels of one level tile the sphere. The textual name and the level derived from an index identify the pixel uniquely and are defined for exactly the valid indexes.",
  ["inputs", "configurations"], "every index, every level 0..max, every unit vector, all three pixelizations",
  "tests check a few indexes; each Hilbert or trixel orientation state has its own rule",
  ["src/HtmPixelization.cc", "src/Q3cPixelization.cc", "src/Mq3cPixelization.cc", "include/lsst/sphgeom/curve.h"],
  [("child numbering", "src/HtmPixelization.cc, curve LUTs"), ("asString/level", "src/HtmPixelization.cc, src/Mq3cPixelization.cc, src/Q3cPixelization.cc")],
  observe=["index at consecutive levels, pixel(i) vertices, asString/toString, level()"])

p("P06", "Pixel envelopes never miss a pixel that meets the region",
  "The envelope of a region contains the index of every point of that region, for every pixelization, level, region type (box, circle, ellipse, convex polygon, and unions/intersections of them) and range cap; it is a subset of the universe. A non-zero cap on the number of ranges is always respected, and capping only ever adds pixels. Without a cap, pixels clearly apart from a circle or convex polygon are not listed. Computing it reads only live memory.",
  ["inputs", "configurations"], "every region of every type including empty, full, tiny and polar ones, every level, every maxRanges",
  "tests use a few regions; a missed pixel silently loses rows in a spatial query and shows only for particular region/pixel alignments and caps",
  ["src/PixelFinder.h", "src/HtmPixelization.cc", "src/Q3cPixelization.cc", "src/Mq3cPixelization.cc", "src/ConvexPolygonImpl.h"],
  [("tree traversal with relate pruning", "src/PixelFinder.h"), ("adaptive level lowering by simplify/scale", "src/PixelFinder.h")],
  observe=["envelope(region, maxRanges) compared with index(v) for points v of the region"])

p("P07", "Pixel interiors contain only pixels wholly inside the region",
  "Every pixel in the interior of a region lies entirely within the region, for every pixelization, level, region type (box, circle, ellipse, convex polygon, and unions/intersections of them) and range cap. The interior is a subset of the envelope and of the universe. A non-zero cap on the number of ranges is always respected, and capping only ever removes pixels. Without a cap, pixels clearly inside a circle or convex polygon are listed.",
  ["inputs", "configurations"], "every region of every type, every level, every maxRanges",
  "tests use a few regions; a wrongly included pixel returns rows outside the region without further filtering and shows only for particular alignments, types and caps",
  ["src/PixelFinder.h", "src/HtmPixelization.cc", "src/Q3cPixelization.cc", "src/Mq3cPixelization.cc"],
  [("InteriorOnly traversal", "src/PixelFinder.h"), ("containment test per pixel", "src/ConvexPolygonImpl.h")],
  observe=["interior(region, maxRanges) compared with sample points of the pixels it lists"])

p("P08", "Pixel neighbourhoods are complete, symmetric and duplicate-free",
  "For the cube-based pixelizations the neighbourhood of a pixel holds the pixel itself and exactly the pixels that share an edge or a corner with it, also across cube faces, edges and corners, each once. Neighbourhood is symmetric. Invalid indexes are refused.",
  ["inputs", "configurations"], "every pixel index at every level for Q3C and modified Q3C",
  "tests check a few indexes; wrapping across 12 cube edges and 8 corners with rotated face axes is a case analysis in which one wrong entry affects one edge",
  ["src/Mq3cPixelization.cc", "src/Q3cPixelization.cc"],
  [("wrapIndex face adjacency", "src/Mq3cPixelization.cc, src/Q3cPixelization.cc"), ("findNeighborhood", "src/Mq3cPixelization.cc, src/Q3cPixelization.cc")],
  observe=["neighborhood(i)"])

p("P09", "Space-filling-curve indexes are bijections that keep locality",
  "Morton and Hilbert encodings map grid cells one-to-one onto curve positions at every order, and the inverse functions undo them. Truncating a position by two bits gives the position of the enclosing cell one order lower, consecutive Hilbert positions are edge-adjacent cells, and converting Morton to Hilbert codes and back agrees with the direct mappings. The integer base-2 logarithm is exact for every 64-bit value.",
  ["inputs"], "all coordinates up to 32 bits and all orders up to 32, all 64-bit inputs to log2",
  "tests loop over small orders; table-driven state machines have distinct paths for each remainder of the order and each state",
  ["include/lsst/sphgeom/curve.h"],
  [("mortonIndex/Inverse bit spreading", "include/lsst/sphgeom/curve.h"), ("Hilbert LUT state machine", "include/lsst/sphgeom/curve.h"), ("log2", "include/lsst/sphgeom/curve.h")],
  observe=["return values of mortonIndex, mortonIndexInverse, hilbertIndex, hilbertIndexInverse, mortonToHilbert, hilbertToMorton, log2"])

p("P10", "Closed intervals and 3-D boxes form an exact lattice",
  "For closed intervals of numbers or angles and for 3-D boxes, all of contains, intersects, is-disjoint, is-within, relate, clip, expand, dilate, erode, equality, emptiness and size agree with the point sets they stand for: clipping is exact intersection, expanding is the smallest enclosing interval, dilation moves the end points, over-erosion gives the empty set. All empty representations (including reversed or NaN end points) behave identically. The in-place and copying forms agree over any sequence of operations.",
  ["inputs", "histories"], "all end point pairs including reversed, equal, infinite and NaN, all sequences of operations",
  "tests use a few intervals; identities must hold for empties, points and infinities in every operand position",
  ["include/lsst/sphgeom/Interval.h", "include/lsst/sphgeom/Interval1d.h", "include/lsst/sphgeom/AngleInterval.h", "include/lsst/sphgeom/Box3d.h"],
  [("CRTP interval algebra", "include/lsst/sphgeom/Interval.h"), ("all-or-none-empty invariant", "include/lsst/sphgeom/Box3d.h:_enforceInvariants")],
  observe=["end points and answers of all public methods"])

p("P11", "Circular angle intervals are arcs with exact arc semantics",
  "An interval of normalized angles stands for the counter-clockwise arc from its first to its second end point, possibly crossing zero, or for the empty or full circle. Contains, intersects, is-disjoint, is-within and relate are exact for arcs; clipping yields a smallest single arc containing the intersection and never one larger than either operand needs, expanding yields a smallest arc containing both, and dilation/erosion moves both ends and turns full or empty when it should. Size, centre, emptiness, fullness and equality are consistent with the arc, over any sequence of operations.",
  ["inputs", "histories"], "all pairs of arcs (plain, wrapping, point, empty, full, sharing end points) and points, all sequences of operations",
  "a pair of arcs has dozens of qualitative configurations per operation; tests write down some of them",
  ["include/lsst/sphgeom/NormalizedAngleInterval.h", "src/NormalizedAngleInterval.cc"],
  [("wrap case analysis", "src/NormalizedAngleInterval.cc")],
  [("_a,_b", "start and end of the arc; a > b means crossing zero; NaN means empty", "include/lsst/sphgeom/NormalizedAngleInterval.h")],
  ["end points and answers of all public methods"])

p("P12", "Longitude/latitude boxes keep exact product semantics",
  "A box is the product of a longitude arc and a latitude interval clipped to the poles, both empty or neither; contains, intersects, disjoint, within, relate, clip and expand act componentwise, exactly or minimally. Dilating by a radius covers every point within that angular distance of the box (longitude becomes full when a pole is reached), dilating by width and height moves each side by that much, and eroding by width and height undoes it. These invariants hold after any sequence of operations.",
  ["inputs", "histories"], "all boxes (empty, full, point, polar, zero-crossing), radii of either sign, all sequences of operations",
  "tests use few boxes; pole and wrap handling interact through several steps",
  ["include/lsst/sphgeom/Box.h", "src/Box.cc"],
  [("_enforceInvariants", "include/lsst/sphgeom/Box.h"), ("dilateBy, halfWidthForCircle", "src/Box.cc")],
  observe=["getLon/getLat and answers of all public methods"])

p("P13", "Circle operations keep cap semantics",
  "A circle is the set of unit vectors within its opening angle, the empty set (negative or NaN size) or the full sphere. Clipping keeps every common point, is no larger than either operand and is empty for circles clearly apart; expanding covers both operands and is no larger, up to rounding, than the smallest circle covering both; dilation covers every point within the given distance and erosion undoes it, complement covers everything the circle does not and shares only the boundary; contains, disjoint and relate never claim more than holds. Area, opening angle and chord length agree with each other, and the invariants survive any sequence of operations.",
  ["inputs", "histories"], "all circles (empty, point, hemisphere, near-full, full), all pairs, angles of either sign, all sequences of operations",
  "tests use few circles; special cases for empty/full/antipodal centres interact",
  ["include/lsst/sphgeom/Circle.h", "src/Circle.cc"],
  [("expandTo/clipTo/dilateBy/complement case analysis", "src/Circle.cc")],
  observe=["centre, chord length, opening angle and answers of all public methods"])

p("P14", "Point membership matches the region's geometric definition",
  "A circle, box, ellipse or convex polygon contains a direction exactly when the geometric definition says so (within the angular distance; within the longitude/latitude ranges; sum of distances to the foci; on the inner side of every edge), except within rounding distance of the boundary. The vector, coordinate and longitude/latitude forms of the question agree, and region size parameters, centre and complement of an ellipse or circle are consistent with membership.",
  ["inputs"], "all regions of the four simple types and all unit vectors not within rounding of the boundary",
  "tests sample few shapes; an error can be confined to, say, large ellipses, wrapping boxes or a hemisphere",
  ["src/Circle.cc", "src/Box.cc", "src/Ellipse.cc", "src/ConvexPolygonImpl.h", "src/Region.cc"],
  [("contains of each region type", "src/*.cc"), ("Ellipse quadratic form", "src/Ellipse.cc")],
  observe=["contains(v), contains(x,y,z), contains(lon,lat)"])

p("P15", "Spatial relationships are never falsely claimed",
  "For any two regions of any types, 'disjoint' is reported only if they share no point, 'contains' only if the first holds every point of the second, 'within' only if the second holds every point of the first; swapping the operands swaps contains and within (two compound operands excepted). Derived questions (contains, intersects, is disjoint, is within) agree with the reported relationship. For pairs of circles and polygons, and for circles and boxes, that are clearly nested or clearly apart the relationship is actually reported (a box in a circle excepted).",
  ["inputs"], "all ordered pairs of region types and all regions, including empty, full, hemispherical, touching and antipodal ones",
  "a false claim needs a particular alignment (circle surrounding a vertex, edge crossing without vertices inside, wrapping longitudes); tests list a few",
  ["src/Box.cc", "src/Circle.cc", "src/ConvexPolygon.cc", "src/ConvexPolygonImpl.h", "src/Ellipse.cc", "include/lsst/sphgeom/Relationship.h"],
  [("double dispatch and invert", "include/lsst/sphgeom/Region.h, Relationship.h"), ("pairwise relate", "src/*.cc")],
  observe=["relate() bits against point-set witnesses"])

p("P16", "Bounding shapes contain the region they bound",
  "The bounding box, bounding circle and 3-D bounding box of every region (box, circle, ellipse, convex polygon, union, intersection) contain every point of the region. Bounds of an empty region contain nothing needed, bounds of a full region are full, and bounds of simple shapes are not wastefully large.",
  ["inputs"], "all regions of all types including those over a pole, across longitude zero, larger than a hemisphere, empty and full",
  "an edge's extremum between vertices or a pole inside the region matters only for particular placements",
  ["src/Box.cc", "src/Circle.cc", "src/Ellipse.cc", "src/ConvexPolygonImpl.h", "src/CompoundRegion.cc"],
  [("boundingBox/boundingCircle/boundingBox3d", "src/ConvexPolygonImpl.h, src/Circle.cc, src/Box.cc, src/Ellipse.cc, src/CompoundRegion.cc")],
  observe=["getBoundingBox/getBoundingCircle/getBoundingBox3d membership of region points"])

p("P17", "Compound regions are exact unions and intersections",
  "A union contains a direction exactly when at least one operand does, an intersection exactly when all do, for any nesting. Their relationships to other regions never claim what the point sets do not satisfy, copies are deep and equal in behaviour, and asking for the parts returns the operands in order.",
  ["inputs", "programs"], "all nestings of unions and intersections over all simple region types, all points, all other regions",
  "tests use a few two-operand combinations; nested expressions and mixed relationships multiply",
  ["src/CompoundRegion.cc", "include/lsst/sphgeom/CompoundRegion.h", "src/Region.cc"],
  [("relate composition rules", "src/CompoundRegion.cc"), ("getRegions", "src/Region.cc")],
  observe=["contains, relate, getRegions, clone, cloneOperand"])

p("P18", "Serialization of regions is loss-free",
  "Decoding the encoding of any region (box, circle, ellipse, convex polygon, and any nesting of unions and intersections, including empty and full ones) gives a region of the same type with the same parts bit for bit, whether decoded generically or by its own type. Re-encoding gives the same bytes, and the byte layout is the documented fixed one independent of platform.",
  ["inputs", "programs"], "all regions and all nestings",
  "tests round trip one or two values per type; a field swap or a truncated length shows only for some values",
  ["include/lsst/sphgeom/codec.h", "src/Region.cc", "src/CompoundRegion.cc", "src/Box.cc", "src/Circle.cc", "src/Ellipse.cc", "src/ConvexPolygon.cc"],
  [("encode/decode of each type", "src/*.cc"), ("little endian codec", "include/lsst/sphgeom/codec.h")],
  observe=["encode() bytes and decode() objects"])

p("P19", "Malformed region bytes are rejected without reading out of bounds",
  "Decoding any byte string that is not a complete encoding (truncated, extended, wrong type code, inconsistent nested lengths, empty, or null) raises the documented error and never reads outside the given bytes, crashes, loops or leaks. Whatever decodes successfully can be used and encoded again.",
  ["inputs", "fault_sequences"], "all byte strings, in particular all truncations, extensions and byte edits of valid encodings of every type",
  "tests do not decode corrupted nested encodings",
  ["src/Region.cc", "src/CompoundRegion.cc", "src/Box.cc", "src/Circle.cc", "src/Ellipse.cc", "src/ConvexPolygon.cc", "include/lsst/sphgeom/codec.h"],
  [("length and type code checks", "decode functions in src/*.cc")],
  observe=["exception or object; address sanitizer"])

p("P20", "Chunks and sub-chunks partition the sphere with unique ids",
  "For every chunker configuration the chunk boxes tile the sphere and the sub-chunk boxes of a chunk tile that chunk; ids are non-negative and unique, the list of all chunks (sub-chunks of a chunk) holds each exactly once, and an id decomposes into its stripe and position and is reported valid exactly when it is in that list. Two points of a stripe that are a chunk width apart in longitude are at least a stripe height apart, and no fewer chunks than that allows are used. Configurations that cannot be represented are refused.",
  ["inputs", "configurations"], "all (stripes, sub-stripes per stripe) configurations, all ids, all directions",
  "tests use one or two configurations; counts per stripe follow from rounding trigonometric expressions",
  ["src/Chunker.cc", "include/lsst/sphgeom/Chunker.h"],
  [("per-stripe chunk and sub-chunk counts", "src/Chunker.cc constructor"), ("id arithmetic", "include/lsst/sphgeom/Chunker.h")],
  [("_stripes", "number of chunks and sub-chunks per stripe", "include/lsst/sphgeom/Chunker.h"), ("_subStripes", "sub-chunk counts and widths", "include/lsst/sphgeom/Chunker.h")],
  ["getAllChunks/getAllSubChunks/getStripe/getChunk/valid/get*BoundingBox"])

p("P21", "Chunk lookups for a region miss nothing and invent nothing",
  "The chunks and (chunk, sub-chunk) pairs reported for a region include the chunk and sub-chunk of every point of that region, contain only valid ids without duplicates, and the sub-chunk lookup names exactly the chunks that have a reported sub-chunk, which are among the chunk lookup's. Chunks and sub-chunks whose box is clearly apart from the region's bounding box are not reported.",
  ["inputs", "configurations"], "all regions of all types, all configurations",
  "tests use one configuration and few regions; wrap-around in longitude, poles and stripe boundaries are corner cases",
  ["src/Chunker.cc"],
  [("getChunksIntersecting/getSubChunksIntersecting longitude walk", "src/Chunker.cc")],
  observe=["getChunksIntersecting/getSubChunksIntersecting results"])

p("P22", "Big integers compute exactly",
  "Addition, subtraction, multiplication, negation and multiplication by powers of two on arbitrary-precision signed integers give exactly the mathematical result with the right sign over any sequence of operations, including operations of a number with itself. Operations that do not fit the given storage are refused with an exception, leave the value unchanged and never write outside it.",
  ["histories", "inputs"], "all sequences of operations on all values and capacities",
  "tests check some values; carries, borrows, aliasing and word-multiple shifts are separate paths",
  ["include/lsst/sphgeom/BigInteger.h", "src/BigInteger.cc"],
  [("schoolbook digit loops", "src/BigInteger.cc"), ("_checkCapacity", "include/lsst/sphgeom/BigInteger.h")],
  [("_digits,_size,_sign", "magnitude digits, count and sign", "include/lsst/sphgeom/BigInteger.h")],
  ["getDigits/getSize/getSign"])

p("P23", "The orientation predicate is exact and antisymmetric",
  "The orientation of three unit vectors is the exact sign of their triple product as stored, never affected by rounding: swapping two arguments negates it, rotating the arguments or negating two of them keeps it, and it is zero exactly for linearly dependent vectors. The fast axis-specialised variants agree with the general one.",
  ["inputs"], "all triples of unit vectors, in particular nearly coplanar ones and ones with very small components",
  "tests use few nearly degenerate triples; the exact fallback runs only when the floating-point filter is inconclusive",
  ["src/orientation.cc", "include/lsst/sphgeom/orientation.h", "src/BigInteger.cc"],
  [("error-bounded filter then exact big-integer evaluation", "src/orientation.cc"), ("orientationX/Y/Z", "src/orientation.cc")],
  observe=["orientation, orientationExact, orientationX, orientationY, orientationZ"])

p("P24", "Convex hulls hold all their points in any input order",
  "The convex polygon built from a set of directions contains every one of them, has only input directions as vertices, in counter-clockwise convex order, and is the same polygon for every order and repetition of the input. Inputs whose hull is not a convex polygon (fewer than three non-coplanar points, antipodal points, points not inside one hemisphere) are refused.",
  ["inputs", "histories"], "all finite point sets, all their permutations and repetitions",
  "tests build few hulls; incremental insertion has wrap-around copying cases and coplanar seeds that depend on input order",
  ["src/ConvexPolygon.cc"],
  [("findPlane/findTriangle", "src/ConvexPolygon.cc"), ("computeHull incremental insertion", "src/ConvexPolygon.cc")],
  observe=["getVertices, contains, operator==, exceptions"])

p("P25", "Angles and spherical coordinates are normalized and convert faithfully",
  "A normalized angle lies between 0 and 2 pi for every finite input and equals it modulo 2 pi; the separation and the centre of two normalized angles lie on the arc they should. Longitude/latitude points have normalized longitude and latitude within the poles or are refused, and conversion to a unit vector and back returns the same direction; derived vectors (orthogonal, north, normalized, rotated, antipodal) have the geometric relation their name says and unit length.",
  ["inputs"], "all finite angles (including huge, tiny negative and multiples of 2 pi), all directions including poles",
  "tests use a few values; rounding at the wrap and at the poles are the failing cases",
  ["include/lsst/sphgeom/NormalizedAngle.h", "src/NormalizedAngle.cc", "src/LonLat.cc", "src/UnitVector3d.cc", "include/lsst/sphgeom/UnitVector3d.h", "src/Vector3d.cc"],
  [("range reduction", "include/lsst/sphgeom/NormalizedAngle.h"), ("latitudeOf/longitudeOf", "src/LonLat.cc"), ("orthogonalTo/northFrom/rotatedAround", "src/UnitVector3d.cc, src/Vector3d.cc")],
  observe=["constructors, between, center, getAngleTo, LonLat(UnitVector3d), UnitVector3d(LonLat)"])

p("P26", "Python objects survive pickling, YAML and IVOA text and mirror the C++ API",
  "Regions, range sets, pixelizations, chunkers, angles, intervals, boxes, vectors and coordinates compare equal to the original after pickling and copying, and regions and pixelizations after YAML. A region written as IVOA POS text parses back to an equivalent region, infinite range bounds mean unbounded, and malformed text is refused with an error. Python range sets, including those reaching 2^64, index, iterate, query and validate as the underlying set does.",
  ["inputs"], "all objects of the wrapped types; all POS strings",
  "tests pickle one value per class",
  ["python/lsst/sphgeom/_continue_class.py", "python/lsst/sphgeom/_yaml.py", "python/lsst/sphgeom/_rangeSet.cc", "python/lsst/sphgeom"],
  [("__reduce__ definitions", "python/lsst/sphgeom/_*.cc"), ("from_ivoa_pos/to_ivoa_pos", "python/lsst/sphgeom/_continue_class.py"), ("YAML representers", "python/lsst/sphgeom/_yaml.py")],
  observe=["pickle.loads(pickle.dumps(x)) == x, yaml round trip, Region.from_ivoa_pos"])

p("P27", "The HEALPix pixelization indexes, covers and encloses like the others",
  "The Python HEALPix pixelization assigns every direction an index inside its universe, its pixel outlines are those of the HEALPix grid, its envelope of a box, circle, ellipse or convex polygon - empty, a single point, thin, or nearly everything - contains the index of every point of the region and nothing far from it, and its interior holds only pixels inside the region and is a subset of the envelope. Levels nest by dropping two bits, and equality, pickling and naming follow the level.",
  ["inputs", "configurations"], "all levels, all directions, all boxes, circles, ellipses and (well conditioned) convex polygons",
  "tests use few regions; very small and pole-covering regions are special",
  ["python/lsst/sphgeom/_healpixPixelization.py"],
  [("oversampled query plus dilation", "python/lsst/sphgeom/_healpixPixelization.py:envelope"), ("corner test", "python/lsst/sphgeom/_healpixPixelization.py:interior")],
  observe=["index, pixel, envelope, interior, universe"])

p("P28", "Angular-distance bounds from points to edges and circles are exact bounds",
  "The reported smallest (largest) squared chord length between a point and a great-circle edge is never above (below) that of any point of the edge and is attained by some point of it; the smallest and largest angle between a point and a circle are the true extremes; chord length and opening angle convert into each other monotonically; the weighted centroid of a triangle or polygon, however small, lies inside it and is the sum of those of its parts.",
  ["inputs"], "all points, edges shorter than pi, circles of any opening angle",
  "tests use a few edges; whether the extremum is at a vertex or inside the edge is a case split",
  ["src/utils.cc", "include/lsst/sphgeom/utils.h", "src/Circle.cc", "src/ConvexPolygonImpl.h"],
  [("getMinSquaredChordLength/getMaxSquaredChordLength", "src/utils.cc"), ("getMinAngleToCircle/getMaxAngleToCircle", "include/lsst/sphgeom/utils.h"), ("squaredChordLengthFor/openingAngleFor", "src/Circle.cc")],
  observe=["return values"])

p("P29", "Vector, matrix and angle arithmetic agrees with exact linear algebra",
  "Sums, products, quotients, inner and cross products of vectors, angles and 3 by 3 matrices, transposes, rows, columns and inverses equal the mathematical results up to the rounding of each elementary operation, and exactly when all intermediate results are representable; in-place and unit-vector forms agree with the plain ones, and equality compares all components.",
  ["inputs"], "all finite vectors and matrices away from overflow",
  "tests use one or two values per operation, often symmetric ones that cannot tell rows from columns or signs apart",
  ["include/lsst/sphgeom/Vector3d.h", "include/lsst/sphgeom/Matrix3d.h", "include/lsst/sphgeom/UnitVector3d.h", "include/lsst/sphgeom/Angle.h"],
  [("dot/cross/robustCross", "include/lsst/sphgeom/Vector3d.h, include/lsst/sphgeom/UnitVector3d.h"), ("product, adjugate inverse", "include/lsst/sphgeom/Matrix3d.h")],
  observe=["return values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
