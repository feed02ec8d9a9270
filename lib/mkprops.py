import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=[obs]
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
T=["tg.c"]
p("L01","Objects live exactly as long as they are referenced",
"An object (geometry, ring, line, polygon) stays fully readable and unchanged as long as one handle to it, or one object that contains it, has not been freed, in whatever order handles and containers are cloned, composed and freed. Once the last reference is gone all of its memory is returned, once, and nothing that is still referenced is returned.",
["histories"],"every sequence of create, compose, parse, clone, copy and free calls",
"The number of orders in which handles and containers can be dropped is unbounded; the tests free a handful of objects in one fixed order and rely on sanitizers to notice.",
T,[("reference counting of shared objects","tg.c: rc_* helpers, tg_ring_free, tg_line_free, tg_poly_free, tg_geom_free"),("containers hold references to their members","tg.c: tg_poly_new, tg_geom_new_* and tg_geom_clone")],
obs="public constructors, clone/copy/free and accessors, with a recording allocator installed through tg_env_set_allocator")
p("L02","Cloning and freeing from many threads is safe",
"Threads that each hold their own handle to one shared geometry may read, clone, copy and compose it and free their handles concurrently in every interleaving: there is no data race, nobody ever sees a freed object, and the memory is released exactly once, by whoever drops the last handle.",
["schedules"],"all interleavings of clone, read and free by concurrent threads over a shared object",
"The test suite is single threaded; even a threaded stress run samples a handful of the interleavings.",
T,[("atomic reference counter increments and decrements","tg.c: rc_init, rc_retain, rc_release"),("free decides on the decremented value","tg.c: tg_geom_free, tg_ring_free, tg_line_free, tg_poly_free")],
obs="instrumented build of tg.c whose memory accesses are scheduled one at a time")
p("L03","A failed allocation is reported and leaves nothing behind",
"Whichever allocation of a call fails, the call reports it (no object, an error geometry for parsers, or the documented out-of-memory result) or still succeeds with a correct result; it does not crash. Its arguments stay valid and unchanged, all memory that it took is returned, and the same call succeeds once memory is available again.",
["fault_sequences","programs"],"every allocation request of every constructing, copying, parsing or searching call failing, once or from then on",
"The chaos tests fail random allocations and check that nothing crashes or leaks; they neither visit every allocation nor look at what the call returns.",
T,[("cleanup paths of constructors and parsers","tg.c: tg_geom_new_*, series_new, parse_* fail/oom labels"),("nearest segment queue allocation","tg.c: tg_*_nearest_segment")],
obs="return values, accessors and a failing recording allocator")
p("L04","Copies are equal and independent, clones are the same object",
"A deep copy reports the same content, encodings and relations as its original, shares no memory with it, and stays fully usable after the original is gone. A clone is the very same object.",
["inputs","histories"],"every kind of object, with every index option, with and without extra data, and each order of freeing original and copy",
"Tests copy a few objects and compare a few fields while the original is still alive.",
T,[("deep copies","tg.c: tg_ring_copy, tg_line_copy, tg_poly_copy, tg_geom_copy")])
p("G01","Point location is exact",
"For every polygon (with holes), line or point and every query point, the answers to intersects, covers, contains, within and touches agree with the exact location of the point: inside, on the boundary, or outside. This holds for every index option, and for query points on vertices, on edges, and level with vertices.",
["inputs","configurations"],"all valid rings and lines, all query points, all index options and sizes; coordinates whose differences and the products of these are representable as doubles",
"Tests probe fixed points on fixed shapes; the boundary cases (level with a vertex, on a horizontal edge, in a hole corner) combined with the index layouts are unbounded.",
T,[("point in ring test with and without index","tg.c: tg_ring_contains_point and its stripes and index paths"),("raycast","tg.c: tg_raycast"),("holes","tg.c: poly_contains_point")])
p("G02","Intersects and disjoint are exact",
"Two geometries intersect exactly when they have at least one point in common, for each combination of points, lines, and polygons with holes; disjoint is its negation, and both are symmetric.",
["inputs"],"all pairs of valid geometries; coordinates whose differences and the products of these are representable as doubles",
"The relation tests compare some hundred fixed pairs; the ways two shapes can meet (vertex on edge, collinear overlap, inside a hole, touching a hole) are unbounded.",
T,[("segment intersection","tg.c: tg_segment_intersects_segment"),("ring and polygon intersection","tg.c: tg_ring_intersects_*, tg_poly_intersects_*")])
p("G03","Covers, contains, within and equals are exact",
"A covers B exactly when no point of B is outside of A; A contains B when moreover their interiors meet; coveredby and within are their converses, and two geometries are equal exactly when each contains the other.",
["inputs"],"all pairs of valid points, simple lines, and polygons with holes whose rings are disjoint; a polygon that fills a hole of the other exactly is not included",
"Fixed pairs cannot exhaust the ways in which a segment runs along, over and between the vertices of a concave ring and its holes.",
T,[("segment in ring test","tg.c: tg_ring_contains_segment, tg_ring_intersects_segment"),("covers and contains","tg.c: tg_*_covers_*, tg_*_contains_*"),("equals","tg.c: tg_geom_equals")])
p("G04","Touches is exact",
"Two geometries touch exactly when they have points in common but their interiors do not; it is symmetric.",
["inputs"],"all pairs of valid points, simple lines, and polygons with holes",
"Fixed pairs cannot exhaust the ways in which boundaries may meet.",
T,[("touches","tg.c: tg_*_touches_*")])
p("G05","Relations do not depend on how a geometry is represented",
"Answers are the same when a geometry is given with its rings rotated or reversed, with an edge split by a collinear vertex, translated, scaled or transposed, built by constructors or parsed from any encoding, wrapped as a feature, or given as a single-member multi geometry or collection.",
["inputs","configurations"],"all pairs of geometries and all representations of each",
"Tests use one representation per case.",
T,[("relation entry points and their dispatch on representation","tg.c: tg_geom_intersects, tg_geom_covers, tg_geom_contains, tg_geom_touches"),("winding dependent logic","tg.c: ring winding and convexity flags")])
p("G06","Collections are decided by their members",
"For multi geometries and nested collections: they intersect iff some pair of members does; A covers (contains) B iff each non-empty member of B is covered (contained) by one member of A and there is one; they touch iff some pair of members touches and every pair that intersects touches. Empty geometries are related to nothing.",
["inputs"],"all pairs in which either side is a point, line, polygon, multi geometry, collection or nested collection, with empty members anywhere",
"Tests have few cases with collections, nearly none with nesting, empties or many members.",
T,[("dispatch over members","tg.c: tg_geom_foreach, *_intersects_geom, *_covers_geom, *_contains_geom, *_touches_geom")])
p("I01","Index options never change an answer",
"Every relation, location, search and measure gives the same answer whether rings, lines and collections are built with no index, a natural index or y-stripes, with whatever spread, explicitly or through the environment defaults.",
["configurations","inputs"],"all index kinds, spreads 2 to 4096, sizes around the indexing thresholds",
"Tests run a few shapes with the default spread; index levels and partial last groups only appear at particular sizes.",
T,[("index construction and search","tg.c: process_points, ring_search, ystripes, natural index"),("environment defaults","tg.c: tg_env_set_index, tg_env_set_index_spread")])
p("I02","Segment searches report every intersecting pair exactly once",
"Searching two rings or lines for intersecting segments reports each pair of intersecting segments exactly once with its indexes and segments in the order of the arguments, and stops as soon as the callback asks for it.",
["inputs","configurations"],"all pairs of rings and lines with every combination of index options, and every stopping point",
"Tests check single shapes with a stop after one hit; the join has four index combinations times partial groups.",
T,[("pairwise index join","tg.c: tg_ring_ring_search, tg_ring_line_search, tg_line_line_search and their index iterators")])
p("I03","Nearest-segment queries yield segments in order of distance",
"A nearest-segment query yields each segment at most once, in order of increasing distance, none is skipped in favour of a farther one, and all are yielded if the caller never stops; with or without an index, and also when the distance callbacks answer with a partial (smaller) distance first and are asked again. It ends as soon as the callback that receives the segments asks for it, and reports a failed allocation.",
["inputs","configurations","histories"],"all rings, lines, query points, distance functions consistent with rectangles, index options, and stopping points",
"Tests check the first few results on one shape.",
T,[("priority queue search over the index","tg.c: tg_ring_nearest_segment, tg_line_nearest_segment, nearest queue")])
p("I04","Searching a collection reports exactly the members that meet the box",
"Searching a multi geometry or collection by rectangle reports each member whose bounding rectangle intersects it exactly once, with its position, and stops when asked; also when the collection is large enough to be indexed.",
["inputs","configurations"],"all collections of any size and all rectangles",
"Collections are only indexed from 64 members on; tests check few rectangles.",
T,[("collection index","tg.c: multi index, tg_geom_search")])
p("I05","Index levels tightly bound what is below them",
"A ring or line of at least twice the spread positions for which an index is asked for has one. Each level rectangle reported is the union of its group of segments, widened at most by single precision in the default build (exact when wide rectangles are compiled in); groups cover all segments in order, each level is the spread times smaller than the one below, and the reported spread is the requested one within its documented limits.",
["inputs","configurations"],"all rings and lines, all spreads",
"Tests print the levels of one shape.",
T,[("index construction","tg.c: natural index fill; tg_*_index_* accessors")])
p("M01","Bounding rectangles are tight",
"The rectangle of each object, and the multi-dimensional rectangle including Z and M, is the smallest one holding all of its positions, including those of nested members; rectangle operations are exact.",
["inputs"],"all geometries of every kind and dimension",
"Tests compare a few rectangles.",
T,[("rectangles","tg.c: tg_geom_rect, tg_geom_fullrect, tg_rect_*")])
p("M02","Ring measures agree with exact arithmetic",
"Area, winding order and convexity of a ring, and the length of its perimeter, agree with exact arithmetic over its vertices, independently of which vertex is first and whether the ring is explicitly closed.",
["inputs"],"all rings with every start vertex and winding, with collinear and repeated vertices",
"Tests use half a dozen shapes.",
T,[("ring processing","tg.c: process_points; tg_ring_area, tg_ring_perimeter, tg_ring_clockwise, tg_ring_convex")])
p("A01","Accessors are total and agree with what was built",
"Accessors return exactly the positions, members, dimensions, extra coordinates and flags that an object was built from; for a missing object, wrong type or out-of-range index they return the documented neutral value and never fail.",
["inputs","programs"],"all geometries and all accessor calls, including absent objects and indexes around both ends",
"Tests call accessors on well-formed objects.",
T,[("accessors","tg.c: tg_geom_*, tg_poly_*, tg_ring_*, tg_line_* accessors")])
p("A02","Reported memory size is the memory taken",
"The reported memory size of an object equals the memory allocated for it and for everything that it holds; a few spare bytes (less than ten) that a parser may keep at the end of an extra JSON text are not counted.",
["inputs","configurations"],"all objects of each kind, size, index option and origin",
"Tests compare a few sizes with formulas repeated from the code.",
T,[("memory size","tg.c: tg_ring_memsize, tg_line_memsize, tg_poly_memsize, tg_geom_memsize")])
p("W01","Writers honour the buffer contract",
"Each writer returns the full length of its output whatever the size of the buffer, fills the buffer with the longest fitting prefix (text is always terminated), and never writes past it.",
["inputs","configurations"],"all geometries, formats and buffer sizes, including none",
"Tests try a few buffer sizes.",
T,[("bounded output","tg.c: struct writer, write_*")])
p("W02","Encoded output is exactly the documented format",
"The WKB, hex, WKT, GeoJSON and GeoBIN written for a geometry are exactly the encodings that the format documents call for: type codes, dimensions, byte order, counts, coordinates in order, empties, nesting, bounding rectangle and extra members.",
["inputs"],"all geometries of every type and dimension, with empties, nesting and extra members",
"Tests compare outputs of chosen inputs with literals.",
T,[("writers","tg.c: write_geom_wkb, write_geom_wkt, write_geom_geojson, write_geom_geobin, write_geom_hex")])
p("R01","Writing and reading back gives the same geometry",
"Parsing what was written yields a geometry of the same type with the same coordinates, bit for bit, dimensions, nesting and emptiness as far as the format can carry them, for each format; GeoJSON and GeoBIN keep features and additional members too.",
["inputs"],"all geometries and formats, all normal doubles",
"Tests round-trip chosen inputs.",
T,[("writers and parsers","tg.c: tg_geom_wkb/wkt/geojson/geobin/hex, tg_parse_*")])
p("P01","WKB is accepted exactly when well formed, and decoded exactly",
"A byte string is accepted as WKB exactly when it starts with one complete well-formed geometry (either byte order at each level, ISO and extended type codes with or without SRID, counts that fit the data, closed rings); bytes after it do not matter. The geometry reported has exactly the encoded content, except that empty points, lines and polygons have no Z or M and empty points of a multipoint are dropped; everything else yields an error.",
["inputs"],"all byte strings",
"Chaos tests feed random bytes and only look for crashes.",
T,[("WKB parser","tg.c: parse_wkb and parse_wkb_*")])
p("P02","GeoBIN and hex are accepted exactly when well formed, and decoded exactly",
"A byte string is accepted as GeoBIN, or as hex of another binary encoding, exactly when it starts with one well-formed encoding (heads 1 to 4, dimensions, valid extra JSON, counts that fit the data; an even number of hex digits in either case), the geometry reported has exactly the encoded content, and everything else yields an error.",
["inputs"],"all byte strings",
"Chaos tests feed random bytes and only look for crashes.",
T,[("GeoBIN parser","tg.c: parse_geobin"),("hex parser","tg.c: parse_hex")])
p("P03","WKT is accepted exactly when well formed, and decoded exactly",
"A text is accepted as WKT exactly when it follows the grammar (keywords in any case, optional Z/M/ZM, white space, consistent dimensions, closed rings), and the geometry reported has exactly the written content; everything else yields an error.",
["inputs"],"all texts",
"Tests try a few dozen texts.",
T,[("WKT parser","tg.c: parse_wkt and parse_wkt_*")])
p("P04","GeoJSON is accepted exactly when valid, and decoded exactly",
"A text is accepted as GeoJSON exactly when it is valid JSON describing a valid GeoJSON object, whatever the order, spacing and escaping of its members; the geometry reported has exactly the described content, and additional members are kept; everything else yields an error.",
["inputs"],"all texts",
"Tests try a few dozen documents and do not vary member order, escaping, nesting or unknown members.",
T+["deps/json.c"],[("JSON validation","deps/json.c and its copy in tg.c: json_valid"),("GeoJSON parser","tg.c: parse_geojson")])
p("P05","Hostile input is handled within its bounds",
"For every byte string, parsing in every format reads only the given bytes, ends, does not overflow the stack, and returns a usable geometry, or an error with a message, or nothing when out of memory; nothing it returns refers to the input afterwards.",
["inputs"],"all byte strings in all formats, including truncations, mutations, huge counts and deep nesting",
"Fuzzing by the tests is a short random run; no systematic truncation or mutation.",
T+["deps/json.c","deps/fp.c"],[("parsers","tg.c: tg_parse_*")])
p("P06","Autodetection equals the parser of the detected format",
"Parsing without naming the format gives the same result as the parser of the format that the input is in.",
["inputs"],"all inputs valid in one of the formats, and all mutations of those",
"Tests try one input per format.",
T,[("format detection","tg.c: tg_parse, tg_parse_ix")])
p("N01","Numbers are read and written exactly",
"A number in text is read as the double nearest to its decimal value, and each normal double is written with the fewest digits that read back as the same double, in the shorter of plain and exponent notation, or always in plain notation when that is asked for. (Other doubles are written as 0.)",
["inputs","configurations"],"all decimal texts and all doubles",
"2^64 doubles; tests try a few.",
T+["deps/fp.c"],[("number parsing and printing","deps/fp.c and its copy in tg.c; tg.c: write_string_double")])
p("E01","Environment settings affect only what they say and only what follows",
"Changing the default index, spread, or number format affects only objects made, or text written, afterwards; existing objects keep their behaviour, and out-of-range settings are limited as documented.",
["histories","configurations"],"all sequences of setting changes, object creation and use",
"Tests change settings once at the start.",
T,[("environment","tg.c: tg_env_set_index, tg_env_set_index_spread, tg_env_set_print_fixed_floats")])
p("B01","GeoBIN header queries agree with the parsed geometry",
"The bounding rectangle, multi-dimensional rectangle and point queried directly from the GeoBIN of a geometry are those of the geometry; from other data they are what its header holds or, where there is no complete header, the documented neutral value, and nothing else is written.",
["inputs"],"all GeoBIN encodings, and all byte strings",
"Tests query a few encodings.",
T,[("GeoBIN header queries","tg.c: tg_geobin_rect, tg_geobin_fullrect, tg_geobin_point")])
p("X01","All build configurations behave the same",
"The single-file build, the build with separate dependencies, the build with static linkage, the build without atomic reference counts and the build with wide index rectangles (and builds by another compiler) give the same results for the same calls.",
["configurations"],"all documented compile-time options over the same histories",
"The stable tests compare each build with its own literals and exercise two of the options.",
T+["deps/json.c","deps/fp.c"],[("compile-time options","tg.c: TG_NOAMALGA, TG_NOATOMICS, TG_STATIC and related")])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sc); assert len(x['title'])<=80
print(len(P))
