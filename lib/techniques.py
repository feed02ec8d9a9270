MC = "model_checking"
TECH = {
 "G02": (MC, "TLA+ (TLC) trace validation: exact planar model Planar.tla decides recorded intersects/disjoint of generated pairs",
         "Exact rational arithmetic in the model over integer coordinates -100..100; inputs generated at random with shared vertices, edges and contacts, all index options; not every input is enumerated."),
 "G03": (MC, "TLA+ (TLC) trace validation: exact planar model Planar.tla decides recorded covers/contains/within/coveredby/equals",
         "As G02; lines are simple; a polygon that exactly fills a hole of the other is left undecided (the repository's own tests fix the opposite answer)."),
 "G04": (MC, "TLA+ (TLC) trace validation: exact planar model Planar.tla decides recorded touches", "As G03."),
 "G06": (MC, "TLA+ (TLC) trace validation: member rule of Planar.tla (Leaves/Relations) decides recorded relations of multis and nested collections",
         "As G03, for collections of up to a dozen leaves and larger indexed ones; the member rule is the documented one."),
}
T = "TLA+ (TLC) trace validation: "
TECH.update({
 "G01": (MC, T + "exact planar model decides recorded point locations and box queries (LocTrace.tla)", "Integer coordinates with exact scaling; generated inputs, not all."),
 "G05": (MC, T + "all representations of a pair must give the answers of Planar.tla (ReprTrace.tla)", "Generated pairs in 8 (12) representations each."),
 "I01": (MC, T + "answers under every index option are equal, and equal to Planar.tla where small enough (ReprTrace, LocTrace, RelateTrace)", "Generated inputs up to 600 positions."),
 "I02": (MC, T + "searches report exactly the pairs that the exact model finds (SearchTrace.tla)", "Every pair of segments on a 3x3 grid; generated series up to 50 (150) positions."),
 "I03": (MC, T + "nearest-segment queries are runs of a yield-one-of-the-nearest transition system (NearestTrace.tla)", "Generated series up to 800 positions, three distance functions, staged callbacks, failing allocations."),
 "I04": (MC, T + "collection searches report exactly the members that meet the box (SearchTrace.tla)", "Generated collections up to 1100 members."),
 "I05": (MC, T + "index levels are those of the hierarchy in SeriesTrace.tla", "Generated series up to 700 positions around the indexing thresholds; single-precision slack in the default build."),
 "M01": (MC, T + "rectangles are those of the positions (SeriesTrace.tla)", "Generated trees of all kinds and dimensions; Z and M are not mixed at the same position of siblings."),
 "M02": (MC, T + "area, winding, convexity and length (SeriesTrace.tla)", "Length is compared with an integer square root to 2^-10 per segment; convexity on simple rings."),
})
C = T + "CodecTrace.tla: "
TECH.update({
 "P01": (MC, C + "a WKB reader (Wkb.tla) decides what recorded bytes must parse to", "Generated and edited inputs up to 700 bytes; rings without positions are left undecided."),
 "P02": (MC, C + "a GeoBIN and hex reader (Wkb.tla) decides what recorded bytes must parse to", "As P01."),
 "P03": (MC, C + "a WKT reader (GeoText.tla) with exact numbers (Dbl.tla) decides what recorded texts must parse to", "Generated and edited texts up to 700 bytes."),
 "P04": (MC, C + "a JSON and GeoJSON reader (JsonText.tla, GeoText.tla) decides what recorded texts must parse to", "Generated and edited texts up to 700 bytes; escaped NULs are not generated."),
 "P05": (MC, C + "every recorded result of hostile input is a usable geometry or an error with a message; driver under sanitizers", "Memory errors, hangs and crashes are seen by running (sanitizers, time limits), the result is judged by the model."),
 "P06": (MC, C + "the detected parse equals the parse of an accepting format", "Generated and edited inputs."),
 "N01": (MC, C + "decimal texts and doubles compared with exact integers (Dbl.tla)", "Generated numbers up to about 60 digits."),
 "W01": (MC, C + "recorded writes into buffers of many sizes against the full output", "Generated geometries; thirteen sizes each."),
 "W02": (MC, C + "encoders (Wkb.tla, GeoText.tla) decide every byte written", "Generated geometries."),
 "R01": (MC, C + "what a format carries (Carried) must come back", "Generated geometries."),
 "B01": (MC, C + "header queries against the bytes and the geometry", "Generated GeoBIN and headers; headers of impossible dimensions are left undecided."),
})
H = "TLA+ (TLC): histories generated from the ownership machine OwnGen.tla are replayed into the library and the records judged by OwnTrace.tla"
TECH.update({
 "L01": (MC, H + "; the counting design OwnRC.tla is checked against Own.tla exhaustively", "All histories of 4 (5) operations over 3 slots and two templates, sampled in quick; random histories of 16 (24) operations over 6 slots; 31-bit fingerprints stand for contents."),
 "L03": (MC, H + ", with every allocation request of single operations failing in turn", "Faults: each request once, or from it on; in longer histories at chosen requests; searches: the segment queue of nearest queries (NearestTrace.tla)."),
 "L04": (MC, H + " (rich in copies)", "As L01."),
 "A02": (MC, H + "; reported sizes against the learned pools of memory", "As L01; objects that hold one member more than once are left undecided; up to 9 spare bytes per extra JSON text."),
})
TECH["A01"] = (MC, T + "every accessor's answer is that of the object that the program of constructors denotes (Access.tla)", "Generated programs of up to 16 constructor calls; indexes from -2 to two past the end and both ends of int; integer coordinates.")
TECH["E01"] = (MC, "TLA+ (TLC): histories of settings and constructions generated from the machine EnvGen.tla (exhaustive when short, simulated when long) are replayed into the library and the records judged by EnvTrace.tla", "All histories of 2 (3) steps over a small alphabet, random histories of 12 steps; indexes carrying a spread are not given as the default index.")
TECH["X01"] = (MC, T + "the answers to the same calls in nine builds are the same (ReprTrace.tla), the build main being judged by all other checks", "Generated scenarios of all other checks; 80-bit digests of answers; the wide-index build may differ in index rectangles, memory and order of equally distant segments; this machine's compilers.")
TECH["L02"] = (MC, "TLA+ (TLC): the counting design is explored in all interleavings in a C11 release/acquire memory model with vector clocks (Conc.tla, ConcGen.tla); the schedules found are replayed into the real code, whose recorded memory accesses the same model judges (ConcTrace.tla)", "All programs of two threads of three operations (all schedules, sampled in quick), longer ones of two and three threads at random; objects of twenty kinds; threads hand over before atomic accesses to shared memory and releases of it, plain accesses are judged by happens-before; accesses inside the C library are not seen.")
NA = {}
