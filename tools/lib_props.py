LIB = ["values returned by the exported API of the library"]
LIBN = ("Holds on the generated executions only. The library is called through its exported API; the oracle "
        "is the harness' own exact integer geometry or plain model and reuses nothing of it. ")

prop("C22", "Spatial lookups find exactly what is there",
 "After any sequence of insertions, bulk loads and removals, the spatial index reports exactly the entries that are in it: searches return those whose extent meets the query, nearest neighbour queries return the nearest ones in order of distance, and listings return each entry once. Neighbour lookups around a geometry return exactly the pieces within the given distance of it, those around a piece the other pieces within the distance whose extents meet its own.",
 ["histories", "inputs"],
 "every sequence of insertions, loads, removals and queries, every size and shape of entries",
 "The tests replay a few fixed sequences on fixed boxes; trees that are split, condensed and emptied in other orders are not reached.",
 ["hdb/insert.go", "hdb/load.go", "hdb/remove.go", "hdb/search.go", "hdb/split.go", "hdb/build.go", "hdb/knn.go", "hdb/collides.go", "knn/knn.go", "knn/neighbours.go"],
 [("boxes of inner nodes enclose their children", "hdb/adj.go, hdb/mbr.go"), ("overfull nodes are split, empty ones dropped", "hdb/split.go, hdb/remove.go")],
 LIB, "model based monitor: each operation is repeated on a plain list and every answer compared",
 LIBN, state=[("index", "the entries stored and not yet removed", "hdb/rtree.go")])

prop("C23", "What a simplification leaves behind partitions every polyline",
 "After a simplification through the library, the pieces of each polyline cover all its vertices in order, each starting at the vertex where the previous one ended, and the reported simple vertices are the ends of the pieces. Each piece has an identity of its own, belongs to its polyline, carries the convex hull of exactly its vertices, and the work ends after at most as many rounds as there are vertices.",
 ["inputs", "configurations"],
 "every set of polylines and constraints, every combination of options, one by one or as a feature class",
 "The tests compare the pieces of a few polylines with recorded ones.",
 ["constdp/simplify.go", "constdp/fc_simplify.go", "constdp/simple_0.go", "constdp/simple_1.go", "constdp/node_aggregates.go", "constdp/decompose.go", "constrain/toself.go", "node/node.go"],
 [("pieces are only replaced by pieces with the same ends", "split/split.go, merge/merge.go"), ("results are gathered per polyline", "constdp/simple_1.go")],
 LIB, "online monitor on the final state of every execution: tiling, identity and exact convex hull of each piece",
 LIBN)

prop("C24", "Unconstrained decomposition is Douglas-Peucker at every threshold",
 "The unconstrained decomposition keeps a vertex exactly when the Douglas-Peucker recursion selects it: a stretch is kept whole when all of it lies within the threshold and cut at a most distant vertex otherwise. Vertices kept at a threshold are also kept at every lower one, and plain and squared distance measures select the same vertices.",
 ["inputs", "configurations"],
 "every polyline and trajectory, every threshold",
 "The tests contain a few polylines at one or two thresholds each.",
 ["dp/dp.go", "decompose/decompose.go", "offset/dp.go", "offset/sed.go"],
 [("recursion on a stack of ranges", "decompose/decompose.go")],
 LIB, "online monitor of every decomposition: replay of the recursion with independent distances, and comparison across thresholds",
 LIBN + "Comparisons within 1e-9 (synchronised: 1e-6) of the threshold are left open.")

prop("C25", "The offset of a stretch is that of its most distant vertex",
 "The offset of a stretch of polyline is the greatest distance of its interior vertices from the segment between its ends (synchronised: from the position on it at the vertex' time), and the vertex reported with it is one that has this distance. The squared variants report the square of the same distance, and a stretch without interior vertices has offset zero.",
 ["inputs"],
 "every coordinate sequence, including closed, repeated, collinear and backward ones, of any magnitude",
 "The tests check a few sequences.",
 ["offset/dp.go", "offset/sed.go"],
 [("point to segment distance", "offset/dp.go"), ("position at time", "offset/sed.go")],
 LIB, "differential monitor: every answer is compared with a 300 bit reference",
 LIBN + "Tolerance 1e-9 of the extent (synchronised: 1e-7).")

prop("C26", "Simplifying leaves its inputs alone and can be repeated",
 "A simplification changes none of the polylines, constraints and options it is given. Doing it again with the same values, or with fresh equal ones, gives the same result.",
 ["histories", "inputs"],
 "every job, run any number of times on the same values",
 "The tests simplify each polyline once.",
 ["constdp/constructor.go", "constdp/simplify.go", "constdp/fc_simplify.go", "node/node.go", "split/split.go", "merge/merge.go", "geometry/pln.go"],
 [("pieces are index ranges over shared coordinates", "geometry/pln.go, merge/merge.go")],
 LIB, "state monitor: complete dumps of the inputs before and after each execution, results of repetitions compared",
 LIBN)

prop("C27", "The work queue is linearizable",
 "Under any concurrent use of the work queue every operation takes effect at one instant between its call and its return, in first in first out order: no item is lost, duplicated or reordered, and reported sizes and contents are those of some such instant. It never deadlocks, and has no data races.",
 ["schedules", "histories"],
 "every number of concurrent producers, consumers and observers, every schedule",
 "The tests use the queue from one goroutine.",
 ["node/queue.go"],
 [("a lock guards the items", "node/queue.go")],
 ["values returned by the queue's operations", "reports of the race detector"],
 "Go race detector plus linearizability checker (porcupine) on recorded histories of stressed queues",
 "Histories are those the runtime produced under random delays and GOMAXPROCS. Removing from an empty queue is outside its contract. Trusts porcupine and the Go race runtime.",
 state=[("items", "the queued pieces in order", "node/queue.go")])

prop("C28", "Relations to surrounding geometries are decided exactly",
 "A replacing segment is accepted by the geometric relation exactly if, for every surrounding geometry, segment and replaced stretch both intersect it or both do not. It is accepted by the distance relation exactly if, for every surrounding geometry, the segment keeps the minimum distance or the stretch did not keep it either.",
 ["inputs", "configurations"],
 "every stretch, every set of points, lines and polygons with holes, every minimum distance",
 "The tests contain one scene each.",
 ["relate/geom.go", "relate/dist.go", "constrain/bygeom.go", "constrain/bymindist.go", "ctx/ctx.go"],
 [("conjunction over all geometries", "relate/geom.go, relate/dist.go")],
 LIB, "differential monitor: each decision compared with exact integer geometry",
 LIBN + "Distances within 1e-9 of the minimum are left open; stretches with equal ends are not judged.")

prop("C29", "Self-intersections are inventoried completely and correctly",
 "The inventory of a polyline lists exactly the locations where several of its vertices coincide, with all of these vertices, and the points where two of its segments meet other than at vertices of both, with the ends of these segments; each is listed once. For a group of polylines it lists exactly the vertices that coincide with another vertex of the group; pieces are cut at all listed and given vertices when kept self-intersections are asked for and left alone otherwise.",
 ["inputs"],
 "every polyline and group of polylines whose consecutive vertices differ",
 "The tests contain three polylines.",
 ["lnr/self.go", "lnr/fc.go", "lnr/vertices.go", "constrain/toself.go", "constrain/split.go"],
 [("coincident vertices by sorting", "lnr/vertices.go"), ("segment pairs by spatial index", "lnr/self.go")],
 LIB, "differential monitor: each inventory compared with an exact all-pairs computation",
 LIBN)

prop("C30", "Splitting and joining pieces loses and invents nothing",
 "Cutting a piece at any set of vertices gives contiguous pieces with exactly these ends inside it, and cutting it at its most distant vertex gives two. Joining two contiguous pieces in either order gives the piece that spans both, done only within the threshold; joining fragments of a given size never joins across a fixed vertex or beyond the threshold, and leaves nothing apart that could be joined. Joining the single segments of a tiling, left to right, joins each with the next piece, or else with the previous one, exactly where the vertex between is not fixed, the score allows it and the validation, which sees all the rest of the line and nothing else, accepts it.",
 ["inputs"],
 "every polyline, every tiling of it by pieces, every set of vertices, every threshold, every score and validation",
 "The tests contain a few splits and joins of one polyline.",
 ["rng/split.go", "rng/contig.go", "rng/rng.go", "split/split.go", "merge/merge.go", "constdp/node_aggregates.go", "node/node.go"],
 [("pieces are ranges with shared ends", "rng/rng.go")],
 LIB, "model based monitor: each operation compared with the same operation on plain vertex ranges",
 LIBN)

prop("C31", "Side changes are always recognised",
 "The sidedness relation accepts a stretch only if it and the segment between its ends touch the same surrounding geometries and the stretch can be deformed continuously into the segment, ends fixed, without sweeping over a geometry neither touches. It accepts every stretch that touches the same ones as its segment and whose convex hull contains none of the others, and decides convex stretches exactly.",
 ["inputs"],
 "every stretch (winding, spiral, self-crossing), every set of points, lines and polygons around it",
 "The tests contain a few dozen drawn scenes.",
 ["homotopy/homotopy.go", "homotopy/deform.go", "homotopy/chain.go", "relate/sidedness.go", "constrain/byside.go"],
 [("vertices are removed while the triangle they span is free", "homotopy/deform.go")],
 LIB, "differential monitor: each decision compared with the free group word of the loop and with exact special cases",
 LIBN + "Stretches with equal ends are not judged; refusing a deformable winding stretch is not an error.")

prop("C32", "Reading a file yields exactly what is written in it",
 "Reading a file of constraints yields every point, line and polygon in it, those of multi-part geometries one by one, in the order of the file and of the kind written; reading a file of polylines yields the lines in it alone. Every coordinate is the number written, in two or three dimensions, with all holes of a polygon, and every geometry carries the properties of its feature. Bare geometries, features, white space, blank lines and the notation of numbers make no difference.",
 ["inputs"],
 "every file of GeoJSON geometries, features and feature collections on lines of their own",
 "The tests read two files.",
 ["geometry/geojson.go", "geometry/geojson_geom.go", "geometry/jsontype.go", "geometry/pln.go", "geometry/pt.go", "geometry/polygon.go"],
 [("one geometry, feature or collection per line", "geometry/geojson.go"), ("parts in order", "geometry/geojson_geom.go")],
 LIB, "differential monitor: every geometry read compared with the one the generator wrote, number by number",
 LIBN)

prop("C33", "Pieces that would meet otherwise than before are selected for deformation",
 "Asked about a piece, the selection compares it with the other pieces. Of two pieces that share no end it selects both if their stretches meet and the segments between their ends do not, or if some crossing of the segments lies farther than the allowed displacement from some crossing of the stretches; at least one if only the segments meet; none if neither meet or all these crossings stay within the displacement. Of two pieces of a polyline that share an end it selects the one whose hull strictly contains the far end of the other. Pieces of the same polyline are left out in a feature class if that polyline is marked unchanged. A piece counts as valid exactly if it is not selected itself.",
 ["inputs", "histories"],
 "every set of pieces of every set of polylines, every displacement",
 "The tests contain about twenty drawn scenes.",
 ["deform/ln.go", "deform/cls.go", "deform/contig.go", "deform/noncontig.go", "constrain/bycls.go", "constrain/byself.go", "node/collapse.go", "node/contig.go", "knn/knn.go"],
 [("pairs are judged from segments and stretches", "deform/noncontig.go"), ("contiguous pairs from the hull and the far end", "node/collapse.go")],
 LIB, "differential monitor: each selection compared with exact integer geometry of all pairs",
 LIBN + "Pieces overlapping along a stretch, displacements within 1e-7 of the allowed one, and pieces sharing an end that is a corner of neither hull are not judged.")

prop("C34", "Ranges, pieces and wrappers stand for exactly what they were made from",
 "A range names a stretch of vertices from its first to its last; its size, strides, equality and adjacency follow from these two. The sub-polyline, segment, hull, point set and extent of a range of a polyline are those of exactly the vertices of that stretch, with the identity and properties of the polyline; the segments of a polyline and their listed extents cover it in order with the right end indices. A wrapped geometry answers every question as the geometry it wraps and knows its kind. Taking or changing any of these leaves the polyline as it was.",
 ["inputs", "histories"],
 "every polyline, every range of it, every wrapped geometry",
 "The tests look at a few ranges of fixed lines.",
 ["rng/rng.go", "geometry/pln.go", "node/node.go", "node/nodes.go", "common/common.go", "ctx/ctx.go", "ctx/ctxs.go"],
 [("ranges index into the coordinates of the polyline", "geometry/pln.go, node/node.go")],
 LIB, "differential monitor: every derived value is compared with the vertices the generator wrote",
 LIBN)

prop("C35", "What a simplification leaves behind is settled",
 "When a simplification ends nothing is left that its own rules would still deform. Where new self-intersections are to be avoided, comparing any piece left with all the others of its polyline, or of the whole feature class if it was simplified as one, selects no piece that replaces dropped vertices; and every piece that is not its own segment satisfies the enabled geometric, distance and direction relations to the constraints. This includes pieces joined at the end and pieces next to them.",
 ["inputs", "configurations", "histories"],
 "every set of polylines and constraints, every combination of options, one by one or as a feature class",
 "The tests compare a few results with recorded ones and never examine a result again.",
 ["constdp/simplify.go", "constdp/fc_simplify.go", "constdp/simple_0.go", "constdp/simple_1.go", "constdp/simple_2.go", "constdp/node_aggregates.go", "constdp/validate.go"],
 [("deformation repeats until nothing is selected", "constdp/simplify.go, constdp/fc_simplify.go"), ("joins are validated against all other pieces", "constdp/node_aggregates.go")],
 LIB, "fixpoint monitor: every piece of every result is put through the selection and the relations once more",
 LIBN + "The selection and the relations themselves are judged by C22, C29, C31 and C33.")
