#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note, state=state))

CLI = ["output file of the command line program", "exit status and error stream"]
SCENES = ("Holds on the generated executions only. Trusts the harness' own scene generator, "
          "configuration writer and output reader and its exact integer geometry; nothing of the program is reused. ")

prop("C01", "Output is an order-preserving selection of the input's vertices",
 "Every polyline written to the output is a selection of the vertices of the input polyline it stands for, in their original order, starting with its first and ending with its last vertex. No vertex is moved, invented or repeated out of order, and a vertex that is kept keeps its coordinates, including its third (time or elevation) coordinate, exactly.",
 ["inputs", "configurations"],
 "every set of input polylines (2D and 3D, Feature, geometry only, Multi-, integer and decimal coordinates of any magnitude), every combination of options",
 "The tests compare a handful of fixed polylines against recorded results; they do not reach arbitrary shapes, coordinates, third coordinates, or option combinations.",
 ["encode.go", "parser.go", "simplify.go", "constdp/simplify.go", "constdp/fc_simplify.go", "geometry/geojson.go"],
 [("vertices are kept as indices into the input coordinates", "encode.go:indices, extractCoords"), ("simplification state is a list of index ranges", "constdp/constructor.go, node/node.go")],
 CLI, "offline checker over recorded executions: subsequence matcher on raw coordinate text",
 SCENES + "Coordinates are compared as exact decimal values.")

prop("C02", "No dropped vertex deviates more than the threshold",
 "With distance based simplification, every vertex that was dropped lies within the configured threshold of the output segment that replaces the stretch of polyline it was on. This holds for every combination of topological options, whether features are processed one by one or together.",
 ["inputs", "configurations"],
 "every polyline, every threshold >= 0, every combination of constraints and options",
 "The tests look at a few polylines with one or two thresholds; splitting and joining forced by constraints is where the bound can be lost, and that depends on the whole input.",
 ["decompose/decompose.go", "offset/dp.go", "constdp/decompose.go", "constdp/simplify.go", "constdp/node_aggregates.go", "split/split.go", "merge/merge.go"],
 [("recursive decomposition at the vertex of greatest offset", "decompose/decompose.go:DouglasPeucker"), ("joined fragments are re-scored", "merge, constdp/node_aggregates.go"), ("fragments of forced splits are brought back under the threshold", "constdp/decompose.go:atThreshold")],
 CLI, "online monitor on every recorded execution: point to segment distance of each dropped vertex",
 SCENES + "Distances in float64 with relative slack 1e-9; where a distance lies along an axis (no rounding) a stretch exactly at the minimum distance is judged too.")

prop("C03", "No dropped trajectory point deviates more than the threshold in time",
 "With synchronised (spatio-temporal) simplification, every dropped vertex lies within the configured threshold of the position that the replacing output segment has at that vertex' time. This holds for every combination of topological options.",
 ["inputs", "configurations"],
 "every trajectory with strictly increasing times, every threshold >= 0, every combination of constraints and options",
 "The tests use two or three recorded trajectories; speeds, pauses, and forced splits are not explored.",
 ["offset/sed.go", "decompose/decompose.go", "constdp/decompose.go", "constdp/simplify.go", "simplify.go"],
 [("synchronised offset", "offset/sed.go"), ("recursive decomposition", "decompose/decompose.go:DouglasPeucker")],
 CLI, "online monitor on every recorded execution: synchronised distance of each dropped vertex",
 SCENES + "Distances in float64 with relative slack 1e-7; times strictly increase.")

prop("C04", "Simplification removes everything the options do not protect",
 "Without topological options the output keeps exactly the vertices that the classical Douglas-Peucker algorithm keeps at that threshold, except that it may drop some of them next to an edge that is kept as it is. Switching on topological options changes nothing for features that come near nothing the options could protect, and the options on self-intersections alone never keep a vertex other than those and the vertices they protect.",
 ["inputs", "configurations"],
 "every polyline without ties in its offsets, every threshold, every configuration whose constraints leave the feature alone",
 "A result that keeps too many vertices passes every topological test; the tests pin the vertex count of a few polylines only.",
 ["decompose/decompose.go", "offset/dp.go", "constdp/simplify.go", "constdp/node_aggregates.go", "constdp/validate.go", "constrain/toself.go"],
 [("a hull is only split when a constraint is violated", "constdp/validate.go"), ("fragments next to single segments are joined again", "constdp/node_aggregates.go")],
 CLI, "differential monitor: independent Douglas-Peucker run beside every execution",
 SCENES + "Inputs where offsets tie or touch the threshold within 1e-9 are set aside.")

prop("C05", "Simplification creates no new self-intersections",
 "With avoidance of new self-intersections on, two output segments of the same polyline that share no end point intersect only if the stretches of polyline they replace intersect.",
 ["inputs", "configurations"],
 "every polyline and every configuration with the option on",
 "Whether two segments cross depends on how hulls anywhere along the polyline happen to be split; the tests contain a few shapes where nothing or a known crossing happens.",
 ["constdp/simple_0.go", "constdp/simplify.go", "deform/cls.go", "deform/ln.go", "constrain/byself.go", "knn/knn.go", "hdb/search.go"],
 [("hull collisions are found in a spatial index and deformed until none is left", "constdp/simplify.go, deform/ln.go"), ("hulls are also checked against new segments", "constdp/simple_0.go")],
 CLI, "online monitor on every recorded execution: exact pairwise intersection of output segments against the chains they replace",
 SCENES + "Segments that share an end point are not compared (rings may collapse onto their closing segment; existing tests pin that).")

prop("C06", "Features of a feature class that were disjoint stay disjoint",
 "When the input polylines are simplified together as a feature class with avoidance of new intersections on, polylines that did not meet before do not meet after simplification.",
 ["inputs", "configurations"],
 "every set of polylines and every configuration with both options on",
 "The interaction of features is unbounded: contours nested or interleaved at any depth. The tests contain two small feature sets.",
 ["constdp/fc_simplify.go", "constdp/fc_group.go", "constdp/simple_0.go", "deform/cls.go", "constrain/bycls.go", "hdb/search.go", "hdb/remove.go"],
 [("all hulls of all features share one index", "constdp/fc_simplify.go"), ("collisions between features select the hulls to deform", "deform/cls.go")],
 CLI, "online monitor on every recorded execution: exact pairwise disjointness of features",
 SCENES)

prop("C07", "Crossings that exist survive, close to where they were",
 "With avoidance of new intersections on, two output segments (of one polyline or, in a feature class, of different polylines) that share no end point intersect if the stretches of polyline they replace did. Each place where they intersect is no further than the configured displacement from a place where the originals did.",
 ["inputs", "configurations"],
 "every set of polylines, every displacement, every configuration with the option on",
 "Losing a crossing or moving it needs particular arrangements of at least two stretches; the tests only compare a few results.",
 ["relate/geom.go", "constrain/byself.go", "constrain/bycls.go", "deform/cls.go", "constdp/simple_0.go", "offset.go"],
 [("relations before and after are compared per hull pair", "relate"), ("displacement bound", "opts/opts.go NonPlanarDisplacement")],
 CLI, "online monitor on every recorded execution: exact intersection plus displacement of intersection points",
 SCENES + "Displacements in float64 with relative slack 1e-7.")

prop("C08", "Vertices where polylines touch or share a location are kept",
 "With planar self-intersections kept, a location used by more than one vertex of a polyline, or in a feature class by vertices of several polylines, is still a vertex of each of them in the output.",
 ["inputs", "configurations"],
 "every polyline and feature class with coincident vertices, every configuration with the option on",
 "Touching vertices can appear any number of times at any position, across any number of features; the tests contain two such inputs.",
 ["lnr/self.go", "lnr/fc.go", "constrain/toself.go", "constrain/split.go", "constdp/fc_simplify.go", "constdp/simplify.go"],
 [("coincident vertices are grouped by sorting", "lnr/self.go, lnr/fc.go"), ("hulls are split at those vertices and not joined across them", "constrain/split.go, constdp/node_aggregates.go")],
 CLI, "online monitor on every recorded execution: every shared location must be kept",
 SCENES)

prop("C09", "Segments that cross keep their end vertices",
 "With planar and non-planar self-intersections kept, the end vertices of every two segments of a polyline that cross, or lie on each other, away from a common vertex are vertices of the output, so that every self-crossing appears in the output unchanged.",
 ["inputs", "configurations"],
 "every self-crossing polyline, every configuration with both options on",
 "Crossings can be of any number and kind (proper, touching, overlapping); the tests contain a couple.",
 ["lnr/self.go", "constrain/toself.go", "constrain/split.go", "constdp/simplify.go"],
 [("crossings are searched with an index of segments", "lnr/self.go"), ("hulls are split at them", "constrain/split.go")],
 CLI, "online monitor on every recorded execution: exact crossings against the kept vertices",
 SCENES)

prop("C10", "The relation to every constraint geometry is preserved",
 "With the geometric relation on, each output segment intersects a constraint geometry exactly if the stretch of polyline it replaces does, and each output polyline intersects a constraint geometry exactly if the input polyline does.",
 ["inputs", "configurations"],
 "every polyline, every set of point, line and polygon constraints, every configuration with the option on",
 "Constraints can lie on, inside, around or near any part of the polyline; the tests contain fixed constraint sets.",
 ["constrain/bygeom.go", "relate/geom.go", "constdp/validate.go", "constdp/simple_0.go", "knn/neighbours.go", "ctx/ctx.go"],
 [("constraints near a hull are found in the index of constraints", "knn/neighbours.go"), ("relation of the chain and of the segment are compared", "relate/geom.go")],
 CLI, "online monitor on every recorded execution: exact intersection of chain, segment and constraint",
 SCENES + "Polygons are closed regions minus the interiors of their holes.")

prop("C11", "The minimum distance to constraints is kept",
 "With the distance relation on, an output segment comes closer to a constraint geometry than the configured minimum distance only if the stretch of polyline it replaces did.",
 ["inputs", "configurations"],
 "every polyline, every set of constraints, every minimum distance, every configuration with the option on",
 "Which constraint is nearest to which stretch depends on the whole scene; the tests use a few.",
 ["constrain/bymindist.go", "relate/dist.go", "constdp/validate.go", "knn/neighbours.go", "knn/knn.go"],
 [("all constraints within the minimum distance of a hull are examined", "constdp/validate.go, knn/neighbours.go"), ("distance of chain and segment are compared", "relate")],
 CLI, "online monitor on every recorded execution: distances of chain and segment to each constraint",
 SCENES + "Distances in float64 with relative slack 1e-9.")

prop("C12", "Constraints stay on the same side of the line",
 "With the homotopy relation on, each output segment can be deformed continuously, with its end points fixed, into the stretch of polyline it replaces without sweeping over a constraint geometry that touches neither of the two.",
 ["inputs", "configurations"],
 "every polyline (also winding and self-crossing), every set of constraints that do not touch it, every configuration with the option on",
 "Sidedness along winding stretches is a property of arbitrary curves; the tests contain a few spirals and bays.",
 ["homotopy/homotopy.go", "homotopy/deform.go", "homotopy/chain.go", "constrain/byside.go", "constdp/validate.go"],
 [("the chain is shortened triangle by triangle over free ground", "homotopy/deform.go"), ("hulls that fail are split", "constdp/validate.go")],
 CLI, "online monitor on every recorded execution: free group word of the loop chain + segment around the constraints",
 SCENES + "Polygons with holes and constraints touching the chain or segment are not compared.")

prop("C13", "Every input polyline appears once, in order, with its properties",
 "The output has one feature for every input line of the file that contributes at least one polyline, in the order of the input file, carrying that line's properties unchanged and one polyline for every input polyline in its order. Lines that contribute nothing (points, polygons, empty collections, blank lines) are left out without disturbing the others.",
 ["inputs", "configurations"],
 "every input file in the documented format: mixtures of all geometry types, with and without properties, any number of lines and parts",
 "The tests read one sample file; mixtures, orders, counts and properties are unbounded.",
 ["encode.go", "io.go", "simplify.go", "geometry/geojson.go", "geometry/geojson_geom.go", "constdp/fc_group.go"],
 [("polylines carry an identity made of line number and part number", "geometry/geojson.go:composeId"), ("results are grouped by it and written in order", "encode.go:groupPlnsAsGeoJSONS")],
 CLI, "offline checker of the correspondence between input and output records (exactly once, in order)",
 SCENES)

prop("C14", "A polyline's result does not depend on unrelated lines",
 "When polylines are not treated as a feature class, the result of each is the same whether it is simplified alone, with others, or in another order in the file. The result of a feature class does not depend on where in the file unrelated lines (which share no extent with the rest) stand, and each constraint file gives the same result in any order.",
 ["inputs", "histories"],
 "every set of polylines, every order, every number of them",
 "Leaks between features depend on how many there are and how work is distributed; the tests simplify one set.",
 ["constdp/fc_simplify.go", "constdp/simplify.go", "constdp/simple_0.go", "simplify.go", "ctx/ctxs.go", "geometry/geojson.go"],
 [("one state per polyline", "constdp/constructor.go"), ("work is cut in chunks and gathered per polyline", "constdp/simple_0.go:chunkInstances")],
 CLI, "metamorphic monitor: executions on the same lines alone, together and permuted are compared",
 SCENES)

prop("C15", "Constraints that cannot matter do not change the result",
 "Constraint geometries further from the polylines than both the minimum distance and any place the polylines could move to, and constraints given while no option uses them, leave the output exactly as it is without them. Listing a constraint twice changes nothing either.",
 ["inputs", "configurations"],
 "every scene, every set of far or unused constraints",
 "How an index answers depends on everything stored in it; the tests have one constraint set per scene.",
 ["constdp/validate.go", "knn/neighbours.go", "hdb/knn.go", "hdb/load.go", "simplify.go", "ctx/ctxs.go"],
 [("only constraints near a hull are examined", "knn/neighbours.go")],
 CLI, "metamorphic monitor: executions with and without inert constraints are compared",
 SCENES)

prop("C16", "The same job always gives the same output",
 "Running the program again on the same configuration and files gives the same output byte for byte, however many processors there are and however goroutines are scheduled.",
 ["schedules", "inputs"],
 "every job, every schedule and degree of parallelism",
 "A test runs once under one schedule.",
 ["constdp/fc_simplify.go", "constdp/simple_0.go", "constdp/simple_1.go", "deform/cls.go", "simplify.go", "encode.go"],
 [("results of parallel work are gathered into ordered slots or keyed by identity", "constdp/simple_0.go, constdp/simple_1.go"), ("hull identities come from one generator", "constdp/constructor.go")],
 CLI, "replay monitor: repeated executions under varied GOMAXPROCS, collector settings and load, compared byte for byte",
 SCENES + "Schedules are those the runtime produced.")

prop("C17", "No data races between concurrently processed polylines",
 "Whatever is processed concurrently (several polylines of one job, or several simplifications in one process that share constraints, options and identity generator) accesses shared memory without data races, and gives the same result as one after the other.",
 ["schedules", "inputs", "programs"],
 "every job, every program calling the library concurrently with shared constraints and options, every schedule",
 "The tests run without the race detector and mostly on single polylines.",
 ["constdp/fc_simplify.go", "constdp/simple_0.go", "constdp/simple_1.go", "hdb/search.go", "node/queue.go", "deform/cls.go"],
 [("workers read the shared index and write only their own results", "constdp/simple_0.go, constdp/simple_1.go"), ("node queue is guarded by a lock", "node/queue.go")],
 ["reports of the race detector", "output file", "results returned by the library"],
 "Go race detector (ThreadSanitizer) under stress with randomly delayed callbacks, plus comparison with sequential results",
 "The detector reports races in the schedules that occurred. Trusts the Go race runtime.")

prop("C18", "Configuration means the same however it is passed or spelled",
 "A valid configuration gives the same output whether it is given as a file or as base64, and whatever the order and formatting of its keys, the letter case of the simplification type, blanks around paths, unknown extra keys, or line ends of the files it names. Options left out count as switched off or zero, an empty constraint file counts as none, and an older output file is replaced completely.",
 ["configurations", "inputs"],
 "every configuration, every way of passing it",
 "The tests parse one sample configuration.",
 ["main.go", "cfg.go", "io.go", "opts/opts.go", "simplify.go", "util.go"],
 [("arguments are decoded to one options record", "main.go, cfg.go")],
 CLI, "metamorphic monitor: executions of one job under equivalent configurations are compared",
 SCENES)

prop("C19", "Every well-formed job terminates with a complete result",
 "For every job in the documented format the program ends by itself within a time that does not explode with the size of the input, with exit status 0 and a complete output. This holds for hostile shapes too: repeated and coincident vertices, spikes, zero length lines, full overlaps, huge and tiny coordinates, and constraints that lie exactly on the lines.",
 ["inputs", "configurations"],
 "every input of valid geometries, however degenerate, every combination of options",
 "The tests only know benign shapes; endless splitting, index panics and exponential search need hostile ones.",
 ["constdp/simplify.go", "constdp/simple_1.go", "constdp/fc_simplify.go", "deform/cls.go", "decompose/decompose.go", "split/split.go", "homotopy/deform.go", "lnr/self.go"],
 [("each round of deformation splits at least one hull", "constdp/simplify.go"), ("single segments are never split", "split/split.go, deform/cls.go")],
 CLI, "crash and CPU time monitor on executions of hostile generated jobs, with completeness check of the output",
 SCENES + "Termination is judged by a CPU budget far above what any of the jobs needs.")

prop("C20", "The result depends on the shape, not on its notation or position",
 "Writing the same polylines and constraints as bare geometries, as features or as parts of multi-part geometries selects the same vertices. So does moving the whole scene by an exact offset, or scaling it with its thresholds and distances by a power of two.",
 ["inputs"],
 "every scene without ties, every representation, every exact movement of it",
 "Needs pairs of runs on related inputs; the tests have single ones near fixed coordinates.",
 ["geometry/geojson.go", "parser.go", "encode.go", "offset/dp.go", "offset/sed.go", "hdb/split.go", "lnr/self.go", "constrain/bygeom.go"],
 [("coordinates are parsed into numbers once", "parser.go, geometry/geojson.go"), ("all predicates are relative", "offset, relate")],
 CLI, "metamorphic monitor: executions on exactly transformed scenes are compared",
 SCENES + "Scenes where offsets tie within 1e-9 are set aside.")

prop("C21", "Invalid jobs are refused without touching anything",
 "A job that cannot be carried out (no or undecodable configuration, unknown simplification type, missing or unreadable or malformed input or constraint files) ends with a nonzero exit status. An output file that existed before keeps its content and none is created.",
 ["configurations", "inputs", "fault_sequences"],
 "every invalid configuration or unreadable file",
 "The tests contain no failing job.",
 ["main.go", "cfg.go", "io.go", "simplify.go", "geometry/geojson.go", "util.go"],
 [("errors end the program before the output is written", "main.go, io.go, geometry/utils.go")],
 CLI, "fault injection on files and arguments with a monitor on exit status and the output path",
 SCENES)

exec(open(os.path.join(HOME, "tools", "lib_props.py")).read()) if os.path.exists(os.path.join(HOME, "tools", "lib_props.py")) else None

NOT_APPLICABLE = []

with open(os.path.join(HOME, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"VERIF_TIER=quick bash check.sh {p['id']}",
                 "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
     "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks in /repo: every property is decided at the command line, by the race detector, or through the exported API."}
with open(os.path.join(HOME, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
