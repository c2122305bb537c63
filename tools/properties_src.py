#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os, re

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    n = len(re.findall(r"[.!?](?:\s|$)", statement.strip()))
    assert n <= 3, (id, n)
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement.strip(),
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


NOTEST = "No test touches this module; it is only imported. "

prop("C01", "RangeGrid: every read returns what was written, in any read order",
"""After a RangeGrid data set is written and closed, reading an entity by ID, or the next entity in stream order, returns
exactly the segments and rows written for it: integers, strings and nulls identical, reals within half a quantisation step of
their column. This holds for every row format and for any mix of sequential and by-ID reads through any number of readers;
sequential reading continues after the entity last read, and an unknown ID raises KeyError without moving the stream.
A read that fails with an I/O error makes no later read return wrong data: once the fault is gone, reading again returns the right entity.""",
["inputs", "histories", "fault_sequences"],
"all row formats (1/2/4/8-byte integers and reals, strings, nullable or not), entity sets, read histories over several open readers, short reads and transient read errors",
NOTEST + "Even a written test would fix one row format and one read order and never meet a failing or short read.",
["coral/rg.py", "coral/grid.py"],
[("Reader.read seeks to the entity and keeps a stream cursor", "coral/rg.py"), ("IVar/FVar/SVar.encode/decode, GRow", "coral/grid.py"),
 ("header and index encoding (vlv)", "coral/rg.py")],
[("Reader.idx", "stream cursor: index of the next entity", "coral/rg.py"), ("Reader.index / .md file", "IDs and segment lengths", "coral/rg.py")],
["rg.Reader.read", "rg.Reader.row"])

prop("C02", "RangeGrid: failed writes leave no trace and a crash never yields wrong data",
"""When closing a RangeGrid writer returns normally, a reader finds exactly the entities whose write call returned normally, in order;
an entity whose write raised (a value its column rejects, or an I/O error) leaves no trace and shifts nothing.
An I/O error that loses data is raised to the caller by write or close, never swallowed.
If the process dies or the writer fails at any earlier point, also while replacing an older data set, a later reader ends with an error or
returns complete correct entities of one single data set, never altered, truncated or mixed ones.""",
["crash_points", "fault_sequences", "histories", "inputs"],
"every crash instant and every failing or short write, over writer histories with rejected entities and with or without an older data set at the same path",
NOTEST + "Crash instants, full disks and errors in the middle of an entity cannot be produced by a unit test.",
["coral/rg.py", "coral/grid.py"],
[("row data is encoded before it is stored; index written last", "coral/rg.py"), ("row count in the header checked against the index", "coral/rg.py")],
[("Writer.index", "entities acknowledged so far", "coral/rg.py"), ("nrows header field", "written at close", "coral/rg.py")],
["rg.Writer.write", "rg.Writer.close", "rg.Reader"])

prop("C03", "P files: every entity reads back within the quantisation error",
"""After a P file is written and closed, every entity read by position or by name has the polygons that were written, in order, without the
repeated closing point, each coordinate wrapped to the geographic range and within half a quantisation step of the entity's
bounding range for the chosen size (1, 2, 4 or 8 bytes). The errors returned by closing the writer are the distances in metres between each written point and
the point a reader returns. Reads in any order through any number of readers agree, and after a read that failed with an I/O error a repeated read returns the right entity.""",
["inputs", "histories", "fault_sequences"],
"all sizes, entity sets including degenerate and range-edge polygons, read orders, short reads and transient read errors",
NOTEST + "Edge coordinates, 8-byte quantisation and read histories with faults are outside any handful of samples.",
["coral/pf.py"],
[("Writer.write quantises against the entity's bounding range", "coral/pf.py"), ("Reader.read computes the entity offset", "coral/pf.py")],
[("Reader.bboxes/partlens/names", "decoded index", "coral/pf.py"), ("Writer.buffers/errs", "encoded points and their errors", "coral/pf.py")],
["pf.Reader.read", "pf.Reader.get", "pf.Writer.close"])

prop("C04", "P files: failed writes leave no trace and a damaged file never misleads",
"""When closing a P-file writer returns normally, a reader finds exactly the entities whose write call returned normally; an entity whose write raised
leaves no trace. An I/O error while closing is raised to the caller, never swallowed, and closing again after the fault is gone produces the complete file.
If the process dies while closing, or the file is cut short at any byte, opening and reading it terminates in a bounded number of steps with
an error or with correct complete entities, never with altered ones.""",
["crash_points", "fault_sequences", "histories", "inputs"],
"every crash instant while closing, every cut length of the file, failing and short writes, writer histories with rejected entities",
NOTEST + "Termination and correctness on every possible truncated file is a universally quantified claim over crash points.",
["coral/pf.py"],
[("Writer buffers everything and writes the file at close", "coral/pf.py"), ("header decoding of names and variable-length numbers", "coral/pf.py")],
[("Writer.names/partlens/bboxes/buffers", "entities acknowledged so far", "coral/pf.py")],
["pf.Writer.write", "pf.Writer.close", "pf.Reader"])

prop("C05", "Shapefiles: what is saved is what every way of reading returns",
"""Shapes of every supported type (null, point, polyline, polygon, multipoint, their Z and M variants, multipatch) and their text and numeric attributes,
saved by path or to file objects, read back identical: type, points, parts, Z and M values, bounding boxes, geometry interface, fields and attribute values in the given encoding (a text too long for its field is cut at a character).
Reading by index (negative too), as lists, as iterators and as shape/record pairs, with or without the index file, all agree.
The three files are well-formed: lengths, record numbers, index offsets, record counts and bounding boxes in them match the actual content.""",
["inputs", "configurations", "fault_sequences"],
"all shape types, geometries, field lists, attribute values and encodings; path and file-object targets; with and without .shx; short raw reads and writes",
NOTEST + "The three files must agree with each other for every mix of types, encodings and values.",
["coral/shapefile.py"],
[("Writer header/record writers", "coral/shapefile.py"), ("Reader.__shape, __shapeIndex, __record", "coral/shapefile.py")],
[("Writer._offsets/_lengths", "positions for the index file", "coral/shapefile.py"), ("Reader._offsets", "index loaded from .shx", "coral/shapefile.py")],
["shapefile.Reader", "bytes of .shp/.shx/.dbf"])

prop("C06", "Shapefiles: reads are independent of other reads and of earlier read errors",
"""On one shapefile reader, every read returns the right shape or record no matter what other reads on the same reader came before it or
happen between its steps: half-consumed shape and record iterators may be interleaved with each other, with indexed reads and with whole-file reads.
A read that hits an I/O error raises it, and does not make any later read return wrong data or fail once the fault is gone.
Out-of-range indexes raise IndexError, and loading another shapefile into the reader forgets the previous one completely.""",
["histories", "schedules", "fault_sequences"],
"all interleavings of iterators, indexed reads, list reads, reloads and transient read errors on one or several readers",
NOTEST + "A test samples one call order; the claim is about every interleaving of stateful file-position users.",
["coral/shapefile.py"],
[("iterShapes/iterRecords keep their own position", "coral/shapefile.py"), ("__shapeIndex caches the index once fully read", "coral/shapefile.py")],
[("shared file position", "one handle per file, moved by every read", "coral/shapefile.py"), ("Reader._offsets", "cached index", "coral/shapefile.py")],
["shapefile.Reader methods"])

prop("C07", "Shapefiles: each save is a faithful snapshot, whatever happened before",
"""Every save of a shapefile writer stores exactly the shapes, fields and records the writer holds at that moment, whatever was saved before:
saving twice, adding data between saves, saving to different targets, saving only some of the files, or saving again after a save that failed with an I/O error.
Separate writers never influence each other and the writer does not change or keep references to the coordinate lists it is given.
A record given by field name fills the fields not named with blanks, so that every record stays aligned.""",
["histories", "fault_sequences", "inputs"],
"all histories of adding shapes, fields and records and saving, over several writers, with write errors at any point",
NOTEST + "Needs multi-step histories across saves, instances and failures.",
["coral/shapefile.py"],
[("Writer.save/saveShp/saveShx/saveDbf", "coral/shapefile.py"), ("Writer.poly, Writer.record", "coral/shapefile.py")],
[("Writer._shapes/records/fields", "content", "coral/shapefile.py"), ("Writer._offsets/_lengths", "per-save positions", "coral/shapefile.py")],
["files written by shapefile.Writer.save"])

prop("C08", "Shapefiles: interrupted saves are detected, never read as data",
"""If the process dies or an I/O error occurs at any point of saving a shapefile by path, also over an older shapefile of the same name, then opening that name later
either fails or yields only shapes and records of one single save, each exactly as saved and each record with its own shape.
A save that returned normally is complete on disk, and a save that lost data raises.
Reading a .shp, .shx or .dbf that was cut short terminates with an error or with a correct prefix of the data.""",
["crash_points", "fault_sequences", "histories"],
"every crash instant and failing write during a save, with and without an older data set, and every cut length of each file",
NOTEST + "Crash points inside a three-file save are unreachable for unit tests.",
["coral/shapefile.py"],
[("Writer.save writes .shp, .shx and .dbf in order", "coral/shapefile.py"), ("Reader requires all three files", "coral/shapefile.py")],
[("order of the three files", "the .dbf completes a save", "coral/shapefile.py")],
["shapefile.Writer.save", "shapefile.Reader"])

prop("C09", "Shapefile to P conversion is exact or fails loudly",
"""Converting a shapefile of polygons or polylines to a P file gives one entity per record, in record order, named from that record and with
exactly the parts of its own shape, each coordinate within the P format's quantisation error; the returned errors describe exactly the points stored.
Any I/O error while reading the source or writing the result makes the conversion raise.
If it is interrupted at any point, the result file reads as an error or as a correct prefix, the source is left untouched, and running the conversion again gives the full result.""",
["inputs", "crash_points", "fault_sequences"],
"all polygon and polyline shapefiles and sizes; read and write errors, short transfers and crashes at every point",
NOTEST + "The conversion crosses two file formats, with failures possible on both sides.",
["coral/pf.py", "coral/shapefile.py"],
[("sf2pf", "coral/pf.py")],
[], ["pf.sf2pf", "pf.Reader"])

prop("C10", "Vector canvas: the saved document paints exactly what was requested",
"""Interpreting the saved PostScript paints exactly the requested items, in request order: every shape, text and image has the geometry given and every fill and stroke uses the
ink it was given, and strokes use the line width and dash pattern last set, whatever was drawn, set or copied before. The background covers the page first, the bounding box and scaling in the
document match the canvas extent, size and margin, and texts are shown verbatim. Copies of a canvas and other canvases are unaffected by later drawing, and caller-owned lists may be reused after the call.""",
["histories", "inputs"],
"all histories of drawing, ink/width/dash changes, copies and saves over several canvases",
NOTEST + "The emitted program depends on cached graphics state, so each item's appearance depends on the whole preceding history.",
["coral/vector.py", "coral/defs.ps"],
[("cached graphics state skips redundant operators", "coral/vector.py"), ("save assembles prologue, background, transform, body", "coral/vector.py")],
[("Canvas.state", "what the PostScript graphics state is believed to be", "coral/vector.py"), ("Canvas.deps", "text procedures needed", "coral/vector.py")],
["file written by vector.Canvas.save, interpreted"])

prop("C11", "Export and animation: right picture, no interference, no leftovers",
"""Each export renders exactly its own canvas to its own output path and returns the renderer's exit status, even when several exports and animations run concurrently in threads or processes
of one machine; output paths may contain spaces and quotes. An animation contains its frames in order, all with one common extent covering every frame.
Temporary files are gone afterwards, also when saving, starting the renderer or rendering fails, and an I/O error is raised or reported as a non-zero status, never as success.""",
["schedules", "fault_sequences", "inputs"],
"all interleavings of concurrent exports and animations at file-system and process steps; renderer failures, failing writes, failing process start",
NOTEST + "Needs the renderer (not installed), concurrent callers and failing disks.",
["coral/vector.py"],
[("Canvas.export via a temporary document", "coral/vector.py"), ("animation", "coral/vector.py")],
[("temporary document", "handed to the renderer", "coral/vector.py")],
["output files, return values, temporary directory"])

prop("C12", "Progress bar: transparent iteration, paced and correct display under any clock",
"""Wrapping an iterable in the progress bar yields exactly its items, in order, each requested from the source only when the consumer asks, and passes on
the source's exceptions and early close; sized or not, and whatever the clock does (jumps, stalls, runs backwards).
While iterating with a forward clock the display is updated exactly when an item is done and both the minimum interval and the minimum iterations have passed since the last update,
and each update shows the true count and elapsed time with the fraction, rate and remaining time that follow from them.
At the end the terminal line shows the final count with no residue of earlier updates, or is left blank if asked not to leave it, and nothing is written to any other stream.""",
["schedules", "inputs", "histories"],
"all clock behaviours (simulated), item timings, totals, option settings, consumer behaviours and interleavings of several bars",
NOTEST + "Depends on the wall clock and a terminal.",
["coral/tqdm.py"],
[("tqdm generator", "coral/tqdm.py"), ("StatusPrinter overwrites the line", "coral/tqdm.py")],
[("last_print_n/last_print_t", "pacing", "coral/tqdm.py"), ("last_printed_len", "residue clearing", "coral/tqdm.py")],
["items yielded, simulated terminal"])

prop("C13", "Table files: faithful round trip, each value under its own column",
"""A table written to a file and read back has the same columns and rows, for any separator and for text values free of separator, comment, line-break and surrounding blank characters;
selecting columns on writing or on reading, in any order, gives every value under its own column name, and comments and blank lines are ignored.
If writing returns normally everything is stored, and an I/O error is raised, never swallowed.
Reading any file, also empty or cut short by a crash at any byte, terminates with an error or with rows of which all but the last are exactly those written.""",
["inputs", "crash_points", "fault_sequences"],
"all tables, separators, column selections; crash at any byte, short and failing reads and writes",
NOTEST + "Includes termination on every truncated file.",
["coral/table.py"],
[("writefile", "coral/table.py"), ("readfile", "coral/table.py")],
[], ["table.readfile", "table.writefile"])

prop("C14", "Map frames: saved frames and name caches load back equivalent",
"""A frame saved to a file and loaded again projects every point to the same place (up to rounding) and has the same bounding box, for every projection with a centre, spherical or ellipsoidal.
The cached name list of a frame is exactly the names of the entities with a polygon whose projected bounding box overlaps the frame's, in file order; its count is returned and it loads back identical.
I/O errors are raised; if saving dies at any point, loading the frame fails or gives that exact frame, never a different one.""",
["inputs", "crash_points", "fault_sequences"],
"all projections, centres, earth models and boxes; crash and I/O errors at any point of saving, caching and loading",
NOTEST + "One branch of loading is not reachable from the tests at all.",
["coral/frame.py"],
[("Frame.save / load", "coral/frame.py"), ("Frame.cachenames / loadnames", "coral/frame.py")],
[], ["frame.load", "frame.Frame.loadnames"])

prop("C15", "Raster canvas: independent pixels and faithful image files",
"""A raster canvas starts entirely in its background colour, and after any history of pixel, line and polygon drawing each pixel reads as the last colour put (or blended) on it while all other pixels are unchanged;
a line sets exactly the pixels of one connected straight run between its ends (anti-aliased: shares the colour among the two pixels nearest to it in each step, half of it at the ends), and filling clockwise polygons,
also several that meet or overlap, sets exactly their interior, up to every border of the canvas.
A saved image decodes, by the rules of its format, to exactly the canvas's size and pixels at the moment of saving.
Save returns normally only if the whole file was written; an I/O error is raised.""",
["histories", "inputs", "fault_sequences"],
"all sizes (also not multiples of 8), colours, drawing histories on several canvases, short and failing writes",
NOTEST + "Pixel packing depends on every size and coordinate; write failures are not sampled.",
["coral/raster.py"],
[("BWCanvas/GrayCanvas/ColorCanvas __getitem__/__setitem__/save", "coral/raster.py"), ("line, scanpolygon, fillpolygons", "coral/raster.py")],
[("data", "packed pixels", "coral/raster.py")],
["canvas[x, y]", "bytes of saved files"])

prop("C16", "Statistics: memoisation is invisible",
"""Every statistic returns the value its definition gives for its argument (up to rounding), whatever was computed before: cache hits, evictions, clearing and concurrent callers never change a result.
Clearing forgets every argument and the cache information then reports no hits, misses or entries; otherwise every call of a statistic is counted, an immediate repetition as a hit, hits and misses never decrease and the
number of entries never exceeds the reported capacity.
A computation that raises (wrong element type, empty sequence) raises every time and leaves all later results correct.""",
["histories", "schedules", "inputs"],
"all call histories with hits, evictions and clears, and interleavings of concurrent callers",
NOTEST + "Cached results depend on the call history.",
["coral/stats.py"],
[("lru_cache memoisation of nested functions", "coral/stats.py")],
[("memo caches", "shared by all callers", "coral/stats.py")],
["coral.stats functions"])

prop("C17", "Vertex buffer: behaves as a bounded double-ended queue for ever",
"""A vertex buffer of capacity n behaves, for every history of operations, as a queue of at most n items: push appends, pop removes and returns the newest, shift removes and returns the oldest,
peek returns the newest without removing it, and emptiness, fullness and the printed content reflect exactly the items held. Pushing onto a full buffer and taking from or peeking at an empty one
are refused with an error and change nothing. This stays true over arbitrarily many wrap-arounds and for all power-of-two capacities; other capacities are refused.""",
["histories", "schedules"],
"all operation histories, capacities and interleavings of producers and consumers over several buffers",
"The one test runs a single scripted history on capacity 4 and never peeks; wrap-around states are reached by few histories.",
["coral/coord.py"],
[("Buffer with doubled index range", "coral/coord.py")],
[("s, e", "start and end counters modulo 2n", "coral/coord.py")],
["coord.Buffer methods"])

prop("C18", "Line simplification is a lazy, bounded, exact stream transformer",
"""Simplifying an open line yields its vertices snapped to the nearest grid point (halves away from zero) in order, keeping both ends and dropping exactly the vertices collinear with their neighbours and the back-and-forth slits
within the buffer size, but not the corner at the base of a slit;
lines of any length, also empty or single-point, are handled. The result depends only on the points, not on when the consumer pulls, on other streams simplified at the same time, or on how the points arrive;
output is delivered while input is still arriving, with never more than the buffer size of vertices held back, and an error in the source is passed on after a correct prefix.""",
["schedules", "inputs", "fault_sequences"],
"all point streams, buffer sizes, pull schedules, interleavings of several streams and source failures at any point",
"No test calls it; the claim quantifies over pull schedules and source failures.",
["coral/coord.py"],
[("sqr_fit, open_no_slit, simplify", "coral/coord.py"), ("Buffer", "coral/coord.py")],
[("Buffer", "held-back vertices", "coral/coord.py")],
["coord.simplify(closed=False)"])

prop("C19", "Separate objects used from separate threads do not interfere",
"""Threads that each work through their own objects - data set and shapefile writers and readers (also several readers of one file), canvases, progress bars, simplification streams, table pipelines and statistics -
get exactly the results and files they would get running alone, for every interleaving of the threads at any point. Objects created later behave the same as those created first: no call leaves hidden state behind that
changes what another object does.""",
["schedules", "histories", "programs"],
"all thread interleavings (pre-emption at any source line or I/O step) of programs that share no objects, and all orders of earlier calls",
"The tests are single-threaded and each runs on fresh objects.",
["coral/rg.py", "coral/pf.py", "coral/shapefile.py", "coral/vector.py", "coral/raster.py", "coral/tqdm.py", "coral/coord.py", "coral/table.py", "coral/stats.py"],
[("all state is held in objects; module state is read-only or memo caches", "coral/")],
[("module-level and default-argument state", "must not carry information between objects", "coral/")],
["results per thread compared with a solo run"])

prop("C20", "Map pipeline: lazily streamed drawing equals step-by-step drawing",
"""Drawing a map as the documentation shows (read shapes, filter by attribute, project, simplify, add to a canvas under a progress bar, save) yields the document that evaluating each stage completely before the next would yield,
whatever the clock, buffering and pull order of the stages.
If reading fails part-way the error reaches the caller, and retrying after the fault is gone gives the same document as an undisturbed run.""",
["schedules", "fault_sequences", "inputs"],
"all shapefiles, projections, clocks, I/O buffer sizes and transient read or write errors at any point of the pipeline",
"No test covers the pipeline; laziness, shared file positions and faults interact across five modules.",
["coral/shapefile.py", "coral/tqdm.py", "coral/proj.py", "coral/coord.py", "coral/vector.py"],
[("lazy generators composed end to end", "README.rst")],
[], ["saved document"])

prop("C21", "Simplifying a closed ring keeps the outline it encloses",
"""Simplifying a ring (simplify with closed=True, the default of Frame.planify) yields vertices of the ring snapped to the grid, in their order around it and possibly from another start, that enclose the same area and
go around every point off the outline as often; a ring that repeats its first point comes out closed, one that does not does not, one without area shrinks to a point, and corners of a ring that never turns back on itself
are exactly the ones kept.
Output is delivered while input is still arriving, with a bounded number of corners held back, and depends only on the points, not on when the consumer pulls, on other rings simplified at the same time or on how the points arrive.
An error in the source is passed on.""",
["schedules", "inputs", "fault_sequences"],
"all rings, buffer sizes, pull schedules, interleavings of several rings and source failures at any point",
"No test calls it; outlines are right or wrong only over all start vertices, slits and lengths around the buffer size, and the claim quantifies over pull schedules.",
["coral/coord.py", "coral/frame.py"],
[("closed_no_slit, simplify", "coral/coord.py"), ("Frame.planify", "coral/frame.py")],
[("head and tail of the ring", "corners held back around the start", "coral/coord.py")],
["coord.simplify(closed=True)", "Frame.planify"])

prop("C22", "Table pipelines: exact rows and columns, computed lazily and in order",
"""Joining tables (every row of the first with the first matching row of the second, empty texts where there is none), finding, indexing, adding and deleting columns and printing yield exactly the rows and columns their
definition gives, in the order of the rows and with the columns in the same order in every process (those of the first table, then the new ones); the tables given are never changed.
Finding all, adding and deleting are lazy: a row is computed when it is pulled, the column function is called once per row in order, and its error reaches the caller after the rows before it.
None of this depends on pull order, on stopping early or on other pipelines running at the same time.""",
["inputs", "schedules", "fault_sequences"],
"all tables, chains of operations, pull schedules, hash seeds and failures of column functions or of the terminal",
NOTEST + "Column order depended on the hash seed of the process, which a test run samples once.",
["coral/table.py"],
[("join, getone, getall, indexby, addkey, delkeys, pprint", "coral/table.py")],
[], ["table functions other than readfile and writefile"])

# --- properties that hold no schedule, clock, fault or interleaving -------------------------------------------------
PURE = "The single doctest and the tests sample a few values."
prop("N01", "Projections: inverse undoes forward within the projection's domain",
"For every projection and every point of its domain, converting to the plane and back returns the point up to rounding, and the iterative inverses terminate.",
["inputs"], "all projections, centres and points", PURE, ["coral/proj.py"], [("geo2rect/rect2geo", "coral/proj.py")])
prop("N02", "Geodesy: distance, bearing, destination, midpoint and centroid are consistent",
"Going from one point the computed distance along the computed bearing reaches the other point, and the midpoint is equidistant from both ends.",
["inputs"], "all pairs of points on the sphere", PURE, ["coral/coord.py"], [("haversine, bearing, destination, midpoint, geocentroid", "coral/coord.py")])
prop("N03", "Bounding boxes form a consistent algebra",
"Union covers both boxes, intersection lies in both, containment agrees with coordinates, and translating or scaling keeps size relations.",
["inputs"], "all boxes and points", "The tests sample three boxes.", ["coral/bbox.py"], [("BBox operators", "coral/bbox.py")])
prop("N04", "Name matching scores and abbreviations follow their definitions",
"String distances are symmetric, zero only for equal names and bounded, and the best-scoring candidate is chosen for each key.",
["inputs"], "all names", PURE, ["coral/names.py"], [("damlev, jaro, mapping", "coral/names.py")])
prop("N05", "Colour gradients interpolate between their stops",
"A gradient returns each stop's colour at its position and a convex combination of the neighbouring stops between them.",
["inputs"], "all gradients and positions", PURE, ["coral/gradient.py"], [("Gradient.get", "coral/gradient.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["statement"] = " ".join(p["statement"].split())
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
