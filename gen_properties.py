#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
MAP = ["src/geomap/cppmap.cxx", "src/geomap/cppmap.hxx"]
POLY = ["src/geomap/polygon.hxx"]
CELL = ["src/cellimage/foureightsegmentation.cxx", "src/cellimage/foureightsegmentation.hxx"]
PYB = ["src/python_bindings/cppmapmodule.cxx", "src/python_bindings/polygon.cxx"]
NOT = "No stable test constructs a polygonal map at all; and a sample of maps cannot cover "

p("C01", "Successor and predecessor around a node stay mutually inverse",
  "After every graph or map operation that returns (adding, removing, splitting, merging or sorting edges, loading an order, copying a map), stepping to the next dart around a node and then back yields the dart one started from, for every live dart. Stepping around a node therefore always enumerates each of its darts exactly once, in both directions; a node's anchor is one of its darts, and the end-node labels of split and merged edges name the nodes their darts start at.",
  ["inputs", "histories"], "all maps, all operation sequences, all branches (degree-1 ends, self-loops, array growth)",
  NOT + "all configurations of degree-1 ends, loops and array growth.",
  MAP, "dataflow with value numbering: on every path to an exit each write of one permutation array is matched by the mirrored write of the other, and the values written form a permutation of the old ones")
p("C02", "Cell counts equal the number of live cells",
  "The reported node, edge and face counts always equal the number of cells one can enumerate. Every topological operation changes them by exactly its Euler deltas on success (splitting an edge: one node and one edge more; merging edges: one node and one edge fewer; merging faces: one edge and one face fewer; removing a bridge: one edge fewer), and by nothing when it is refused.",
  ["inputs", "histories"], "all maps and operation sequences", NOT + "all success, veto and special-case paths of each operation.",
  MAP, "per-path counting of cell registrations/de-registrations; constructor and un-registration pairing of slot, counter and back pointer")
p("C03", "The spatial node index mirrors the set of live nodes",
  "Looking up the nearest node only ever returns live nodes, and finds every live node at its current position: creating, moving, copying and removing a node each update the spatial index, with that node's own entry (also when two nodes share a position), in the same step.",
  ["inputs", "histories"], "all histories of adding, moving, copying, removing nodes", NOT + "all histories of node changes.",
  MAP, "pairing of node creation/position writes/removal with index insert/erase on every path")
p("C04", "Refused operations leave the map untouched",
  "When a single operation of a map (adding, removing, splitting, merging, sorting, relabelling, initialising, toggling the label image) refuses its arguments with an error, or a registered pre-operation callback vetoes it, the map is observably unchanged: no cell, label, orbit, contour, count, polygon or label-image pixel differs from before the call.",
  ["inputs", "fault_sequences", "histories"], "all operations, all refusal points, all veto positions", NOT + "every refusal point of every operation.",
  MAP, "effect-before-check analysis: no write to map state may precede a refusing exit on any path")
p("C05", "Callbacks bracket each map operation exactly once and can veto it",
  "Every successful merge, split or bridge removal calls its pre-operation callbacks exactly once before anything is modified and its post-operation callbacks exactly once after the topology and the geometry have been changed, with the surviving cell (handing released pixels over to the survivor may come later). A callback that returns false stops further pre-callbacks, cancels the operation with an empty result, and suppresses its post callbacks.",
  ["inputs", "histories", "fault_sequences"], "all operations, all callback answers", NOT + "every callback answer at every operation.",
  MAP + ["src/python_bindings/cppmapmodule.cxx"], "typestate of hook calls over the control flow of each operation; accumulator semantics")
p("C06", "Cached polygon measures always describe the current points",
  "Length, area and bounding box reported for a polygon or edge are those of its current points, whatever mixture of queries and public point changes (append, insert, erase, set, swap, reverse, split, extend, assign, clear, moving a node) preceded; the cached scan lines of an edge follow splitting and concatenation.",
  ["inputs", "histories"], "all interleavings of queries and mutations", "Unit tests sample no interleaving of cached queries with mutations; the caches only fail after a particular query/mutation order.",
  POLY + MAP, "every path that modifies the point array drops or updates each derived cache before returning")
p("C07", "Label image stays in step with edges and faces",
  "While a map keeps a label image, every operation on it that changes edges or faces (merging and splitting edges, removing bridges, merging and relabelling faces, building the image) un-marks the old edge geometry and marks the new one exactly once, redirects the labels of a merged face to the survivor, and hands released pixels (and only those) to the surviving face, so pixel lookups always yield the live face covering the pixel.",
  ["inputs", "histories"], "all maps with label images and all operation sequences, including toggling the label image", NOT + "label-image bookkeeping along all operation sequences.",
  MAP + ["src/geomap/labellut.hxx"], "per-path mark/unmark balance keyed by edge and geometry version; relabel/association pairing")
p("C08", "Face areas and bounds survive topological changes",
  "A face's reported area, bounding box and pixel area after merging faces or embedding contours are those of its current contours and pixels, whether or not they had been queried (cached) before; the outer contour stays first; copying a map preserves the values.",
  ["inputs", "histories"], "all interleavings of queries, merges and removals", NOT + "all interleavings of cached queries and merges.",
  MAP, "cache-flag/value pairing on every path that changes a face's contours")
p("C09", "Handles to removed cells fail cleanly instead of crashing",
  "Using a handle (node, edge, face or dart) whose cell was removed, or whose map was destroyed, either still answers purely local questions or raises an error; it never dereferences a removed cell or a destroyed map.",
  ["inputs", "histories"], "all operations on handles after any history", NOT + "all uses of handles after all removals.",
  MAP + ["src/python_bindings/cppmapmodule.cxx"], "guard-before-dereference dataflow on back pointers and possibly-empty cell lookups in every public operation")
p("C10", "Graph-only and map-only operations are refused in the wrong phase",
  "Operations that would silently corrupt or need missing faces are refused with an error in the wrong phase: construction and sorting after faces exist, face queries and relabelling before faces exist, initialising twice, a label image without image size.",
  ["histories", "inputs"], "all operation orders", NOT + "all operation orders.",
  MAP, "must-pass-through: phase check dominates every effect of each phase-restricted entry point")
p("C11", "Indexing from Python is bounds-checked at both ends",
  "Every index or label passed from Python to an exported item access, insertion, removal or lookup (points, scan lines, contours, cells, darts, label tables, saddles) is checked against both bounds before it selects an element; out-of-range access raises an error rather than touching memory outside the container.",
  ["inputs"], "all integer indices", "Tests index only valid positions.",
  PYB + ["src/cellimage/cellimage_module.hxx", "src/python_bindings/subpixel_watersheds.cxx"], "guard analysis: each exported index reaches element access only under lower- and upper-bound checks")
p("C12", "Python objects keep what they refer to alive",
  "An object obtained from Python that refers into another object's memory (iterators, darts, points, cells, labels, wrapped functors) keeps that owner alive, so no order of dropping references in a script leads to use of freed memory.",
  ["programs", "histories"], "all Python programs / drop orders", "Lifetime bugs depend on garbage collection order and do not fail deterministic tests.",
  PYB + ["src/python_bindings/exporthelpers.hxx", "src/cellimage/cellimage_dart+info.cxx"], "ownership-policy check over every binding registration whose result refers into an argument")
p("C13", "Pickling restores everything that is saved",
  "Saving and restoring a map, polygon, bounding box, straight line, edge protection or statistics object through the Python pickle protocol reproduces its observable state: every part that makes up the object (for a map: nodes, edges and their labels including gaps, orbit order, sortedness, faces, face labels, label image presence, flags, Python attributes) is written, and read back in the same order and into the same part.",
  ["inputs", "histories"], "all states of all picklable objects", "Tests pickle none of these classes.",
  ["src/python_bindings/cppmapmodule.cxx", "src/python_bindings/polygon.cxx", "src/python_bindings/statistics.cxx"], "writer/reader table agreement between getstate/getinitargs and setstate/constructor")
p("C14", "Copies are complete and independent",
  "Copying a map, a cell image segmentation, a polygon, scan lines or statistics yields an object with the same observable state that shares no mutable part with the original, so later changes to either never show up in the other. (Callbacks, connections and purely derived caches are deliberately not copied.)",
  ["inputs", "histories"], "all states, all later modifications", "Tests compare at most a few copies and never mutate afterwards.",
  MAP + CELL + ["src/geomap/polygon.hxx", "src/cellimage/cellstatistics.cxx"], "every data member transferred by each user-written copy operation, and every owned pointer duplicated")
p("C15", "Owned memory is released exactly once",
  "Every object that allocates memory releases it exactly once over its life: destroying, copying, assigning, resizing, or dropping the label image neither leaks nor double-frees.",
  ["inputs", "histories"], "all lifetimes", "Leaks and double frees are invisible to functional tests.",
  MAP + CELL + ["src/geomap/facestatistics.hxx", "src/cellimage/cellpyramid.hxx"], "ownership analysis of raw-pointer members: release on destruction and on every overwrite; copy operations defined or forbidden")
p("C16", "Observers never outlive their registration",
  "Objects that attach themselves to a map's callbacks detach again when told to and when destroyed, so later operations on the map never call into a destroyed observer.",
  ["histories"], "all create/attach/detach/destroy orders", "Needs destruction of an observer before its map and another operation afterwards.",
  ["src/geomap/facestatistics.hxx", "src/geomap/cppmap_utils.cxx", "src/geomap/cppmap_utils.hxx", "src/python_bindings/cppmapmodule.cxx"], "every stored connection is disconnected by detach and by destruction")
p("C17", "Protected edges are never removed by merging",
  "While edge protection is active, no face merge or bridge removal succeeds if it would remove a protected edge, and two edges are merged only if they carry equal flags. Independent of that, splitting an edge copies its flags, removing one of two parallel edges hands its flags to the other, and completely merging two faces gives up if a common edge is protected.",
  ["inputs", "histories"], "all flag combinations, all operations", NOT + "all flag combinations.",
  ["src/geomap/cppmap_utils.cxx", "src/geomap/cppmap_utils.hxx"] + MAP, "callback result analysis of the protection observer; flag propagation on split/merge")
p("C18", "Cell-image Euler operations keep counts, labels and sizes consistent",
  "In the cell-image segmentation every Euler operation (removing an isolated node, removing a bridge, merging faces, merging edges) lowers exactly the right cell counts, relabels every pixel of the removed cells to the survivor, adds their sizes and bounds to the survivor, and refuses unsuitable arguments before changing anything.",
  ["inputs", "histories"], "all segmentations and operation sequences", "The stable tests run a handful of operations on one small image.",
  CELL, "per-path effect pairing in each Euler operation and its helpers")
p("C19", "Pyramid history replays to the same segmentation",
  "For every level of a segmentation pyramid, the recorded history contains exactly the operations that were performed, in order; replaying dispatches each recorded operation to the same Euler operation with statistics updated before and after; a failed operation is not recorded.",
  ["histories", "fault_sequences"], "all operation histories and levels", "Tests visit few levels and no failures.",
  ["src/cellimage/cellpyramid.hxx"], "dispatch-table exhaustiveness and record/perform pairing, including exceptional paths")
p("C20", "Rasterisation never writes outside the image",
  "Drawing, filling, marking or un-marking polygons and edges (which are rasterised through scan lines), scanning a face's pixels and looking up labels at computed positions touch only pixels inside the given image, for polygons that lie partly or completely outside it.",
  ["inputs"], "all polygons and image sizes", "Tests draw nothing outside an image; out-of-range writes rarely crash.",
  ["src/geomap/polygon.hxx", "src/geomap/cppmap.cxx"], "bounds dataflow: every pixel access index is clipped on both sides in both axes on every path")
p("C21", "Merged-label lookup is transitively consistent",
  "After any sequence of merges recorded in the face-label table, every label ever merged resolves to its current survivor, labels not involved are unaffected, and the list of merged labels of a survivor is complete; the map records every face merge in its table.",
  ["histories", "inputs"], "all merge sequences", NOT + "all merge sequences.",
  ["src/geomap/labellut.hxx"], "loop/effect analysis of the table's relabel and append operations")
p("C22", "Region statistics follow merges and pixel hand-overs",
  "Per-face colour statistics attached to a map, and cell statistics attached to a pyramid, follow merges: each merge folds the removed cell's statistics into the survivor's exactly once, and pixels released by removed edges are added exactly once.",
  ["histories", "inputs"], "all merge histories", NOT + "all merge histories.",
  ["src/geomap/facestatistics.hxx", "src/cellimage/cellstatistics.cxx", "src/cellimage/cellstatistics.hxx"], "pre/post callback typestate and exactly-once merge per successful operation")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
