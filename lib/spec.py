"""The properties: text, anchors, bounds. gen.py turns this into
properties.jsonl and MANIFEST.json."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, bound, technique, note,
      level="model_checking", observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                      files=files.split(), mech=mech, bound=bound, technique=technique, note=note, level=level,
                      observe=observe or [], state=state or []))


D = "src/domain/"
U = "src/utils/"
A = "src/app/openemsh.cpp"

HIST = "explicit-state model checking of the real classes against a reference model"
SEQ = "exhaustive exploration of operation sequences on the real code against a reference model"
ENUM = "bounded-exhaustive enumeration of inputs on the real code against a reference model"

# ------------------------------------------------------------------ history
P("H01", "Remembered timepoints form a linear undo/redo history",
  "Undo and redo move back and forth over the timepoints that were remembered, in the order they were remembered, one at a time, and report whether there is somewhere to go exactly when there is. Remembering a timepoint after some undos discards the ones that could have been redone, and only them. A reset, or forgetting the history, leaves nothing to undo or redo.",
  "histories", "every sequence of records, moves, remembers, undos, redos, collections and resets",
  "tests follow a few hand-written sequences; the promise is about every interleaving of moving, recording and remembering",
  U + "state_management.cpp " + U + "state_management.hpp",
  [dict(name="Caretaker::remember_current_timepoint / undo / redo / can_undo / can_redo", where=U + "state_management.cpp")],
  dict(quick="every operation sequence up to depth 5 (raw) and 7-8 over reduced alphabets, 2 objects, 2 values, up to 6 timepoints",
       thorough="one to two levels deeper"),
  HIST, "Bounded: complete for the stated depth and alphabet; the model is a list with a cursor.")

P("H02", "Going to a timepoint restores every object as it was there",
  "After moving to any live timepoint (by undo, redo or directly), every tracked object shows the state that was last recorded for it on the path from the origin of history to that timepoint, whatever was recorded on other branches. Moving back and forth any number of times changes nothing.",
  "histories", "every history tree and every way of walking it, several objects recorded at different timepoints",
  "tests check single moves on two or three hand-made trees",
  U + "state_management.cpp " + U + "state_management.hpp",
  [dict(name="Caretaker::go_to / Originator::go", where=U + "state_management.hpp")],
  dict(quick="every operation sequence up to depth 5 (raw) and more over reduced alphabets, 2 objects, up to 6 timepoints", thorough="one to two levels deeper"),
  HIST, "Bounded: complete for the stated depth and alphabet.")

P("H03", "Discarding history keeps what is reachable and frees the rest",
  "Collecting garbage keeps every timepoint on the way to the current one, to a remembered one or to a pinned one, together with the states recorded there and the notes attached to them, and discards all other timepoints, their states and their notes. What is displayed does not change. A reset starts over with an empty history and no notes.",
  "histories", "every history tree, set of remembered timepoints and pins, annotations and current position",
  "tests collect one or two hand-made trees; use-after-free only shows with particular shapes",
  U + "state_management.cpp " + U + "state_management.hpp " + U + "tree_node.hpp",
  [dict(name="Caretaker::garbage_collector / reset / annotate_timepoint", where=U + "state_management.cpp"),
   dict(name="Originator::erase", where=U + "state_management.hpp")],
  dict(quick="every operation sequence up to depth 5 (raw) and more over reduced alphabets; address sanitizer on", thorough="one to two levels deeper"),
  HIST, "Bounded: complete for the stated depth and alphabet; memory errors are seen by ASan.")

P("H04", "Queries on the tree of timepoints are exact",
  "On any tree, the ancestors, descendants, leaves, depth order, relations and common ancestors that are reported are exactly those of the tree, and erasing nodes removes exactly the given nodes.",
  "inputs", "every tree shape up to the bound, every pair of nodes, every erasable subset",
  "tests use one tree",
  U + "tree_node.hpp",
  [dict(name="TreeNode", where=U + "tree_node.hpp")],
  dict(quick="every rooted ordered tree with up to 6 nodes", thorough="up to 8 nodes"),
  ENUM, "Bounded: complete up to the tree size. Reference: parent array.")

# -------------------------------------------------------------- application
P("A01", "Processing stepwise or in one go gives the same mesh",
  "However the fifteen processing steps are cut into successive runs (one go, step by step, up to a step and then on), the resulting board, conflicts, policies, intervals and lines are the same, and each step becomes a place in history that can be gone back to.",
  "inputs histories", "every partition of the steps, on every document of the corpus",
  "tests run single steps in isolation or everything in one go",
  A + " " + D + "board.cpp",
  [dict(name="OpenEMSH::run / run_all_steps / run_next_step / run_from_step", where=A)],
  dict(quick="all cuts of the 15 steps with few cuts or few uncut pairs, 10 documents", thorough="all 2^14 partitions, 10 documents"),
  SEQ, "Reference: forward one-shot run on a fresh document.")

P("A02", "Going back and running again equals a fresh run",
  "After any mix of running steps and going back to before a step, what is displayed is exactly what a fresh document shows after the same steps: nothing remains of what was gone back over, and nothing that was there before is lost.",
  "histories", "every sequence of run / run next / run from / go before / go before previous up to a depth, on every document of the corpus",
  "no test goes back in a real document with all the steps",
  A + " " + U + "state_management.cpp " + D + "board.cpp " + D + "conflict_manager.cpp " + D + "meshline_policy_manager.cpp",
  [dict(name="OpenEMSH::go_before / go_before_previous_step", where=A), dict(name="Caretaker tracked objects", where=U + "state_management.hpp")],
  dict(quick="operation sequences up to depth 3-4, 10 documents", thorough="depth 6"),
  SEQ, "Reference: forward run on a fresh document; full dump of the observable state compared.")

P("A03", "Undo and redo restore the exact state of the document",
  "After any mix of runs, editions, going back, undos and redos, what an undo or redo displays is exactly what was displayed when that timepoint was remembered.",
  "histories", "every sequence of runs, going back, editions, undos and redos up to a depth, on every document of the corpus",
  "tests undo single objects, not a document",
  A + " " + U + "state_management.cpp " + D + "board.cpp",
  [dict(name="Caretaker::undo / redo", where=U + "state_management.cpp"), dict(name="OpenEMSH::run", where=A)],
  dict(quick="operation sequences up to depth 3-4, 10 documents", thorough="depth 6"),
  SEQ, "Reference: own timeline plus forward run on a fresh document.")

P("A04", "What is offered to the user matches what is possible",
  "At any time, whether a next step can be run, which one it is, which steps can be gone back to, which step the document is at, and whether undo or redo is possible are reported exactly. Running the next step after going back runs the first step that is not done, or the one an edition was made for.",
  "histories", "every sequence of runs, going back, editions, undos and redos up to a depth, on every document of the corpus",
  "tests do not combine going back, editing and undoing",
  A + " " + A.replace(".cpp", ".hpp"),
  [dict(name="OpenEMSH::can_run_a_next_step / can_go_before / get_current_step / get_next_step", where=A)],
  dict(quick="operation sequences up to depth 3-4, 10 documents", thorough="depth 6"),
  SEQ, "Reference: own timeline.")

P("A05", "Editing and re-running equals a fresh run with the edition",
  "When the user edits a displayed object (global parameters, an edge, an angle, a policy, an interval, a conflict, a zone) and the steps that depend on it are run again, the outcome is what a fresh document gives when the same edition is made before these steps. Steps before the edition are untouched.",
  "histories inputs", "every edition of the alphabet, from every displayed step, followed by any runs, undos and redos up to a depth",
  "no test edits an object in the middle of a history",
  A + " " + D + "global.cpp " + D + "geometrics/edge.cpp " + D + "mesh/meshline_policy.cpp " + D + "mesh/interval.cpp",
  [dict(name="OpenEMSH::go_before + Originator::set_next_state + run_from_step", where=A)],
  dict(quick="sequences with one or two editions up to depth 3, 10 documents", thorough="depth 4"),
  SEQ, "Derived conflict links a dialog commits back are not compared.")

# --------------------------------------------------------------------- mesh
MM = D + "mesh/interval.cpp " + D + "meshline_policy_manager.cpp " + D + "mesh/meshline_policy.cpp"
MB = dict(quick="1-3 policies, every kind, 6 gap sizes, smoothness {1,1.1,1.5,2} x lmin {0,1,2,5} x dmax {0.7,2.5,10}; 5 positions each with none, an enabled, a disabled or both policies, 3 gaps, 4 patterns of kinds, 4 settings; the 10 documents under the same parameters",
          thorough="1-4 policies, 8 gap sizes, same parameters")
MN = "Bounded: complete for the stated alphabet; checked on the lines the real code produces, 1e-6 tolerance."


def M(id, title, st, mech, **kw):
    P(id, title, st, "inputs configurations", "every arrangement of up to 3 (4) meshline policies of every kind and gap size, and every document of the corpus, for every combination of the meshing parameters",
      "tests mesh a few fixed intervals with a few parameters", MM, mech, MB, ENUM, MN, **kw)


M("M01", "Mesh lines are sorted, distinct, and span the structure",
  "On each axis, the mesh lines are finite, strictly increasing, and stay between the first and the last meshline policy. There is a line at the middle of every interval between two neighbour policies, and a line exactly at every single-line policy.",
  [dict(name="MeshlinePolicyManager::mesh", where=D + "meshline_policy_manager.cpp"), dict(name="Interval::mesh", where=D + "mesh/interval.cpp")])
M("M02", "No mesh cell is larger than the maximum",
  "On each axis, the distance between two successive mesh lines never exceeds the maximum distance parameter.",
  [dict(name="Interval::auto_solve_d, find_ls", where=D + "mesh/interval.cpp")])
M("M03", "Cells grow progressively",
  "Going away from a meshline policy towards the middle of an interval, a cell is never larger than the smoothness factor times the previous one, the first one being the distance around the policy. Two neighbour cells of an axis never differ by more than the smoothness factor.",
  [dict(name="is_ls_valid_for_dmax_lmin_smoothness, auto_solve_smoothness", where=D + "mesh/interval.cpp")])
M("M04", "Every half interval has its minimum number of lines",
  "Between a meshline policy and the middle of each interval next to it, there are at least as many lines as the minimum parameter tells.",
  [dict(name="Interval::adjust_d_for_dmax_lmin", where=D + "mesh/interval.cpp")])
M("M05", "Lines around a policy are placed by its rule",
  "A single-line policy gets a line on itself. A policy of halves is at the middle of the cell around it, and a policy of thirds splits its cell one third on the metal side and two thirds on the other side; at both ends of an axis, the same fractions of the distance around the policy apply.",
  [dict(name="Interval sides d_init", where=D + "mesh/interval.cpp"), dict(name="MeshlinePolicyManager::mesh", where=D + "meshline_policy_manager.cpp")])
P("M06", "Policies that are too close are merged until none is",
  "On each axis, as long as two neighbour enabled policies are not further apart than the proximity limit, the closest ones are replaced by one policy: at the fixed line if exactly one of them is a single line, halfway otherwise; of the same rule if both have the same, a single line if one of them is, else halves. Policies further apart are untouched, and what was replaced is disabled.",
  "inputs", "every arrangement of up to 4 (5) policies of every kind on a grid of gaps, in several insertion orders, for several proximity limits",
  "tests merge two or three hand-made policies",
  D + "meshline_policy_manager.cpp " + D + "conflict_manager.cpp " + D + "conflicts/conflict_too_close_meshline_policies.cpp",
  [dict(name="MeshlinePolicyManager::detect_and_solve_too_close_meshline_policies", where=D + "meshline_policy_manager.cpp")],
  dict(quick="1-4 policies, 4 kinds, 5 gaps, 3 insertion orders, 4 proximity limits; every subset of 10 even positions x 4 patterns of kinds; 5 positions each with none, an enabled, a disabled or both policies", thorough="1-5 policies; subsets of 12 positions; 6 positions"),
  ENUM, "Bounded: complete for the stated alphabet. Reference: ten-line merge loop.")

# ----------------------------------------------------------------- geometry
GB = dict(quick="every simple polygon of 3 vertices on a 5x5 grid, 4 on 4x4, 5-6 on 3x3, profiles along 4-5 columns and 12-pointed outlines from several vertices in both directions, every half-grid point; every pair of segments of a 4x4 grid; 7 coordinate maps (exact and rounded)",
          thorough="up to 7 vertices on 3x3, 5 on 4x4; profiles along 6 columns; segments on 5x5; 7 coordinate maps; address and UB sanitizers")
GN = "Bounded: complete for the stated grids. Reference: exact integer arithmetic."
P("G01", "A point is told inside, on the border or outside of a polygon exactly",
  "For any simple polygon, convex or not, in any vertex order, and any point, the point is reported inside, on the border or outside exactly as geometry tells, including when lines drawn from the point go through vertices or along edges, and when coordinates carry rounding errors.",
  "inputs", "every simple polygon of a small grid, every vertex order, every grid and half-grid point",
  "tests try a few polygons; degenerate alignments are combinatorial",
  D + "geometrics/polygon.cpp " + D + "geometrics/segment.cpp",
  [dict(name="Polygon::relation_to", where=D + "geometrics/polygon.cpp")], GB, ENUM, GN)
P("G02", "Relations, crossings, overlaps and merges of segments are exact",
  "Any two segments are reported as crossing (or touching), overlapping, aligned or apart exactly as geometry tells; the crossing point, the common part and the union of overlapping segments are right in any orientation.",
  "inputs", "every pair of segments of a small grid, in both directions",
  "tests do not try every slope, direction and touching case",
  D + "geometrics/segment.cpp",
  [dict(name="Segment::relation_to / intersection / overlap / merge", where=D + "geometrics/segment.cpp")], GB, ENUM, GN)
P("G03", "Orientation, bounding and outward sides of polygons are exact",
  "For any polygon, the reported rotation and bounding box are right, there is one edge per side, and each horizontal or vertical edge knows on which side the outside is; a flat polygon has no rotation and no outside.",
  "inputs", "every vertex sequence of a small grid, flat shapes included",
  "tests try a few polygons",
  D + "geometrics/polygon.cpp " + D + "geometrics/edge.cpp",
  [dict(name="Polygon::detect_edge_normal / detect_rotation / detect_bounding", where=D + "geometrics/polygon.cpp")], GB, ENUM, GN)

# -------------------------------------------------------------------- edges
EB = dict(quick="every pair of rectangles of a 4x4 grid (flat ones included), every triple of a 4x4 grid, pairs of 12 other shapes at every offset; priorities, z overlaps, materials, background; 3 coordinate maps",
          thorough="triples on a 5x5 grid; every start vertex and orientation of the shapes")
EN = "Bounded: complete for the stated shapes. Reference: exact integer geometry, written from the documentation."
ET = "every arrangement of two or three shapes on a small grid, with every priority order, depth overlap and material"
EW = "tests look at a dozen arrangements; what covers what is combinatorial"
P("E01", "An edge is left out of the mesh exactly when it is covered",
  "An edge is dismissed from meshing if and only if every point of it lies inside, or on an edge that faces another side of, polygons of the same or higher priority that overlap or touch it in depth. Several polygons may cover it together.",
  "inputs", ET, EW, D + "board.cpp " + D + "conflicts/conflict_edge_in_polygon.cpp " + D + "conflict_manager.cpp",
  [dict(name="Board::detect_edges_in_polygons", where=D + "board.cpp"), dict(name="ConflictEdgeInPolygon::auto_solve", where=D + "conflicts/conflict_edge_in_polygon.cpp")],
  EB, ENUM, EN)
P("E02", "Edges on a same line share one meshline policy, by rule",
  "All the edges of a plane that lie on the same horizontal or vertical line get a single policy at this coordinate: a single line if a meshed one belongs to a flat shape, halves if meshed ones face both sides, thirds towards the side they all face, and none if none is meshed.",
  "inputs", ET, EW, D + "conflicts/conflict_colinear_edges.cpp " + D + "conflict_manager.cpp " + D + "board.cpp",
  [dict(name="ConflictColinearEdges::auto_solve", where=D + "conflicts/conflict_colinear_edges.cpp"), dict(name="Board::detect_colinear_edges", where=D + "board.cpp")],
  EB, ENUM, EN)
P("E03", "An edge against a better conductor is turned over",
  "The side of an edge is reversed if and only if the material just outside of it (the one of highest priority, then most conductive, among the shapes whose bounding box touches this side at the same depth; the background if there is none) conducts better than its own.",
  "inputs", ET, EW, D + "board.cpp " + D + "geometrics/edge.cpp",
  [dict(name="Board::adjust_edges_to_materials", where=D + "board.cpp")],
  EB, ENUM, EN)
P("E04", "Every lonely meshed edge gets one policy of thirds on its outer side",
  "Each horizontal or vertical edge that is not on the same line as another one, is meshed, and belongs to a shape that is not flat gets exactly one policy of thirds at its coordinate, towards its outer side (the inner one when reversed); there is no policy where there is no edge.",
  "inputs", ET, EW, D + "board.cpp " + D + "meshline_policy_manager.cpp",
  [dict(name="Board::detect_individual_edges", where=D + "board.cpp")],
  EB, ENUM, EN)

# ------------------------------------------------------------------- parser
PC = "src/infra/parsers/parser_from_csx.cpp"
PM = [dict(name="ParserFromCsx", where=PC)]
PT = "tests parse no file at all; each kind of shape is projected three times with its own mix of axes"
PN = "Bounded: complete for the stated alphabets. Documents are generated from an abstract description that also yields the expected board."
P("P01", "Every supported shape of a CSX file is projected exactly on each plane",
  "Reading a CSX file yields, for each supported primitive (Box, MultiBox, LinPoly, Polygon, Sphere, Cylinder along an axis, Curve) and each plane, exactly the outline this shape shows when seen along the normal of the plane, with the extent it has along this normal; shapes with a circular section show circles or the rectangles that bound them; Points and Polygons yield fixed lines where they stand. Nothing else is added. Whatever the order of the corners of a box.",
  "inputs", "every document made of one or two primitives taken from an alphabet of all kinds, orientations, signs and degenerate sizes, under <openEMS> or alone", PT,
  PC + " " + D + "board.cpp", PM,
  dict(quick="about 360 primitives alone, and every ordered pair of 150 of them, in one or two properties", thorough="every ordered pair of the 360 primitives"), ENUM, PN)
P("P02", "Priorities, names and kinds of materials are read as CSX means them",
  "Every polygon carries the priority of its primitive (0 if there is none), above any other for ports (LumpedElement, Excitation, ProbeBox) and Curves, the name of its property followed by the rank of the primitive in the file, and the material kind of its property: conductor for Metal and ConductingSheet, air for a material like vacuum, conductor for one that only conducts, dielectric otherwise. The background material is read likewise.",
  "inputs", "every kind of property, electrical parameter present or not, priority and mix of two properties", PT,
  PC + " " + D + "material.cpp", PM + [dict(name="Material::deduce_type", where=D + "material.cpp")],
  dict(quick="60 properties x 17 primitives x 5 priorities; every ordered pair of properties; every background", thorough="60 properties x 150 primitives x 5 priorities"), ENUM, PN)
P("P03", "Disabled planes receive nothing, enabled ones are not affected",
  "Whatever the planes disabled by --no-yz, --no-zx and --no-xy, a disabled plane gets no shape, and the enabled ones get exactly the shapes they get when all are enabled. A Point sets a line on an axis as long as a plane that shows this axis is enabled.",
  "inputs", "every primitive of the alphabet and pair of them, every one of the 8 combinations of flags", PT, PC, PM,
  dict(quick="360 primitives x 8, a third of the pairs of 150 primitives x 8", thorough="all the pairs"), ENUM,
  PN + " Which fixed line a Polygon sets when planes are disabled is left unspecified.")
P("P04", "A malformed file is refused or read, never a crash",
  "Whatever the content of the input file (cut anywhere, damaged, missing or odd elements, attributes and values, degenerate shapes, no file at all), reading it either succeeds or reports an error, without crashing nor hanging; a file that is cut, empty, not XML, without structure, or not in Cartesian coordinates is refused. Degenerate but finite shapes can be processed up to the mesh, which has only finite lines.",
  "inputs", "every cut, every byte replaced by each of 27, removed or doubled, every attribute value replaced by each of 14 odd ones, every attribute or element (or pair) removed or doubled, every degenerate shape and pair", PT,
  PC + " " + D + "geometrics/polygon.cpp " + D + "board.cpp", PM,
  dict(quick="all cuts, values, attribute and element pairs, a third of the byte changes, a quarter of the pairs of degenerate shapes; with address sanitizer", thorough="all of them"),
  "exhaustive fault injection on the input of the real code, under sanitizers",
  "Bounded: single faults, and pairs of removals. Memory errors are seen by ASan and UBSan; a hang is a case that exceeds 20 s.")
P("P05", "What is not supported is skipped and reported, once, by name",
  "Unsupported properties and primitives (also transformed ones and cylinders along no axis) are left out, the rest is read as if they were not there, and a single warning for properties and one for primitives list exactly the kinds and the names of what was left out. There is no warning when everything is supported.",
  "inputs", "every mix and order of two unsupported primitives and a supported one, every set of unsupported properties", PT, PC, PM,
  dict(quick="14 x 14 x 4 x 6 primitives, 16 sets of properties with each primitive", thorough="every third supported primitive"), ENUM, PN)
P("P06", "Fixed lines, old mesh and saved parameters are taken as asked",
  "With --integrate-old-mesh, the lines of the mesh found in the file become fixed lines; with --read-oemsh-params, so do the lines saved by OpenEMSH, and saved parameters replace the defaults; without these options they are ignored. Parameters and lines given on the command line prevail, or come in addition. A list of lines is read as comma separated numbers with optional blanks, and a list that is anything else is refused.",
  "inputs", "every triple of lists from an alphabet of 18 well and ill formed ones, options, sets of saved and overridden parameters", PT,
  PC + " " + A, PM + [dict(name="app::OpenEMSH::parse", where=A)],
  dict(quick="lists for three axes x 2 places x 4 options (two axes at most from the ill-formed part); 128 x 128 x 2 sets of parameters", thorough="all the triples"), ENUM,
  PN + " DeltaUnit is left unspecified.")

# ------------------------------------------------------------------- writer
SC = "src/infra/serializers/serializer_to_csx.cpp"
SM = [dict(name="SerializerToCsx", where=SC), dict(name="app::OpenEMSH::write", where=A)]
WT = "tests write no file at all"
WN = "Bounded: complete for the stated documents and options; files are read back by an XML library and compared with the board or with the input."
P("W01", "The written grid is exactly the mesh, on the axes asked for",
  "The CSX file that is written has a single grid; for each enabled axis (--no-x, --no-y, --no-z) it lists exactly the lines of the mesh, the lines of the meshline policies, both or none, as asked (--meshlines, --policy-lines), each one to full precision whatever the scale of the model, in increasing order; it lists nothing for a disabled axis, and nothing of an older grid remains.",
  "inputs", "every document of a corpus, scale, combination of the five output options, older grid and destination", WT, SC, SM,
  dict(quick="10 documents x 6 scales from 1e-7 to 1e5 x 32 options x 3 older grids x 3 destinations", thorough="same without skips, with address sanitizer"), ENUM, WN)
P("W02", "The rest of the document goes through unchanged",
  "Writing a CSX file, in place or elsewhere, changes nothing else than the lines of the grid and the saved parameters of OpenEMSH: every element, attribute, text, comment, processing instruction, whatever its place, is still there, in order, with the same content. When the output is another file, the input is untouched.",
  "inputs", "every fragment of an alphabet at every place of every base document, and pairs of them; encodings, doctype, declaration", WT, SC, SM,
  dict(quick="10 fragments x every gap between tags of 6 documents x 2 destinations; a part of the pairs; 7 headers", thorough="all the pairs"), ENUM, WN + " Insignificant white space is not compared.")
P("W03", "An existing file is never overwritten without being asked to",
  "Unless --force is given, when the output format writes to a file (CSX, PlantUML) and something already exists at the output path, whatever the way the path is written, the user is warned or the operation refused; otherwise nothing is asked. Only the output file is created or changed; pretty printing writes no file.",
  "inputs", "every kind of output path, format, force, older mesh, way of setting the output", WT, A,
  [dict(name="app::OpenEMSH::is_about_overwriting", where=A)],
  dict(quick="11 kinds of path x 3 formats x 2^5 options", thorough="same, with address sanitizer"), ENUM, WN)
P("W04", "A save is successful exactly when the whole file is on the disk",
  "Whatever the moment at which the disk gets full while writing, and whatever the reason why the output cannot be written (missing or invalid place) or the input cannot be read again (lost, damaged), the save reports an error; when it reports none, the file is complete. When the input cannot be read again, neither it nor an older output is touched.",
  "faults", "a write failure after every byte of the output, every unwritable place, every loss of the input", "a fault at a precise byte is out of reach of tests",
  SC + " " + A, SM,
  dict(quick="3 documents x 2 formats x 3 destinations, a failure after every byte of both ends of the file and after every 3rd or 13th in between; 7 places; 18 losses", thorough="a failure after every byte"),
  "exhaustive fault injection on the real code (every failure point of a write)", WN)
P("W05", "Saved parameters give the same mesh back",
  "With --save-oemsh-params, all the parameters of the mesh, about diagonals too, are saved in the file, once, to full precision, in place of older ones, next to saved fixed lines which are kept; reading the file with --read-oemsh-params gives the same parameters, the same fixed lines, and the same mesh. Without it, no parameters are left in the file.",
  "inputs", "every combination of three values of the seven parameters, given or edited, over three older states; meshes of a corpus", WT, SC + " " + PC,
  SM + PM, dict(quick="2187 sets of parameters x 3 x 2; 10 documents x 243 sets", thorough="same, with address sanitizer"), ENUM, WN)
P("W06", "Meshing a meshed file again changes nothing",
  "Meshing a file that was already meshed with the same parameters gives the same lines and the same file, byte for byte, and so does meshing in place instead of into another file.",
  "histories", "every document of a corpus with every fragment at every place, chains of runs, in place or not", "tests do not chain runs", SC + " " + PC + " " + A, SM + PM,
  dict(quick="16 documents x 10 fragments x a third of the places x 2, chains of four runs", thorough="all the places"), SEQ, WN)
P("W07", "Diagrams and pretty prints show each thing once and change nothing",
  "At any point of the processing and whatever the options, the PlantUML diagram is well formed and declares exactly once each displayed edge, polygon, policy, interval, line and conflict of the board; a complete diagram has arrows between declared things only. The pretty print lists each conflict. Drawing changes nothing on the board.",
  "histories", "every prefix of the processing of every document of a corpus, every combination of options", "tests draw nothing",
  "src/infra/serializers/serializer_to_plantuml.cpp src/infra/serializers/serializer_to_prettyprint.cpp",
  [dict(name="SerializerToPlantuml", where="src/infra/serializers/serializer_to_plantuml.cpp")],
  dict(quick="10 documents x 16 prefixes x 32 options x 3 sets of parameters", thorough="same, with address sanitizer"), ENUM, WN)

# ---- Command line ------------------------------------------------------------
CC = "src/ui/cli/cli.cpp src/main.cpp src/ui/cli/logger.cpp"
CM = [dict(name="ui::cli::cli", where="src/ui/cli/cli.cpp"), dict(name="main", where="src/main.cpp")]
CT = "tests never run the program"
CN = "Bounded: complete for the stated alphabet. The real main() runs in a process of its own; the window and the progress bar are replaced by stand-ins."
P("C01", "Each command line option does what it says, and only that",
  "For every valid command line (options in any order and combination, positional or named input, output given or not, existing or not), the program does exactly what the library does with the corresponding parameters: same file, same exit code (0 only when the output is written), an existing file is refused without --force with a message that tells about it, and the program is silent unless --verbose or something is to be reported. The output defaults to the input. Files other than the output are left alone.",
  "inputs", "every option value, pair and triple of options, order, way of giving the files, existence of the output", CT, CC + " " + A, CM,
  dict(quick="41 options alone in every position with 3 ways to give each file; every pair; a quarter of the triples", thorough="every triple"), ENUM, CN)
P("C02", "A wrong command line, input or output is refused with a message",
  "An unknown option, a missing, ill formed or out of range value, a second input, a missing or unreadable input, an output that cannot be written: the program always ends with exit code 1, says why on the standard error, and neither creates nor modifies any file, whatever the other options. It never crashes nor runs forever.",
  "inputs", "every wrong option, value, input and output, with every valid option before or after", CT, CC + " " + PC, CM,
  dict(quick="37 wrong options x 41 valid ones x 2 orders, 9 wrong inputs x 41 options, 4 wrong outputs x 8", thorough="same"),
  "exhaustive enumeration of wrong command lines on the real program", CN)
P("C03", "Help, version and graphical mode work whatever the other options",
  "--help displays every option and --version the version on the standard output and end with exit code 0 without touching any file, whatever the other options, valid input or not. The graphical mode is chosen with -G, with or without files, and when there is no argument at all; it gets the files of the command line, and its exit code is the one of the program.",
  "inputs", "help and version before or after every option, with or without input; 8 ways to start the graphical mode with every option", CT, CC, CM,
  dict(quick="3 x 41 x 4 command lines, 8 x 41 graphical ones", thorough="same"), ENUM, CN)

# ---- Slanted edges -----------------------------------------------------------
P("D01", "Slanted edges get their fine mesh over their whole extent",
  "On each plane and axis, the zones of slanted edges are the connected extents of these edges. There is an angle at every vertex with a slanted side and wherever a slanted edge crosses an edge of another shape. The ends of a zone are always meshed, an angle inside a zone is meshed when and only when it is not smaller than the minimal angle (of this zone, if edited), and nothing else is. Every interval whose middle lies in a zone takes the maximum distance of that zone, the other ones the general one, and no cell inside of them exceeds it.",
  "inputs", "every simple polygon with a slanted edge, every pair and triple of slanted shapes, same plane or two planes sharing an axis, settings, edited zones", "tests look at a handful of octagons",
  D + "board.cpp " + D + "conflict_manager.cpp " + D + "conflicts/conflict_diagonal_or_circular_zone.cpp " + D + "meshline_policy_manager.cpp " + D + "geometrics/edge.cpp " + D + "geometrics/bounding.cpp " + D + "geometrics/segment.cpp",
  [dict(name="Board::detect_diagonal_zones", where=D + "board.cpp"), dict(name="ConflictDiagonalOrCircularZone", where=D + "conflicts/conflict_diagonal_or_circular_zone.cpp")],
  dict(quick="triangles of a 4x4 grid, a seventh of the quads of a 4x4 grid and pentagons of a 3x3 grid; 10 shapes x 10 shapes at 11x7 offsets x 3 planes; a part of the triples; 5 settings; 3 coordinate maps", thorough="all the polygons, every offset, all the triples"),
  ENUM, "Bounded: complete for the stated shapes. Reference: exact integer geometry. The measure of a crossing depends on the drawing direction of the edges: both supplementary angles are accepted; policies where edges merely touch are accepted.")

# ---- Invariance --------------------------------------------------------------
P("I01", "The mesh depends on the structure, not on the way it is described",
  "Describing the same structure another way gives the same mesh: axes turned or exchanged, everything moved or expressed in another unit (along with the parameters that are lengths), corners, ends or vertices given in another order, a length given from the other end, shapes of equal priority in another order, spread over several properties or not; and a shape alone that is mirrored gets a mirrored mesh.",
  "inputs", "every scene of one, two or three shapes of ten kinds, transformed every way", "tests check fixed structures, none of them is written two ways",
  D + "board.cpp " + PC + " " + D + "conflict_manager.cpp " + D + "meshline_policy_manager.cpp " + D + "geometrics/edge.cpp " + D + "geometrics/polygon.cpp",
  [dict(name="whole processing, metamorphic", where=A)],
  dict(quick="10 shapes alone x 3 settings, 10x10 pairs x 8 offsets x 4 priorities and materials, 720 triples; 25 transformations each", thorough="every priority, material and setting, every triple of shapes and offsets"),
  "bounded-exhaustive enumeration of inputs on the real code against its own transformed runs", "Bounded: complete for the stated scenes and transformations. Round shapes only take the transformations that are free of rounding; mirrors are limited to single shapes because ties are broken from left to right; distances equal to a limit are avoided. Lines are compared to a thousandth of the unit, what the solver of intervals guarantees.")

# ---------------------------------------------------------------- GUI
Q = "src/ui/qt/"
P("U01", "The window follows processing whatever the navigation",
  "Whatever sequence of going back a step, running the next step, undoing and redoing the window allows, the board is the one the same sequence gives without a window; the processing view displays exactly the entities of that board, each once, in its plane or axis, with its values and wired to what it comes from; the navigation buttons are enabled exactly when there is somewhere to go; and the announced number of cells is the one of the mesh displayed.",
  "histories", "every sequence of navigation the buttons allow", "no test covers the window",
  Q + "main_window.cpp " + Q + "processing_view/processing_scene.cpp " + Q + "processing_view/processing_view.cpp " + A + " " + U + "state_management.cpp",
  [dict(name="MainWindow on_a_mesh_prev / next / undo / redo, ProcessingScene::add", where=Q)],
  dict(quick="every sequence of 4 or 5 moves on each of the ten structures", thorough="every sequence of 7"),
  SEQ, "Bounded: complete for the stated structures and depth, on the real window (offscreen). The reference is the application layer driven directly; the number of cells follows the way openEMS counts them.")
P("U02", "Editing anything gives what processing gives with the edited values",
  "The edition dialog of any entity, or of several or of the global parameters, shows the values in effect; cancelling it, or accepting it unchanged values included, changes nothing but what was typed; values the command line would refuse are refused, alone or along with valid ones, and leave everything as it was; accepting sets exactly the edited values on the entity and processing is run again from the step that takes them into account (or the next one when it has not been reached), exactly as the application layer does with these values; the whole is one entry of the history and undoing it brings back what was displayed.",
  "histories", "every entity, every line of its dialog, every kind of value, after no or some navigation", "no test covers edition dialogs",
  Q + "edit/edit_dialog.cpp " + Q + "edit/edit_model.cpp " + Q + "edit/edit_model_global.cpp " + Q + "edit/edit_model_meshline_policy.cpp " + Q + "edit/edit_model_interval.cpp " + Q + "edit/edit_model_conflict_diagonal_or_circular_zone.cpp " + Q + "main_window.cpp " + D + "meshline_policy_manager.cpp",
  [dict(name="EditDialog and EditModels, MainWindow::handle_edition_from", where=Q)],
  dict(quick="seven kinds of dialogs on seven structures; global parameters and edges after 0, 2, 13 and 15 moves back, the others after 0, 2 and 10; first and last entity of each kind; each line alone and pairs of lines; other selections and menus among several", thorough="every entity and every pair, all ten structures"),
  SEQ, "Bounded: complete for the stated structures, entities and values. Several entities selected at once are covered by pairs.")
P("U03", "Documents are never lost, mistaken or silently overwritten",
  "Saving writes the mesh of the document displayed to the file announced and to no other, and the window is then named after it. An existing file is only overwritten after asking, a file other than the one named in the window as well; refusing, cancelling, or failing to write (which is reported with the right file) leaves every file, the name of the window and where the next save goes as they were. Closing asks exactly when what is displayed was not saved since it was opened, edited or navigated, and does not close when saving was asked for but refused or failed. Once a file could not be opened, there is nothing to save, edit or navigate.",
  "histories", "every sequence of opening, saving, saving as, editing, navigating and closing, every answer and every failure", "no test covers the window",
  Q + "main_window.cpp " + Q + "logger.cpp " + A + " " + "src/infra/serializers/serializer_to_csx.cpp",
  [dict(name="MainWindow on_a_file_open / save / save_as, closeEvent", where=Q)],
  dict(quick="every sequence of 3 of 28 operations with their answers from 5 ways of starting, of 2 from 3 more", thorough="sequences of 4"),
  SEQ, "Bounded: complete for the stated operations and depth. Each branch runs in a process forked from its prefix, on a scratch directory put back after each branch. Opening another document while the current one is unsaved does not ask, as in the original code.")
P("U04", "Both views display and select the same entities",
  "At any step, each structure view displays exactly the entities of its plane, each at its place and size, and the processing view every entity. Selecting any entity, or any two, in either view selects it and nothing else in every view that displays it, and highlights what it directly or indirectly comes from and what comes from it, and nothing else.",
  "inputs", "every entity of every structure at several steps, alone and in pairs, selected from either view", "no test covers the views",
  Q + "structure_view/structure_scene.cpp " + Q + "structure_view/structure_view.cpp " + Q + "processing_view/processing_scene.cpp " + Q + "utils/nodegraph/nodegraph_scene.cpp " + Q + "utils/nodegraph/node.cpp",
  [dict(name="StructureScene::add, select_counterparts, highlighting", where=Q)],
  dict(quick="every entity alone from each view, a pair and an area selection for each, at each of the 16 steps of each structure, in two display modes", thorough="the same"),
  ENUM, "Bounded: complete for the stated structures and steps.")
P("U05", "What is displayed is what the buttons announce",
  "Whatever sequence of changing the plane, the mesh displayed, the display mode, the selection, navigating, editing or opening another document, the pressed buttons tell the plane, mesh visibility and display mode that both views then have: the views show the entities of that plane, the lines of those axes, and in the processing view exactly the entities that mode shows.",
  "histories", "every sequence of what changes the display", "no test covers the views",
  Q + "main_window.cpp " + Q + "structure_view/structure_view.cpp " + Q + "structure_view/structure_scene.cpp " + Q + "processing_view/processing_scene.cpp " + Q + "processing_view/processing_view.cpp",
  [dict(name="MainWindow tb_* / set_display_mode / set_mesh_visibility / set_display_plane", where=Q)],
  dict(quick="every sequence of 3 of 22 operations from 3 modes, of 2 after six moves back, on two structures", thorough="sequences of 4 on eight structures"),
  SEQ, "Bounded: complete for the stated operations and depth.")

# ---------------------------------------------------------------- messages
P("L01", "Messages and progress reach every one they are for, exactly once",
  "Whatever sinks were registered and whichever was made the interactive one, in any order, a message reaches its destination only when it names one that is registered, and every registered sink otherwise, each exactly once and complete; the answer is the one of that destination, or of the interactive sink, or nothing when there is none; at most one sink is the interactive one and it is the one told. A progress is displayed by every display registered when it started, each told of every advance in order.",
  "histories", "every sequence of registrations, choices of the interactive sink and messages", "no test covers messages",
  U + "logger.cpp " + U + "logger.hpp " + U + "progress.cpp " + U + "progress.hpp",
  [dict(name="Logger::register_sink / set_as_the_interactive / log, Progress::Bar", where=U + "logger.cpp")],
  dict(quick="every sequence of up to 6 operations over 3 sinks (818310), every sequence of 3 calls on bars with 0 to 3 displays", thorough="sequences of 7"),
  HIST, "Bounded: complete for the stated depth. Registering the same sink twice is not specified.")
P("L02", "The command line prints what is to be known and only accepts offered answers",
  "A message is printed once on the standard error, with its level, informative text and details, unless it is only informative and verbosity was not asked for. A question with answers is asked only by the interactive sink, tells every offered answer once, is asked again until a line is exactly one of them, which is then the answer, consumes no further line, and ends without answer when there is no line any more.",
  "inputs", "every level, verbosity, interactivity, set of offered answers, and sequence of typed lines", "no test covers messages",
  "src/ui/cli/logger.cpp src/ui/cli/logger.hpp",
  [dict(name="ui::cli::LoggerSink::log", where="src/ui/cli/logger.cpp")],
  dict(quick="2048 kinds of messages, every sequence of up to 3 of 10 typed lines", thorough="up to 4 lines"),
  ENUM, "Bounded: complete for the stated messages and lines.")
