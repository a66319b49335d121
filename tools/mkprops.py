#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(obs), "hook_needed": None}})
G = "gcodeutils/gcoder.py"; FI = "gcodeutils/filter/filter.py"; TR = "gcodeutils/filter/translate.py"
RE = "gcodeutils/filter/relative_extrusion.py"; AO = "gcodeutils/filter/arc_optimizer.py"
ST = "gcodeutils/stretch/stretch.py"; V3 = "gcodeutils/stretch/vector3.py"
IT = "gcodeutils/visit/iterator.py"; PA = "gcodeutils/visit/pause_at_layer.py"; VI = "gcodeutils/visit/visitor.py"
GM = "gcodeutils/gcode_mod.py"; GS = "gcodeutils/gcode_stretch.py"; GT = "gcodeutils/gcode_tempcal.py"
GO = "gcodeutils/gcode_optimize_arcs.py"; CS = "cura_plugins/stretch_plugin.py"; CT = "cura_plugins/tempcal_plugin.py"

p("C01", "Filtering visits every line once, in order, and splices answers in place",
  """Running a filter over a program presents every line of every layer to the filter's line rule exactly once, in program order.
  In each layer the result is, in that order, the line itself where the rule gives no answer, the one line it answers with,
  or all lines of the sequence it answers with; nothing else is added, lost, duplicated or moved.""",
  ["inputs", "programs"], "all programs (any number of layers and lines) and all line rules, whatever mix of answers they give",
  "Tests run two filters over four five-line programs; no test has a rule that answers with several lines, with an empty sequence, or only on some lines of a layer.",
  [FI, AO], [("parse_layer splice loop", FI + ":GCodeFilter.parse_layer"), ("layer loop", FI + ":GCodeFilter.parse_gcode")],
  obs=["GCode.all_layers after filter()"])
p("C02", "Saving writes every line of every layer exactly once, in order",
  """Writing a program to a file writes the text of every line of every layer exactly once, in layer order and line order, each as one
  newline-terminated line, to the file given and to nothing else.  The command line tools finish by writing the program they modified
  to the output the user chose.""",
  ["inputs", "programs"], "all programs and all output destinations",
  "No test looks at what is written: the two that call write() discard its output.",
  [G, GM, GS, GO], [("write loops", G + ":GCode.write"), ("final write", GM + ":main"), ("final write", GS + ":main"), ("final write", GO + ":main")],
  obs=["bytes written to the output file"])
p("C03", "Layers partition the parsed lines and line lookups agree with them",
  """After parsing, the layers in order, concatenated, are exactly the program's non-blank lines in input order with surrounding blanks
  removed: no line is lost, duplicated or in two layers.  For every line number the lookup names the layer and the position inside that
  layer where the line is, and that stays true for lines appended later.""",
  ["inputs", "histories"], "all input programs, then all sequences of appended lines",
  "Tests parse a handful of fixtures and never look at the lookup arrays or at appended lines; whether a line survives depends on the layer detection path taken.",
  [G], [("layer building in the parse loop", G + ":GCode._preprocess"), ("append bookkeeping", G + ":GCode.append"), ("lookup", G + ":GCode.idxs")],
  state=[("cur_lines", "lines of the layer being built", G), ("layer_idxs/line_idxs", "per line: layer number, position in layer", G)],
  obs=["GCode.lines", "GCode.all_layers", "GCode.idxs"])
p("C04", "The tracked tool position follows machine semantics for every line",
  """After every line the position recorded for X, Y and Z is the machine's: an absolute move goes to the named coordinates shifted by the
  position settings in force, a relative move adds them, axes not named stay, homing returns the named axes (all axes if none is named) to
  the home position and drops their shift, and setting a position moves nothing but makes the current place read as the given value.
  Absolute/relative positioning and the tool are switched only by their own commands (G90/G91, T), and the feed rate only by moves that name one.""",
  ["inputs", "histories"], "all commands, all subsets of coordinate words, all values, all modal states reached by any history",
  "No test asserts a tracked position; correctness depends on combinations of mode, axis subset and earlier G92/G28 that cannot be sampled.",
  [G], [("position update in the parse loop", G + ":GCode._preprocess")],
  state=[("current_x/y/z", "position from machine origin", G), ("offset_x/y/z", "shift by G92", G), ("relative", "positioning mode", G)],
  obs=["line.current_x/y/z/f", "line.relative", "GCode.current_*", "GCode.abs_pos"])
p("C05", "Extrusion accounting follows the extrusion mode; resetting E extrudes nothing",
  """Each move advances the extruder by its E value in relative extrusion mode and by the difference to the last logical E position in absolute mode,
  and is flagged as extruding exactly when that advance is positive.  The total is the sum of all advances and the filament length is the largest total reached.
  Setting the E position (G92 E) changes only what later absolute values mean; M82/G90 select absolute and M83/G91 relative extrusion.
  The E position recorded with a line is the program's (logical) one after that line.""",
  ["inputs", "histories"], "all interleavings of moves, G92, M82/M83 and G90/G91, all values",
  "No test asserts an extrusion total; programs that reset E every layer or mix modes are not in the fixtures.",
  [G], [("extrusion block in the parse loop", G + ":GCode._preprocess")],
  state=[("current_e/offset_e", "extruder position", G), ("total_e/max_e", "totals", G), ("relative_e", "extrusion mode", G)],
  obs=["line.extruding", "line.current_e", "GCode.total_e", "GCode.filament_length"])
p("C06", "Appending lines one by one leaves the same machine state as parsing them at once",
  """The units, positioning and extrusion modes, tool, feed rate, position, shifts and extrusion totals after reading a program are the same whether
  its lines were given together or appended one at a time.  Every piece of that state carries over from one append to the next.""",
  ["histories", "programs"], "all programs and all ways of cutting them into an initial part and appended lines",
  "append() is not called by any test.",
  [G], [("state load/store around the parse loop", G + ":GCode._preprocess"), ("append", G + ":GCode.append")],
  obs=["GCode attributes after append() vs after GCode(data)"])
p("C07", "Every coordinate word of a G command is read under its own letter, with units",
  """For a G command each of the words X, Y, Z, E, F, I, J that has a value sets exactly the coordinate of that letter to that value, in millimetres
  (times 25.4 while inches are selected); a coordinate without a word, or whose word has no value, is unset.  The command is its letter in upper case
  followed by its number, a leading line number is not part of it, and a line with no command words sets nothing.""",
  ["inputs"], "all word subsets, orders, letter cases and unit states",
  "Tests only parse lower-complexity millimetre fixtures; letters I/J, inches and line numbers never occur in an asserted position.",
  [G], [("tokenizer", G + ":split"), ("coordinate parser", G + ":parse_coordinates"), ("unit switch", G + ":GCode._preprocess")],
  obs=["line.x .. line.j", "line.command"])
p("C08", "Regenerated line text carries exactly the line's command, words and comment",
  """When the text of a line is regenerated it is the command followed by every coordinate the line has (zero included), each once, under its own letter, in fixed
  point notation with at least three decimals (five for E), and by nothing for coordinates it does not have.  A comment that trailed the
  original text is kept, so later processing that reads comments sees the same ones.""",
  ["inputs"], "all lines: every subset of coordinates, every value, with and without comment",
  "Tests compare parsed fields, never regenerated text; comments are ignored by the comparison.",
  [G], [("unsplit", G + ":unsplit")], obs=["line.raw after a filter changed the line"])
p("C09", "Parsing accepts any text",
  """Reading a program never fails, whatever its lines contain: malformed numbers, words without values, unknown or letter-only commands, tool changes without
  a number, comments, empty input.  Lines that are not understood are kept unchanged.""",
  ["inputs"], "all sequences of text lines (numeric overflow excluded)",
  "Tests parse well formed files only; which conversions can fail depends on the text.",
  [G], [("tokenizer expressions", G + ":gcode_exp, specific_exp"), ("conversions", G + ":parse_coordinates, find_specific_code, _preprocess")],
  obs=["exceptions escaping GCode(data) / append()"])
p("C10", "Program comparison is symmetric and sees every command line and coordinate",
  """Two programs are equal exactly when their command lines (comment-only lines ignored) are equal in number and pairwise equal, and the textual
  difference report is empty exactly then; the result does not depend on which program is on which side.  Two lines are equal exactly when their
  commands are the same and every coordinate is unset in both or set in both and equal within the tolerance, whichever of the two is larger.""",
  ["inputs", "programs"], "all pairs of programs of any lengths; all pairs of lines and coordinate subsets",
  "Tests compare programs of equal length (or differing early); none has one program a prefix of the other, and few coordinates are covered.",
  [G], [("program equality", G + ":GCode.__eq__"), ("difference", G + ":GCode.diff"), ("line equality", G + ":PyLine.__eq__")],
  obs=["gcode1 == gcode2", "gcode1.diff(gcode2)"])
p("C11", "Translation shifts exactly the absolute X/Y coordinates by the requested amount",
  """While absolute positioning is selected and no position setting has touched the axis, translation adds the requested X amount to the X and the requested Y
  amount to the Y of every move that names that axis (zero included) and changes nothing else on any line; relative moves keep their coordinates.
  A position setting that does not name X or Y and names some other axis leaves X and Y alone.  The first position setting that names an axis has that value reduced by the shift, and the axis's later coordinates are not shifted again.""",
  ["inputs", "histories"], "all sequences of moves, mode switches and position settings, all amounts, all axis subsets",
  "One test translates one five-line absolute program; G91/G90 switching, G92 variants and untouched words are not covered.",
  [TR, GM], [("line rule", TR + ":GCodeXYTranslateFilter.opcode_filter")],
  state=[("translate_x/y", "amount still to be added", TR), ("absolute_distance_mode", "positioning mode", TR)],
  obs=["line.x/y/raw of the filtered program"])
p("C12", "Conversion to relative extrusion preserves the filament fed by every move",
  """After conversion every move that has an E word carries as E exactly the advance that move made in the original program, whatever mixture of absolute mode (M82), relative mode (M83) and E position settings came before it; moves without E and all other words are unchanged.  Every command selecting absolute extrusion is replaced by the one selecting relative
  extrusion, and the line's text is regenerated with the new value.""",
  ["inputs", "histories"], "all interleavings of E moves, M82/M83 and G92, all values",
  "One four-move program is tested, without G92 and without mode changes in the middle.",
  [RE], [("line rule", RE + ":GCodeToRelativeExtrusionFilter.opcode_filter")],
  state=[("current_extrusion_distance", "last logical E position", RE), ("relative_extrusion", "mode", RE)],
  obs=["line.e/raw of the filtered program"])
p("C13", "The pause is inserted once, at the start of each selected printed layer only",
  """Asking for a pause at a set of layer numbers inserts one pause command as the first line of the printed layer that has that number, once per number even if the
  program comes back to that height later, and never in layers that are not printed or not selected.  All other lines stay as they were, in order.""",
  ["inputs", "programs"], "all programs (including travel lifts that split a height over several layers) and all selections",
  "One fixture and one layer number; the test only checks that some pause shows up in a difference message.",
  [PA, IT, G, GM], [("visitor", PA + ":PauseAtLayer.did_visit_layer"), ("insertion", G + ":GCode.prepend_to_layer"), ("CLI", GM + ":main")],
  obs=["lines of each layer after the visit"])
p("C14", "A walk visits every layer and line exactly once, in order, numbered right",
  """A visitor is told of every layer before its first line and after its last line, and of every line in between, each exactly once and in program order.  What it is told is consistent:
  the layer's own index in the program, the number of the line counted over the whole program, and a printed layer's number being its rank among the printed heights
  (in programs whose heights differ in their first two decimals).""",
  ["programs", "inputs"], "all programs, including ones with identical, empty or height-less layers, and visitors that insert lines when a layer is finished",
  "The only visitor test inserts one pause; identical layers or programs extruding before any Z move are not walked.",
  [IT, VI], [("walk", IT + ":GCodeIterator.accept")], obs=["will_visit_layer / visit_line / did_visit_layer calls and their information argument"])
p("C15", "Editing a layer keeps line order, other layers and the line lookups consistent",
  """Prepending commands to a layer puts them, in the order given and without blank ones, before that layer's lines in both the layer and the flat program, and replacing a layer's commands puts
  exactly those there instead; all other lines stay as they were.  Afterwards the lookups still name layer and position of every line,
  and the commands put in are read into command and words like any other line.""",
  ["inputs", "histories"], "all programs, layers and command lists",
  "One prepend of one command is exercised and only through a difference message; layer rewriting is never called.",
  [G], [("prepend", G + ":GCode.prepend_to_layer"), ("rewrite", G + ":GCode.rewrite_layer")], obs=["GCode.lines", "GCode.all_layers", "GCode.idxs"])
p("C16", "Stretching never moves a point further than the maximum of its loop type",
  """In a program with absolute positioning, an axis a move does not name keeping its last value, the distance in X/Y between a stretched point and the original point is at most edge width times the configured ratio of the loop it is in (inner edge, outer edge or extra loop),
  that ratio being scaled by the stretch strength.  The E value of a stretched move is its original value reduced in proportion to that distance, and set only if the original had one.""",
  ["inputs", "configurations"], "all loops, points, neighbourhoods and settings",
  "The one oracle comparison samples one model at default settings.",
  [ST], [("normalisation", ST + ":StretchFilter.get_stretched_line_from_index_location"), ("maxima", ST + ":StretchFilter.set_edge_width"), ("settings", ST + ":StretchRepository")],
  obs=["x, y, e of the filtered program's moves"])
p("C17", "Stretching touches only in-loop X/Y moves; command, Z and feed rate stay",
  """A line is altered by stretching only if it is a straight move naming X or Y inside a marked loop; every other line stays the same line at the same place.  A stretched move keeps its
  command, its Z word and its feed rate word (none if it had none).""",
  ["inputs", "programs"], "all programs, all marker layouts, all moves",
  "The oracle fixture has a feed rate and Z on every move and only one slicer's layout; nothing asserts untouched lines of the other slicers.",
  [ST], [("line rule", ST + ":StretchFilter.parse_line"), ("rewrite", ST + ":StretchFilter.get_stretched_line_from_index_location"), ("replacement loop", ST + ":StretchFilter.filter")],
  state=[("isLoop", "inside a marked loop", ST)], obs=["lines of the filtered program"])
p("C18", "Slicer detection always ends with an edge width set and only adds comments",
  """Whatever the program contains, preparing it for stretching leaves the edge width set (the one the program states - in a Slic3r or Skeinforge comment or as the nozzle
  size of a Cura profile - else 0.4 mm) before any point is moved, for every supported slicer.
  Preparation changes lines only by appending comment text: commands, coordinates, and the number and order of lines stay the same.""",
  ["inputs", "configurations"], "all programs, all three slicer dialects",
  "Skeinforge input always states a width in the fixtures; no Cura fixture carries a profile, so that branch never runs.",
  [ST], [("Slic3r set-up", ST + ":Slic3rStretchFilter.setup_filter"), ("Cura set-up", ST + ":CuraStretchFilter.setup_filter"), ("Skeinforge set-up", ST + ":SkeinforgeStretchFilter.setup_filter")],
  obs=["edge width when the first line is parsed", "line.raw after set-up"])
p("C19", "Looking around in a loop never leaves the layer and always ends",
  """Asking for the next or previous point of a loop, from any line of any layer, gives a straight move of that layer that names X or Y, or reports the end of the loop; it never fails in another way.
  Each step either moves on by one line or, at a limit of the loop, jumps to its other limit, and repeated asking ends
  at the first line already looked at.""",
  ["inputs", "programs"], "all layers, start lines and marker layouts, all dialects",
  "One seven-line layer is iterated forward by one of the five iterators.",
  [ST], [("step", ST + ":LineIteratorForwardLegacy.get_next"), ("limits", ST + ":*.index_setup, *.reset_index_on_limit")], obs=["get_next() results and exceptions"])
p("C20", "Stretching only ever runs on programs converted to relative extrusion",
  """Every shipped entry point that stretches a program converts that same program to relative extrusion first and stretches it before writing it, on every path,
  whatever the slicer detected.  Exactly one stretching dialect is applied: in the command line tool Cura's if and only if the
  program carries a Cura profile, in the Cura plugin always Cura's.""",
  ["inputs", "configurations"], "all command lines and all programs, both the command line tool and the Cura plugin",
  "Neither entry point is run by a test.",
  [GS, CS], [("pipeline", GS + ":main"), ("detection", GS + ":is_cura_gcode"), ("pipeline", CS)], obs=["order of operations on the program"])
p("C21", "No temperature outside 150-250 degrees is ever commanded",
  """The temperature tool only adds set-temperature commands whose value lies within the absolute limits of 150 and 250 degrees Celsius, inclusive; for a target outside them it adds no command.
  This holds for every start and end temperature, step count and program.""",
  ["inputs", "configurations"], "all settings and all programs",
  "No test runs the temperature tool.",
  [GT], [("limit check", GT + ":GCodeTempGradient.generate_temperature_gcode")], obs=["commands added to the output"])
p("C22", "The temperature gradient starts, ends and steps as documented",
  """Between the lowest layer above the minimum height and the top, the continuous target is the straight line from the start to the end temperature; the stepped target takes steps + 1 equally spaced values from start to end, each
  for an equal share of the height, and never leaves the range between them.  No temperature is commanded at or below the minimum height nor above the top, nor twice in a row with the same value;
  a program without room above the minimum height is refused.""",
  ["inputs", "configurations"], "all layer heights, settings and both modes",
  "No test runs the temperature tool.",
  [GT], [("bounds", GT + ":GCodeTempGradient._parse_gcode"), ("targets", GT + ":get_temp_for_current_layer"), ("emission", GT + ":GCodeTempGradient.write")],
  obs=["commands added to the output and their place"])
p("C23", "Adding a temperature gradient keeps every original line, in order",
  """The program written by the temperature tool is the original program, every line once and in order, with at most one extra line in front of each layer; extra lines are only set-temperature commands (or blank).
  Everything goes to the chosen output.""",
  ["inputs", "programs"], "all programs and settings",
  "No test runs the temperature tool.",
  [GT], [("emission", GT + ":GCodeTempGradient.write")], obs=["bytes written"])
p("C24", "Arc conversion loses no line except the straight moves an arc replaces",
  """The converted program consists of the original lines in their original order, except that a run of consecutive straight moves may be replaced by one arc (and at most one following position setting);
  every other command and comment stays, between the same neighbours.  When the program ends, lines still under examination are written out, and a converter that has finished holds none back for the next program.""",
  ["histories", "programs"], "all programs, all layer boundaries, and all states of the detection window",
  "The arc tests never run: their decorator discards them.",
  [AO], [("window", AO + ":GCodeArcOptimizerFilter.opcode_filter"), ("conversion", AO + ":GCodeArcOptimizerFilter.to_gcode"), ("flush", AO + ":GCodeArcOptimizerFilter.parse_gcode")],
  state=[("queue", "lines under examination", AO), ("valid_circle", "the window is known to be an arc", AO)], obs=["GCode.all_layers after filter()"])
p("C25", "Moves become an arc only if the whole run satisfies every documented criterion",
  """A run is merged only if it has at least eight straight moves, all with the same height (that of the point they start from included) and feed rate, all extruding or none, extrusion per length within 15 % of the mean and positive,
  the fitted radius at most 200 mm, no point further than 0.015 mm from the fitted circle and no step angle exceeding the mean by more than 5 degrees.  Every criterion is evaluated on all points of exactly the run that is replaced.""",
  ["histories", "inputs"], "all runs of moves and all window histories",
  "The arc tests never run; the criteria are conjunctions over runs of any length.",
  [AO], [("criteria", AO + ":GCodeArcOptimizerFilter.queue_valid, get_circle"), ("window", AO + ":GCodeArcOptimizerFilter.opcode_filter")], obs=["which runs are replaced"])
p("C26", "A generated arc has the run end point, fitted centre, direction and feed rate",
  """The arc that replaces a run ends at the last point of the run, gives its centre as the centre of a circle that meets the criteria, relative to the run's first point, turns counter-clockwise (G3) exactly if the run does and
  carries the run's feed rate.  Its E value feeds the run's filament scaled from chord length to arc length, in the extrusion mode in force, and any E position setting after it restores the run's final E.""",
  ["inputs"], "all accepted runs, both directions, both extrusion modes",
  "The arc tests never run.",
  [AO], [("conversion", AO + ":GCodeArcOptimizerFilter.to_gcode"), ("fit", AO + ":GCodeArcOptimizerFilter.get_circle_least_squares")], obs=["command and words of the generated line"])
p("C27", "An input file is never truncated before its replacement is ready",
  """When a tool writes back over the file it read (in-place mode, Cura plugins), the file is opened for writing only after it has been read completely and every processing step that can refuse the
  program has succeeded, so a refused program leaves the file as it was.  No tool deletes or renames files.""",
  ["inputs", "crash_points", "fault_sequences"], "all programs, all failures of reading, parsing or processing",
  "No test runs the in-place mode or the plugins, or injects a failure.",
  [GO, CS, CT], [("in-place write", GO + ":main"), ("plugin write", CS), ("plugin write", CT)], obs=["file opens for writing relative to processing"])
p("C28", "Standard output carries nothing but the program",
  """With the default output, what the command line tools write to standard output is the modified program alone: diagnostics of any kind, at any verbosity, go elsewhere (standard error).""",
  ["inputs", "configurations"], "all programs, options and verbosity levels, including the rarely taken diagnostic paths",
  "Tests do not capture standard output, and the diagnostic paths are not taken by the fixtures.",
  [G, ST, GM, GS, GT, GO], [("log configuration", "main() of each tool"), ("diagnostics", ST)], obs=["bytes on standard output"])
p("C29", "Every command line option reaches the computation it documents",
  """Each option of each tool is passed, with a value of the type the computation needs and the documented default, to the setting it documents, and changes no other setting; in particular all stretch ratios, the stretch strength,
  the translation amounts, the pause layer, the temperature bounds, minimum height, step count and gradient kind.  A step that was not asked for is not run.  Every -v given adds one to the
  verbosity (one if none is given) and every -q takes one away: messages from debug on are shown if it is two or more, from information on if it is one, else only warnings and worse.""",
  ["configurations"], "all command lines",
  "No test goes through a command line; options are forwarded by name through catch-all keyword arguments, where a misspelt name is silently ignored.",
  [GM, GS, GT, GO, ST, TR], [("parsers and forwarding", "main() of each tool"), ("settings", ST + ":StretchRepository")], obs=["values used by the computation"])
p("C30", "Every shipped command and plugin starts: all names and imports resolve",
  """Every console command the package declares, and every Cura plugin it ships, can be started on Python 3: the modules, functions, classes and names they use are defined by the package or the
  standard library, under the names used, and with the arguments passed.""",
  ["configurations", "programs"], "all entry points and all code reachable from them",
  "No test imports the temperature tool or the plugins, and Python only resolves names on the paths that run.",
  [GM, GS, GT, GO, CS, CT, "setup.py"], [("entry points", "setup.py"), ("imports", "every module")], obs=["ImportError / NameError / TypeError at start or later"])
p("C31", "Programs and filters are independent: no state leaks from one to another",
  """Creating, parsing, comparing or filtering one program never changes the result of doing so for another: objects share no mutable state through modules, classes or default arguments, and a filter
  starts each of its instances from the same fresh state.""",
  ["histories"], "all sequences of operations in one process",
  "Tests create fresh objects and compare single results; leaks show only in particular orders of use.",
  [G, AO, TR, RE, ST, IT, PA, FI], [("constructors", "every class"), ("class level attributes", G + ":GCode, " + AO + ":GCodeArcOptimizerFilter")], obs=["results of the second of two runs"])
p("C32", "Vector arithmetic is component-wise and leaves its operands alone",
  """Addition, subtraction, scaling, division, negation, dot and cross product, magnitude and distance of 3D vectors are the textbook component formulas for all three components; the in-place operators
  produce the same components in the same object, the others leave both operands unchanged and return a new vector.  Two vectors are equal exactly if all components are, and dropping an axis keeps the other two in order.
  A vector made without components is zero.""",
  ["inputs"], "all vectors and scalars",
  "No test exercises vector operators except through one stretched model that uses two of them.",
  [V3], [("operators", V3 + ":Vector3")], obs=["results of the operators"])
p("C33", "Layer durations add up to the program's duration",
  """The time attributed to the layers, added up, is the estimated time of the whole program: every straight move's and every dwell's time is counted once and belongs to one layer.
  A dwell counts its P milliseconds.""",
  ["inputs"], "all programs",
  "No test looks at durations.",
  [G], [("accumulation", G + ":GCode._preprocess")], obs=["layer.duration", "GCode.duration"])
p("C34", "The bounding box covers every extruded end point",
  """For a program whose filament length is positive, the reported X and Y limits are exactly the smallest and largest end positions of its extruding moves, for every such move; width, depth and height are the differences of the limits.
  For any other program they are those of all its moves.""",
  ["inputs"], "all programs",
  "No test looks at the bounding box.",
  [G], [("min/max updates", G + ":GCode._preprocess")], obs=["GCode.xmin/xmax/ymin/ymax/width/depth/height"])
p("C35", "The estimated duration is close to the machine's",
  """The estimated print time is within a useful margin of the time a machine with the assumed acceleration takes.""",
  ["inputs"], "all programs",
  "There is no machine to compare with in the tests.",
  [G], [("duration block", G + ":GCode._preprocess")], obs=["GCode.duration"])
p("C36", "Reading back what was written gives the same coordinates within precision",
  """Parsing the text of a regenerated line gives back each coordinate within half a unit of its last written decimal.""",
  ["inputs"], "all values",
  "Tests sample a few values.",
  [G], [("formatting", G + ":unsplit"), ("parsing", G + ":parse_coordinates")], obs=["parse(unsplit(line)) vs line"])
p("C37", "Layers are split where the part's layers are",
  """The layer boundaries found in a program are those of the sliced part: travel lifts do not start layers and every printed height is one layer.""",
  ["inputs"], "all programs of all slicers",
  "Fixtures sample a few slicers.",
  [G], [("layer detection", G + ":GCode._preprocess")], obs=["GCode.all_layers"])
p("C38", "Stretching makes printed holes the designed size",
  """After stretching, printed holes have their designed size more closely than before, as with the original Skeinforge module.""",
  ["inputs"], "all parts",
  "One model is compared with a recorded result.",
  [ST], [("stretch algorithm", ST)], obs=["printed part; coordinates compared with Skeinforge's"])
p("C39", "The printed heights are exactly those of the layers something is extruded in",
  """After reading a program, the set of printed heights holds a height exactly if a layer that ends at this height contains a move that extrudes, a move that changes the height
  belonging to the layer it starts.  The number of layers is the size of that set, and the vertical limits are the smallest and greatest of these heights and zero.""",
  ["inputs"], "all programs",
  "No test looks at the printed heights; layers whose first move also extrudes, heights returned to and layers without extrusion are not sampled.",
  [G], [("layer change and end of the parse loop", G + ":GCode._preprocess")], state=[("all_zs", "printed heights", G), ("cur_layer_has_extrusion", "something was extruded in the current layer", G)],
  obs=["GCode.all_zs", "GCode.layers_count", "GCode.zmin/zmax"])
p("C40", "The stretch of a point follows the loop at the documented distance both ways",
  """In a loop whose moves name X and Y, the displacement of a point is the maximum of its loop type times a vector of length at most one: four fifths of the sum of the pulls of both sides, limited across.
  The pull of a side is the vector to the point from where the loop, followed that way from the neighbouring line, is after the stretch-from distance (edge width times its ratio), divided by that distance;
  if the loop ends before, the direction from its last point, or nothing if there is none.  For each side's neighbouring point the part of the vector across the direction to it is kept up to a third of the
  cross limit distance, dropped beyond the whole of it and reduced linearly between.""",
  ["inputs", "configurations"], "all loops, points and settings",
  "The one recorded model samples a few loops at default settings; loops shorter than the distance, neighbours at the limits and coinciding points are not in it.",
  [ST], [("pull of a side", ST + ":StretchFilter.get_relative_stretch"), ("limit across", ST + ":StretchFilter.get_cross_limited_stretch"),
         ("sum", ST + ":StretchFilter.get_stretched_line_from_index_location"), ("start of the walks", ST + ":StretchFilter.stretch_line")],
  obs=["x, y of the filtered program's moves"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
