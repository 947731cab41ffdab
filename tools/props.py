#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
AW = "ArcWelder/"; AC = "ArcWelderConsole/"; AI = "ArcWelderInverseProcessor/"; GP = "GcodeProcessorLib/"; PY = "PyArcWelder/"
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
NOT = "The five existing tests only format random numbers and parse one line; none processes a file. "

# ------------------------------------------------------------------ welder: the stream
prop("P01", "No source line is lost or duplicated by welding",
 "While welding, every line of the source file that has g-code or a comment is either written to the target exactly once with its g-code and comment text, or is a move that the written arc replaces. Everything still held back when the input ends is written before the target is closed, and lines come out in the order they went in.",
 ["inputs", "configurations", "histories"], "every source file, every option set, every position at which an arc starts, is refused, is finished or the file ends",
 NOT + "Loss shows only at particular boundaries (arc open at end of file, blank line while an arc is pending, refused arc).",
 [AW+"arc_welder.cpp", AW+"unwritten_command.h", GP+"array_list.h"],
 [("per-line processing: each line queued or flushed on every path", AW+"arc_welder.cpp process_gcode"), ("final flush before close", AW+"arc_welder.cpp process"), ("queue drained front to back", AW+"arc_welder.cpp write_unwritten_gcodes_to_file"), ("text rebuilt from g-code and comment", AW+"unwritten_command.h")],
 ["the target file"])
prop("P02", "A written arc replaces exactly the moves it was fitted to",
 "When an arc is written, exactly as many queued moves are dropped from the back of the queue as the arc has segments; the lines queued before them are written first, then the one arc line, and the line that ended the arc is processed again from the position before it. The comments of the dropped moves are kept on the arc line.",
 ["inputs", "histories"], "every arc, with any lines queued before it and blank lines between its moves",
 NOT, [AW+"arc_welder.cpp", GP+"array_list.h", GP+"gcode_position.cpp"],
 [("drop moves, undo the position once, flush, write the arc", AW+"arc_welder.cpp write_arc_gcodes"), ("clear the arc, stop waiting, reprocess the line", AW+"arc_welder.cpp process_gcode"), ("comment collection", AW+"arc_welder.cpp get_comment_for_arc")], ["the target file"])
prop("P03", "A move joins an arc only when an arc can express it",
 "A source line becomes part of an arc only if it is a recognised, non-empty G0/G1 in absolute XYZ mode whose workspace and firmware offsets and extruder mode are the same before and after it, with unchanged Z unless 3D arcs are allowed, and within the extrusion-rate variance when that limit is on. Once an arc is open it must also have the feed rate and the feature type of the line before it, and be an extrusion, a retraction or (only if travel arcs are allowed) a travel.",
 ["inputs", "configurations", "histories"], "every line following every history of modes, offsets, feed rates and features, under every option set",
 NOT + "Each condition matters only for one particular kind of mode change inside a curve.",
 [AW+"arc_welder.cpp"], [("admission condition guarding the call that offers a point to the arc", AW+"arc_welder.cpp process_gcode")])
prop("P04", "No arc is accepted without every geometric check",
 "A point is accepted into an arc only after all of these succeeded for the arc that includes it: the fitted circle exists and its radius is within the maximum, every inner point and every segment's closest approach stays within the resolution of the circle, the arc length is within the path tolerance of the original length, a direction was determined, and the points lie within the arc's slice. With 3D arcs also the Z steps are even and the path is shorter than one full turn.",
 ["inputs", "configurations"], "every sequence of points and every tolerance setting",
 NOT, [AW+"segmented_shape.cpp", AW+"segmented_arc.cpp"],
 [("circle fit, deviation, path tolerance, slice checks on every path to acceptance", AW+"segmented_shape.cpp try_create_circle / is_over_deviation / get_deviation_sum_squared / try_create_arc"), ("acceptance of a point", AW+"segmented_arc.cpp try_add_point_internal_")])
prop("P05", "The fitted circle passes through its three defining points",
 "The centre and radius computed from three points are those of the circle through these points, the centre offsets written to the arc are measured from the arc's start point, and the point used to test a segment is the foot of the perpendicular from the centre. The arc starts at the first and ends at the last of the fitted points.",
 ["inputs"], "every triple of points (as real-number identities)", NOT,
 [AW+"segmented_shape.cpp"], [("circle through three points", AW+"segmented_shape.cpp circle::try_create_circle"), ("I and J", AW+"segmented_shape.cpp arc::get_i / get_j"), ("perpendicular foot", AW+"segmented_shape.cpp segment::get_closest_perpendicular_point")])
prop("P06", "A refused point leaves the open arc unchanged",
 "When a point is refused, the arc that was open before is unchanged: its points, fitted geometry, original length and extrusion are what they were, so the arc written next covers exactly the moves accepted so far. When an arc is cleared, nothing of it carries over into the next one.",
 ["inputs", "histories"], "every refusal reason (too long g-code, firmware compensation, zero offsets, too short, failed fit) and every later arc", NOT,
 [AW+"segmented_arc.cpp", AW+"segmented_shape.cpp"], [("rollback on every refusing path", AW+"segmented_arc.cpp try_add_point_internal_"), ("clear", AW+"segmented_shape.cpp clear")])
prop("P07", "The emitted arc command is complete and unambiguous",
 "Every arc line is G2 for clockwise and G3 for counter-clockwise, followed by the X and Y of the end point and the I and J offsets, each formatted with the XYZ precision; Z appears exactly when 3D arcs are allowed and Z changes, E (relative or absolute as the extruder mode requires, with the E precision) exactly when the arc extrudes or retracts, and F exactly when the feed rate differs from the start's.",
 ["inputs", "configurations"], "every arc, extruder mode and precision", NOT,
 [AW+"segmented_arc.cpp"], [("arc text", AW+"segmented_arc.cpp get_shape_gcode")], ["the target file"])
prop("P08", "The maximum g-code length counts every part of the arc line",
 "When a maximum g-code length is set, an arc is refused if its line would be longer; the computed length counts every parameter that is written, each with its letter, separating space, sign, digits, decimal point and decimals, under the same conditions under which it is written.",
 ["inputs", "configurations"], "every arc and limit", NOT,
 [AW+"segmented_arc.cpp"], [("length computation", AW+"segmented_arc.cpp get_shape_gcode_length"), ("limit check before acceptance", AW+"segmented_arc.cpp try_add_point_internal_")])
prop("P09", "Firmware compensation and degenerate arcs are always refused",
 "With firmware compensation on, an arc is refused and counted when a full circle of its radius would be interpolated with fewer than the minimum of segments of the configured length, unless pieces of the arc's own length would also reach the minimum around the circle; an arc whose I and J are both zero, or that is shorter than the coordinate tolerance, is always refused.",
 ["inputs", "configurations"], "every candidate arc and compensation setting", NOT,
 [AW+"segmented_arc.cpp"], [("refusals before acceptance", AW+"segmented_arc.cpp try_add_point_internal_")])
# ------------------------------------------------------------------ welder: files and process
prop("P10", "The welder never loses the source file",
 "When source and target are the same file, however the two paths are written, the original is only removed after the complete result was written, closed and found error-free to a separate temporary file, and processing was not cancelled; the result then takes the original's name. On every failure or cancellation the original remains in place, and when the target is a different file the source is never opened for writing, removed or renamed.",
 ["inputs", "fault_sequences", "configurations"], "every failure of open, write, close, rename and every cancellation", NOT + "They open no file.",
 [AW+"arc_welder.cpp", GP+"utilities.cpp"], [("temporary file, close, remove, rename", AW+"arc_welder.cpp process")], ["the file system"])
prop("P11", "Failures and cancellation are reported, not swallowed",
 "If the source or target cannot be opened or the result cannot be written, the welder reports failure with a message and the command line tool exits with a non-zero status; success is reported only if the whole input was processed. When the progress callback asks to stop, no further line is read, what is pending is still written, and the result says cancelled and not successful.",
 ["inputs", "fault_sequences", "configurations"], "every failing path and every callback answer", NOT,
 [AW+"arc_welder.cpp", AC+"ArcWelderConsole.cpp"], [("results filled on every return", AW+"arc_welder.cpp process"), ("exit status", AC+"ArcWelderConsole.cpp main")])
prop("P12", "Invalid command line values are refused before any file is touched",
 "Each numeric option of the welder's command line is checked against its documented range, in its full numeric type, before processing starts; a value outside it ends the program with a message and without creating, changing or deleting any file. No exception escapes from the program.",
 ["inputs", "configurations"], "every value of every option", NOT,
 [AC+"ArcWelderConsole.cpp"], [("range checks", AC+"ArcWelderConsole.cpp main")])
prop("P13", "Every welder option reaches the algorithm it configures",
 "Every option of the command line tool and every key of the Python interface sets the setting it names, and each setting is handed on unchanged (apart from documented limits) to the part of the welder that uses it; options left out take the documented defaults, which are the same in both front ends.",
 ["configurations"], "every option and combination", NOT,
 [AC+"ArcWelderConsole.cpp", PY+"py_arc_welder.cpp", PY+"py_arc_welder_extension.cpp", AW+"arc_welder.h", AW+"arc_welder.cpp", AW+"segmented_arc.cpp"], [("option to argument to member wiring", AC+"ArcWelderConsole.cpp main; "+AW+"arc_welder.cpp constructor; "+AW+"segmented_arc.cpp constructor")])
prop("P14", "Statistics count each source move once and each written move once",
 "Each source move with length is added to the source statistics exactly once, under extrusion, retraction or travel as it moves material, even if its line is processed twice; each written move or arc is added to the target statistics of the same kind when it is written. The counters of arcs created and points compressed change exactly when an arc is written.",
 ["inputs", "histories"], "every file", NOT,
 [AW+"arc_welder.cpp"], [("statistics updates", AW+"arc_welder.cpp process_gcode / write_unwritten_gcodes_to_file / write_arc_gcodes")])
# ------------------------------------------------------------------ straightener
prop("P15", "The straightener copies every non-arc line and converts every arc",
 "When arcs are interpolated, every input line that is not G2/G3 is written unchanged and in order, every G2/G3 is replaced by the moves computed from its own target, I, J, R and direction and from the position before it (an arc that yields no move writes nothing), and nothing is dropped between lines.",
 ["inputs", "histories"], "every file and firmware", NOT,
 [AI+"arc_interpolation.cpp"], [("line loop", AI+"arc_interpolation.cpp process")], ["the target file"])
prop("P16", "Interpolation ends at the arc's end point, for every firmware",
 "For every supported firmware version, whenever an arc is replaced by moves, the last of them is a move whose X, Y, Z and E are the arc's commanded end values (for arcs with a rise, the Z of the arc), emitted in addition to the intermediate segments.",
 ["inputs", "configurations"], "every arc, every firmware version and parameter set", NOT,
 [AI+"marlin_1.cpp", AI+"marlin_2.cpp", AI+"prusa.cpp", AI+"repetier.cpp", AI+"smoothieware.cpp"], [("final move after the segment loop", "plan_arc / mc_arc / arc of each firmware")])
prop("P17", "Each emitted segment is relative to the previously emitted one",
 "A linear move written by any firmware emitter states X and Y only when they changed, Z, E and F likewise, and in relative modes states the difference to the previously emitted position; after each emitted move the tracked position is that move's end.",
 ["inputs", "configurations"], "every segment of every arc in absolute and relative modes, every firmware", NOT,
 [AI+"firmware.cpp", AI+"marlin_1.cpp", AI+"marlin_2.cpp", AI+"prusa.cpp", AI+"repetier.cpp", AI+"smoothieware.cpp"], [("g1 text", AI+"firmware.cpp g1_command"), ("position update after each emitted move", "buffer_line / plan_buffer_line / append_milestone / moveToReal")])
prop("P18", "Every offered firmware version selects its own implementation",
 "Every version name a firmware offers selects exactly one interpolation routine and one set of supported parameters, unknown versions fall back to the documented default, and the versions offered, their numbering and the selected routines agree for every firmware type; each firmware type the command line accepts constructs that firmware.",
 ["configurations"], "every firmware type and version", NOT,
 [AI+"firmware.cpp", AI+"firmware.h", AI+"marlin_1.cpp", AI+"marlin_2.cpp", AI+"prusa.cpp", AI+"repetier.cpp", AI+"smoothieware.cpp", AI+"arc_interpolation.cpp", AI+"ArcWelderInverseProcessor.cpp"], [("apply_arguments", "each firmware"), ("switches over the firmware type", AI+"arc_interpolation.cpp, "+AI+"ArcWelderInverseProcessor.cpp")])
prop("P19", "Firmware parameters are applied as given or refused",
 "Every firmware parameter given on the straightener's command line is stored in the setting of that name, is refused if the selected firmware version does not use it, and for every firmware version, a parameter it declares as used is read by its arc routine and has a default, and a parameter its routine reads without declaring it is off by default.",
 ["configurations"], "every parameter of every firmware version", NOT,
 [AI+"ArcWelderInverseProcessor.cpp", AI+"firmware.h", AI+"marlin_1.cpp", AI+"marlin_2.cpp", AI+"prusa.cpp", AI+"repetier.cpp", AI+"smoothieware.cpp"], [("argument wiring", AI+"ArcWelderInverseProcessor.cpp"), ("used argument tables", "apply_arguments of each firmware")])
prop("P20", "The straightener never loses the source file and reports failure",
 "When the straightener overwrites its input (source and target are the same file, however the two paths are written), the original is removed only after input and output were opened and the complete result was written without error and closed; on any failure the original stays and the program exits with a non-zero status. When the target is a different file the source is never modified.",
 ["inputs", "fault_sequences"], "every failure of open, write, close and rename", NOT,
 [AI+"ArcWelderInverseProcessor.cpp", AI+"arc_interpolation.cpp"], [("overwrite handling", AI+"ArcWelderInverseProcessor.cpp")], ["the file system"])
# ------------------------------------------------------------------ parser / position
prop("P21", "Parsing never reads outside the line",
 "For any line of bytes the parser terminates and never reads past the terminating zero of its input: it advances over a character only after that character was found to be non-zero, and every scanning loop stops at the end of the line.",
 ["inputs"], "every byte string as a line", "One fixed line is parsed by the tests.",
 [GP+"gcode_parser.cpp"], [("pointer scanners", GP+"gcode_parser.cpp")])
prop("P22", "Parsing keeps the text of the command and its comment",
 "With text preservation on (as the welder uses it) the g-code text of a line is the original text before the comment, only trimmed of leading and trailing blanks, and the comment is exactly the text after the first semicolon; a parse always starts from an empty result and unknown commands are kept as text.",
 ["inputs"], "every line", "One fixed line is parsed by the tests, without an assertion.",
 [GP+"gcode_parser.cpp", GP+"parsed_command.cpp"], [("text copy", GP+"gcode_parser.cpp try_parse_gcode")])
prop("P23", "Every command the tracker acts on is recognised by the parser",
 "Every command for which the position tracker has an effect is recognised with its parameters by the parser, each is routed to the effect of its own name, and a numeric parameter's value and sign are stored where the consumers read them.",
 ["inputs"], "every command word and parameter", NOT,
 [GP+"gcode_parser.cpp", GP+"gcode_position.cpp", GP+"parsed_command_parameter.cpp"], [("recognised-command tables", GP+"gcode_parser.cpp constructor"), ("effect table", GP+"gcode_position.cpp constructor")])
prop("P24", "Mode commands have exactly their documented effect",
 "G90/G91 set absolute/relative XYZ (and the extruder mode only when so configured), M82/M83 set absolute/relative extrusion, G20/G21 leave coordinates and positioning modes alone, G92 sets offsets so that the named axes read the given values without moving (all axes when none is named), and G28 homes only the named axes (all when none is named); commands leave every other mode untouched.",
 ["inputs", "histories"], "every sequence of commands", NOT,
 [GP+"gcode_position.cpp", GP+"position.cpp"], [("process_* handlers", GP+"gcode_position.cpp")])
prop("P25", "Tracked coordinates follow each move exactly",
 "After a move, the coordinate the tracker reports in g-code terms for each named axis is the commanded value in absolute mode and the old value plus the commanded one in relative mode, for X, Y, Z and E alike; unnamed axes keep their value, and extrusion and retraction lengths always add up to the extruder's movement: what a move feeds first makes up for an earlier retraction, only the rest counts as extruded, neither length is ever negative, and the extruder is reported as extruding exactly on the moves that extrude.",
 ["inputs", "histories"], "every move after every history of offsets and modes (as real-number identities)", NOT,
 [GP+"gcode_position.cpp", GP+"position.cpp", GP+"extruder.cpp"], [("update_position, extruder update", GP+"gcode_position.cpp"), ("coordinate accessors", GP+"position.cpp, "+GP+"extruder.cpp")])
prop("P26", "Undoing an update restores the previous position",
 "Every line is tracked in a new history entry that starts as a copy of the previous one, so undoing an update makes the position before it current again; history entries are never shared, growing the history keeps every entry in order, and pointers into the history are not used after it may have moved.",
 ["histories"], "every sequence of updates, undos and growth", NOT,
 [GP+"gcode_position.cpp", GP+"circular_buffer.h"], [("add_position / undo_update", GP+"gcode_position.cpp"), ("ring index arithmetic", GP+"circular_buffer.h")])
prop("P27", "Copies of tracking state and settings are complete",
 "Copying or assigning any state, settings, command or result object transfers every one of its members, and self-owned buffers are duplicated, never shared.",
 ["histories", "configurations"], "every copy anywhere in the program", NOT,
 [GP+"position.cpp", GP+"extruder.cpp", GP+"gcode_position.h", GP+"array_list.h", GP+"parsed_command.h", GP+"parsed_command_parameter.cpp", AW+"segmented_shape.cpp", AW+"arc_welder.h"], [("hand-written copy constructors and assignments", "all classes")])
prop("P28", "No object is used with uninitialised members",
 "After construction every scalar or pointer member of every object holds a defined value, before anything reads it.",
 ["inputs", "configurations"], "every constructor of every class", NOT,
 [GP+"position.cpp", GP+"gcode_position.h", AW+"arc_welder.h", AW+"segmented_shape.h", AI+"arc_interpolation.h", AI+"firmware.h"], [("constructors", "all classes")])
prop("P29", "Owned memory is freed once, by the matching form",
 "Every owning pointer is released in the owner's destructor with the form of delete that matches its allocation, buffers are released before they are replaced, polymorphic objects deleted through a base have a virtual destructor, and objects that own raw memory are never copied member by member.",
 ["inputs", "histories"], "every object lifetime", NOT,
 [GP+"array_list.h", GP+"circular_buffer.h", GP+"position.cpp", GP+"gcode_position.cpp", AI+"marlin_1.cpp", AI+"marlin_2.cpp", AI+"firmware.h", AI+"arc_interpolation.cpp"], [("new/delete pairs", "all classes")])
prop("P30", "Queues and histories keep their elements in order and in bounds",
 "The queue and history containers return elements in insertion order from the front and reverse order from the back, refuse removal from an empty container, access only slots of their allocation, keep all elements in order when they grow or are copied, and on adding to a full container the queue grows or refuses while the bounded history drops exactly its oldest entry.",
 ["histories"], "every sequence of container operations", NOT,
 [GP+"array_list.h", GP+"circular_buffer.h"], [("index arithmetic, growth", GP+"array_list.h, "+GP+"circular_buffer.h")])
prop("P31", "Tool and table indices are checked before use",
 "An extruder number coming from the g-code is only used to index per-tool state after it was brought into the configured range, and log levels and logger numbers are valid indices at every logging call.",
 ["inputs"], "every T command and every log call", NOT,
 [GP+"gcode_position.cpp", GP+"position.cpp", GP+"logger.cpp", PY+"py_logger.cpp"], [("tool clamp", GP+"gcode_position.cpp process_t"), ("logger arguments", "all log calls")])
prop("P32", "Number formatting stays inside its buffer",
 "Formatting any finite number with any precision the program can select never writes outside the character buffer used for it.",
 ["inputs", "configurations"], "every finite double and every precision", "The tests format numbers up to a million with fixed precisions.",
 [GP+"utilities.cpp", GP+"fpconv.cpp", GP+"fpconv.h"], [("buffer and digit bounds", GP+"utilities.cpp dtos, "+GP+"fpconv.cpp")])
prop("P33", "Independent conversions share no mutable state",
 "Two conversions in one process do not influence each other: processing reads and writes no mutable global or function-static data except logging, so results depend only on the input and the settings.",
 ["schedules", "histories"], "every interleaving or sequence of conversions", NOT,
 [GP+"utilities.cpp", GP+"fpconv.cpp", AW+"arc_welder.cpp", AI+"marlin_1.cpp"], [("absence of mutable globals on the processing call graph", "whole program")])
prop("P34", "Temporary files never collide with an existing file",
 "The temporary file used to overwrite a source lies in the directory of the source under a name that differs between processes and calls, and its name is not that of an existing user file.",
 ["schedules", "inputs"], "every set of concurrent runs", NOT,
 [GP+"utilities.cpp"], [("temporary name", GP+"utilities.cpp get_temp_file_path_for_file / create_uuid")])
prop("P35", "The Python interface checks every object it is given",
 "Every value fetched from the caller's dictionary is checked for presence and convertibility before use, every native call that can fail has its failure turned into a Python error or a default, each value handed to Python is built with the format of its type, and the references and interpreter lock taken are given back on every path.",
 ["inputs", "fault_sequences"], "every dictionary and every callback result", "The extension is not tested at all.",
 [PY+"py_arc_welder_extension.cpp", PY+"py_arc_welder.cpp", PY+"py_logger.cpp", PY+"python_helpers.cpp"], [("argument extraction and reference handling", PY+"*.cpp")])
prop("P36", "Direction and centre survive the round trip",
 "G2 is clockwise and G3 counter-clockwise in both tools: a clockwise arc is written as G2, a G2 is interpolated clockwise by every firmware through the angle from its start to its end (a full turn if it ends where it starts), and the arc centre is the start point plus (I, J) on writing, on interpolation and in the length statistics.",
 ["inputs", "configurations"], "every arc in both directions", NOT,
 [AW+"segmented_shape.cpp", AW+"segmented_arc.cpp", AW+"arc_welder.cpp", AI+"arc_interpolation.cpp", AI+"marlin_1.cpp", AI+"marlin_2.cpp", AI+"prusa.cpp", AI+"repetier.cpp", AI+"smoothieware.cpp"], [("direction flags and centre formulas", "both tools")])
prop("P37", "Numerical tolerance helpers mean what they say",
 "The comparison helpers used for every decision treat two numbers as equal exactly when they differ by less than the tolerance, and their less/greater/zero variants are consistent with that; clamping, rounding and distance helpers compute the function they name.",
 ["inputs"], "every pair of finite numbers", "The tests do not call them.",
 [GP+"utilities.cpp"], [("comparison and math helpers", GP+"utilities.cpp")])
prop("P38", "Feature types are recognised from slicer comments",
 "The feature type attached to a move comes only from comments the comment style in use defines: each recognised feature comment selects its own feature, a section stays in force until another section comment replaces or ends it, any other comment changes neither feature nor style, and the first style recognised is the one kept.",
 ["inputs", "histories"], "every comment line", NOT,
 [GP+"gcode_comment_processor.cpp"], [("comment tables", GP+"gcode_comment_processor.cpp")])
prop("P43", "The slicer's identification stays the first line",
 "A first line by which printers or hosts recognise the file (;FLAVOR:UltiGCode, exactly, or one that starts with '; generated by PrusaSlicer'), with either line ending, is the first line of the welded file, unchanged and once, and the header of the welder follows it; before any other first line the header is written first. The header is written once, for the first line only.",
 ["inputs", "configurations"], "every first line", NOT,
 [AW+"arc_welder.cpp"], [("first line handling in process", AW+"arc_welder.cpp"), ("add_arcwelder_comment_to_target", AW+"arc_welder.cpp")])
# ------------------------------------------------------------------ out of reach
prop("P39", "The printed path deviates by at most the resolution",
 "The distance between the original polyline and the arc that replaces it never exceeds the configured resolution, including rounding of the written coordinates.",
 ["inputs"], "every polyline", NOT, [AW+"segmented_shape.cpp", GP+"utilities.cpp"], [("deviation checks", AW+"segmented_shape.cpp")])
prop("P40", "Total extrusion is conserved numerically",
 "The filament extruded by the welded or straightened file equals that of the source up to the rounding of the written E values.",
 ["inputs"], "every file", NOT, [AW+"segmented_arc.cpp", AI+"firmware.cpp"], [("E bookkeeping", AW+"segmented_arc.cpp")])
prop("P41", "Formatted numbers are correctly rounded",
 "Every number written is the decimal with the requested number of places nearest to the value.",
 ["inputs"], "every double and precision", "Sampled at random by the tests.", [GP+"fpconv.cpp"], [("digit generation", GP+"fpconv.cpp")])
prop("P42", "Processing time stays proportional to the input",
 "Welding takes time proportional to the file size for a fixed history length.",
 ["inputs"], "every file", NOT, [AW+"segmented_shape.cpp"], [("fit search", AW+"segmented_shape.cpp")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
