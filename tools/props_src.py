"""Source of properties.jsonl: run to regenerate it."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": None}})


A = "src/pygerber/gerber/ast/"
C = "src/pygerber/gerber/compiler/"
V = "src/pygerber/vm/"

prop("C01", "Coordinate text and numbers convert into each other without loss",
     "For every coordinate format (leading or trailing zero omission, digit counts, absolute or incremental), decoding a coordinate string gives exactly the decimal value the Gerber format defines, and encoding a representable value gives a string that decodes to that value and whose re-encoding is unchanged. X, Y, I and J use the digit counts of their own axis, and a sign is never lost or misplaced.",
     ["inputs", "configurations"], "all coordinate formats x all representable values, both signs, zero, shortest and full-length strings, both zero-omission modes",
     "Existing tests decode a dozen strings in one or two formats; the error cases sit at particular digit counts, signs and zero runs.",
     [A + "state_tracking_visitor.py"], [("CoordinateFormat.unpack_x/unpack_y/pack_x/pack_y", A + "state_tracking_visitor.py")],
     ["CoordinateFormat.unpack_*/pack_*", "coordinates of drawn geometry"])
prop("C02", "Parsing yields exactly the commands the source text spells",
     "For every syntactically valid Gerber program the parser returns the commands that are in the text, in order, each with the operand values written there, and nothing else. The recorded source span of every command is the text of that command. Node classes supplied as overrides are used for every node of their name.",
     ["inputs", "programs"], "all valid command sequences: every command, operand subset, number spelling, white space and line break placement",
     "Tests parse a fixed set of sample files and mostly compare against recorded snapshots of today's output.",
     ["src/pygerber/gerber/parser/pyparsing/grammar.py", "src/pygerber/gerber/parser/pyparsing/parser.py", A + "nodes/"],
     [("Grammar", "src/pygerber/gerber/parser/pyparsing/grammar.py"), ("Parser.parse", "src/pygerber/gerber/parser/pyparsing/parser.py")],
     ["gerber.parse / Parser.parse result", "GerberFile.from_str().get_ast()"])
prop("C03", "Malformed source is reported or isolated, never swallowed",
     "Given source that is not valid Gerber, the strict parser raises its documented syntax error and never another exception, and never returns a program that drops or alters text. The resilient parser accepts every text, terminates, and keeps each valid command on the lines that are not damaged.",
     ["inputs", "fault_sequences"], "all texts, including valid programs with characters inserted, deleted, replaced, truncated at any point, and arbitrary bytes",
     "Tests feed a couple of hand-written malformed files; faults can be at any position of any command.",
     ["src/pygerber/gerber/parser/pyparsing/grammar.py", "src/pygerber/gerber/parser/pyparsing/parser.py"],
     [("Grammar.build_resilient", "src/pygerber/gerber/parser/pyparsing/grammar.py"), ("Parser(resilient=True)", "src/pygerber/gerber/parser/pyparsing/parser.py")],
     ["Parser.parse"])
prop("C04", "Formatting never changes what a Gerber program says",
     "For every program and every combination of formatter options, the formatted text parses back to the same commands with the same operand values (up to the documented float precision), and formatting formatted text changes nothing. Each layout option has the effect it documents and no other.",
     ["programs", "configurations"], "all programs x all formatter option combinations",
     "Tests format one or two sample files per option and compare with snapshots; interactions of options and unusual operands are not reached.",
     ["src/pygerber/gerber/formatter/formatter.py", "src/pygerber/gerber/formatter/options.py"],
     [("Formatter", "src/pygerber/gerber/formatter/formatter.py")],
     ["gerber.formatter.format / formats", "CLI gerber format"])
prop("C05", "Interpreter follows the Gerber graphics state exactly",
     "Executing any program performs the sequence of draw, arc, move, flash and region operations the Gerber specification prescribes: each with the right kind, current point, end point, centre offset, aperture, polarity and transformation at that moment. Modal settings take effect from the next operation on and persist until changed, whatever the order of commands.",
     ["programs", "histories"], "all command sequences, including modal coordinates, repeated settings, aperture re-selection, mode switches and deprecated combined codes",
     "Tests check handlers one command at a time; the defects are in interactions of several earlier commands with a later one.",
     [A + "state_tracking_visitor.py", A + "ast_visitor.py"],
     [("StateTrackingVisitor", A + "state_tracking_visitor.py"), ("State", A + "state_tracking_visitor.py")],
     ["StateTrackingVisitor.on_draw_*/on_flash_* callbacks", "visitor.state"],
     [("State", "current point, aperture, plot mode, polarity, transform, unit", A + "state_tracking_visitor.py")])
prop("C06", "Attributes attach to exactly the objects they were set for",
     "At any point of any program the file, aperture and object attribute dictionaries contain exactly the attributes that were set and not deleted, with the latest value; an aperture carries the aperture attributes in force when it was defined, and each drawn object carries the object attributes in force when it was drawn.",
     ["programs", "histories"], "all interleavings of attribute setting, redefinition, selective and total deletion, aperture definitions, selections and operations",
     "Tests set one attribute and look at it; ordering effects between set, delete, define and draw are not explored.",
     [A + "state_tracking_visitor.py", C + "compiler.py"],
     [("AttributesState / on_ta/on_tf/on_to/on_td", A + "state_tracking_visitor.py")],
     ["visitor.state.attributes", "attributes on aperture definitions and on compiled commands"],
     [("attributes", "file/aperture/object attribute dictionaries", A + "state_tracking_visitor.py")])
prop("C07", "Macro expressions evaluate as arithmetic with left-to-right variables",
     "Flashing a macro aperture evaluates every primitive operand as the arithmetic its text denotes, with usual precedence, left associativity, parentheses and unary signs. Variables hold the instantiation parameters, undefined ones are 0, and assignments take effect for the statements after them only and never leak into another instantiation.",
     ["inputs", "programs"], "all expressions over + - x / and variables, all assignment orders, all parameter lists shorter or longer than used",
     "A few literal expressions are tested; precedence, associativity and variable scope errors show on combinations only.",
     ["src/pygerber/gerber/parser/pyparsing/grammar.py", A + "expression_eval_visitor.py", A + "nodes/math/", C + "compiler.py"],
     [("ExpressionEvalVisitor", A + "expression_eval_visitor.py"), ("Assignment", A + "nodes/math/assignment.py")],
     ["value returned by the evaluator", "geometry of flashed macros"])
prop("C08", "Rendered image of draws, flashes and regions equals their defined shape",
     "The vector image of any program made of lines, circular arcs, flashes of standard apertures and regions, in dark and clear polarity, covers exactly the area the Gerber specification defines for it, objects being applied in file order.",
     ["programs", "inputs"], "all sequences of operations, apertures with and without holes, positions, quadrants, directions, zero-length draws and polarities",
     "Tests compare with stored pictures of sample files by similarity or only check that rendering does not crash.",
     [C + "compiler.py", V + "shapely/vm.py", V + "types/", V + "commands/shape.py"],
     [("Compiler", C + "compiler.py"), ("ShapelyVirtualMachine", V + "shapely/vm.py"), ("Shape.new_*", V + "commands/shape.py")],
     ["ShapelyResult.shape"])
prop("C09", "Aperture transformations apply to flashes as specified",
     "Every flash is the aperture first mirrored, then rotated, then scaled about its own origin by the settings in force at the flash, then placed at the flash point; changing the settings never alters earlier objects, and returning to a setting reproduces the same image.",
     ["programs", "histories"], "all mirror modes, rotation angles, scale factors, apertures and histories of changes of them",
     "Tests use one transformation at a time on symmetric apertures, for which composition order and stale caching are invisible.",
     [C + "compiler.py", V + "types/matrix.py", A + "state_tracking_visitor.py"],
     [("aperture transform and transformed aperture buffers", C + "compiler.py")], ["ShapelyResult.shape"])
prop("C10", "Blocks and step-and-repeat replicate their contents exactly",
     "Flashing a block aperture draws the block's contents shifted to the flash point, with the block's own polarity toggled if the flash is clear, at any nesting depth; step-and-repeat draws its contents once per grid cell at exact multiples of its steps. State set inside is as the specification says after it ends.",
     ["programs"], "all nestings of blocks, repeat counts, steps, polarities, contents and positions before the repeat",
     "Tests render one nested sample by eye; offsets relative to previous position and nested polarity are not checked.",
     [C + "compiler.py", A + "state_tracking_visitor.py"],
     [("on_flash_block / on_sr", C + "compiler.py")], ["ShapelyResult.shape"])
prop("C11", "Every macro primitive produces its specified geometry",
     "For all parameter values the image of a flashed macro is the specified combination of its primitives: circle, vector line, centre line, lower-left line, outline, polygon, moire and thermal, each rotated about the macro origin by its own angle, with exposure off erasing what the same macro drew before it and nothing else.",
     ["inputs", "programs"], "all primitive kinds, parameters, rotations, exposures and orders within a macro",
     "Tests flash each primitive once with a single parameter set and compare with stored pictures.",
     [C + "compiler.py", V + "commands/shape.py"],
     [("on_code_1 .. on_code_22", C + "compiler.py")], ["ShapelyResult.shape"])
prop("C12", "Raster and vector renderers agree for the same program",
     "For every program and resolution the raster image has the size of the program's extent times the resolution, is aligned to it with Y up, and every pixel away from an edge has the colour of the area that contains it.",
     ["programs", "configurations"], "all programs and resolutions, coordinates away from the origin, negative coordinates, clear polarity, nested layers",
     "Tests store reference pictures for samples made by the same renderer; nothing relates raster output to geometry.",
     [V + "pillow/vm.py", V + "shapely/vm.py", C + "compiler.py"],
     [("PillowVirtualMachine", V + "pillow/vm.py")], ["PillowResult.get_image()", "PillowResult.main_box"])
prop("C13", "Compilation is deterministic and its output well-formed",
     "Compiling the same program again, in the same or another process, gives the same drawing instructions; every layer that is pasted or drawn to is defined before use, exactly once, and exactly one main layer exists. The exported form contains every instruction with its operands.",
     ["programs", "histories"], "all programs, repeated compilations, process and hash seeds",
     "Tests compile each program once; order of layer definitions depends on set iteration, object identity and time.",
     [C + "compiler.py", V + "rvmc.py"], [("Compiler.compile / RVMC.to_json", C + "compiler.py")],
     ["RVMC.commands", "RVMC.to_json()"])
prop("C14", "Layer machine executes any instruction list as layer algebra",
     "Any well-formed instruction list renders as layer algebra says: dark shapes add, clear shapes erase, a paste places a finished layer at a point, layers nest, and each layer is sized by its contents or by its given box. Ill-formed lists raise the documented errors.",
     ["programs", "histories"], "all well-formed nestings of layer start/end, shapes of both polarities, pastes and ill-formed variants",
     "Tests run a handful of lists with one or two shapes and compare pictures.",
     [V + "vm.py", V + "shapely/vm.py", V + "pillow/vm.py", V + "commands/"],
     [("VirtualMachine.on_start_layer/on_end_layer/on_paste_layer", V + "vm.py")], ["Result of running a VM"],
     [("layers", "layer stack and finished layers", V + "vm.py")])
prop("C15", "Geometry primitives obey vector, matrix and box algebra",
     "Vectors, matrices and boxes obey the laws of plane geometry: inverses, composition, rotation, mirroring and scaling act as matrices do, angles are measured consistently, and the box of any segment, arc or shape contains every point of it and is no larger than its extent (for an arc, the extent of the arc and its centre).",
     ["inputs"], "all vectors, angles including axis-aligned, boxes, arcs of any sweep and direction, shapes",
     "Unit tests check single values, mostly away from the quadrant boundaries where these functions go wrong.",
     [V + "types/vector.py", V + "types/matrix.py", V + "types/box.py", V + "commands/shape.py"],
     [("Vector, Matrix3x3, Box, Line, Arc, Shape", V + "types/")], ["return values of these types"])
prop("C16", "Gerber builder emits the image that was requested of it",
     "Any sequence of builder calls yields a valid Gerber program whose operations are exactly the requested pads, traces, arcs and regions, at the requested places, with the requested apertures, polarity, transformations and attributes, and nothing of one object's settings carries over to another.",
     ["histories", "programs"], "all interleavings of builder calls with all option combinations",
     "Tests build one object kind per test; what leaks between objects depends on call history.",
     ["src/pygerber/builder/gerber.py"], [("GerberX3Builder", "src/pygerber/builder/gerber.py")],
     ["GerberX3Builder.get_code() dump, interpreted independently"])
prop("C17", "High-level file and composite views report the same truth",
     "Loading a program from text, file path or stream and rendering it through any back end of the high-level interface gives the image of the program, the size and coordinates reported match the program's geometry in the reported units, and a composite view stacks its layers aligned, in order and coloured as requested.",
     ["inputs", "configurations"], "all programs, sources, back ends, colours, units, layer counts and orders",
     "Tests render fixed samples through each entry point and mostly check that a file appears.",
     ["src/pygerber/gerber/api/"], [("GerberFile, CompositeView", "src/pygerber/gerber/api/")],
     ["returned images, boxes and files"])
prop("C18", "Command line tools produce what the library produces",
     "For every input file and option set, each command line tool writes the same result that the library call with those options returns, to the requested output only, and reports failure with a non-zero exit status without leaving output that looks valid.",
     ["configurations", "inputs"], "all commands, option combinations, inputs valid and invalid, existing outputs",
     "Tests invoke each command once with default options and check the exit status.",
     ["src/pygerber/console/"], [("click commands", "src/pygerber/console/")], ["exit status and written files"])
prop("C19", "Job files load into the project they describe",
     "Every job file with all required fields loads with the values it states; in the project made from it each listed copper, mask, paste, silkscreen or legend file is in exactly the view of the side or layer it declares, with the function it declares, the profile is in every view, views stack files in fixed order and inner views follow the layer numbers; a missing or malformed required field, cut job file or missing Gerber file is reported, and a file of unknown function is never taken for another one.",
     ["inputs", "configurations"], "all job files: layer counts, orders, functions, optional fields present or absent, faults in any field",
     "Tests load two sample job files.",
     ["src/pygerber/gerber/api/", "src/pygerber/gerber/api/"], [("job file loader", "src/pygerber/gerber/api/")], ["loaded project"])
prop("C20", "Linter reports every violation once, at the right place, and only those",
     "For every program the linter reports each occurrence of a deprecated or illegal construct covered by its enabled rules exactly once, at the position of that construct, and reports nothing for code without one.",
     ["programs", "configurations"], "all programs, positions and repetitions of violations, rule selections",
     "Tests lint one snippet per rule with one violation in it.",
     ["src/pygerber/gerber/linter/"], [("Linter and rules", "src/pygerber/gerber/linter/")], ["violations returned by the linter"])
prop("C21", "Editor support answers about the construct under the cursor",
     "For every document and every cursor position, hover and completion answer from the command that covers that position in the current text of that document, after any history of edits, and never fail or answer from another document or an old version.",
     ["inputs", "histories"], "all documents, positions (including line ends and beyond), and edit histories over several documents",
     "Tests ask at one or two positions of a fixed document.",
     ["src/pygerber/gerber/language_server/", A + "node_finder.py"], [("language server and node finder", "src/pygerber/gerber/language_server/")],
     ["answers of the server features"])
prop("C22", "Processing is pure: repeating or interleaving changes nothing",
     "Parsing, formatting, inspecting, compiling and rendering never modify their inputs, and their results do not depend on what was processed before, in which order, or in how many threads at once.",
     ["histories", "schedules"], "all orders, repetitions and concurrent interleavings of operations over several programs",
     "Each test runs one operation on fresh objects in one thread.",
     [C + "compiler.py", V + "", A, "src/pygerber/gerber/parser/"],
     [("freshly created visitors and machines; frozen models", C + "compiler.py")], ["results compared across histories and threads"])
prop("C23", "Colours, styles and vector export keep the image they are given",
     "Colours convert between notations without loss, a rendered picture uses exactly the requested foreground and background, and the exported vector drawing describes the same area as the geometry, holes included, at the right scale and orientation.",
     ["inputs", "configurations"], "all colours and notations, style pairs, programs and scales",
     "Tests use a few named colours and check that an export exists.",
     ["src/pygerber/gerber/api/", V + "shapely/vm.py", V + "pillow/vm.py", "src/pygerber/vm/types/color.py"],
     [("Color/Style", "src/pygerber/gerber/api/"), ("ShapelyResult.save_svg", V + "shapely/vm.py")], ["exported files and pixels"])
prop("C24", "Every visitor sees the whole program, and nodes answer truthfully",
     "Walking any parsed program calls, for each node of its tree, exactly that node's callback, once, in the order of the text, together with the generic callback of its family, and announces the end of the file exactly once. A callback that raises is reported once to the exception callback, whose answer decides whether the remaining commands are still visited. Node accessors (length, end position, callback function, repeat counts and distances, mirroring flags, MD5 verification) agree with the source text, and lookup by source position returns the command at that position.",
     ["programs", "fault_sequences"], "all valid programs, programs with damaged parts read in resilient mode, callbacks raising at any command, all positions inside commands",
     "Tests visit a few hand-made trees and check one MD5 sample; an operand skipped by the walk or a callback of the wrong class shows only for particular commands.",
     [A + "ast_visitor.py", A + "node_finder.py", A + "nodes/"],
     [("AstVisitor", A + "ast_visitor.py"), ("NodeFinder", A + "node_finder.py"), ("TF_MD5.check_source_hash", A + "nodes/attribute/TF.py")],
     ["AstVisitor callbacks", "Node.visit / get_visitor_callback_function", "NodeFinder.find_node"])
prop("C25", "Syntax highlighting never alters the text",
     "For every text, valid Gerber or not, the tokens produced by the highlighter concatenate to the text and terminate, and in valid programs operation, G, M and D codes, coordinate axes and values, codes of property, attribute and aperture commands, macro names and variables are recognized as such wherever they appear.",
     ["inputs"], "all texts", "One sample is highlighted in the tests.",
     ["src/pygerber/gerber/pygments.py"], [("lexer", "src/pygerber/gerber/pygments.py")], ["token stream"])
prop("C26", "Instruction builder produces the layers it was told to",
     "Any nesting of the instruction builder's calls yields a list that runs without error and draws exactly the requested shapes in the requested layers with the requested polarity.",
     ["histories", "programs"], "all nestings and orders of builder calls",
     "Two straight-line uses are tested.",
     ["src/pygerber/builder/rvmc.py"], [("Builder", "src/pygerber/builder/rvmc.py")], ["Builder.commands, run on both machines"])
prop("C27", "Programs that use what they do not define are refused",
     "A program that selects an aperture not defined before (not at all, only later, or inside its own definition), flashes or draws without a selected aperture, instantiates an aperture macro not defined before, or gives coordinates without a preceding coordinate format or with more digits than it allows, is refused with the documented error naming the reference, wherever in the program it happens - in blocks, repeats and regions too - by every way of executing it and again on every repetition; what follows the end of the program is not judged, and programs without such a reference are not refused.",
     ["programs", "fault_sequences"], "all valid programs x one dangling reference of every kind at every place",
     "Tests check three of these errors at one place each; a state left behind by earlier commands can hide the error.",
     [A + "state_tracking_visitor.py", A + "errors.py", C + "compiler.py", C + "errors.py"],
     [("StateTrackingVisitor.on_dnn / on_coordinate_x", A + "state_tracking_visitor.py"), ("Compiler.on_ad_macro", C + "compiler.py")],
     ["exceptions of compile, StateTrackingVisitor and GerberFile.render_with_*"])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    print(len(P))
