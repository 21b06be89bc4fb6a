#!/usr/bin/env python3
"""Single source for properties.jsonl: run `python3 tools/props.py` to rewrite it."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Write then read gives back the same model",
 "Any model that can be built through the library and that the library agrees to write can be read back by the library, and the model read back has the same entities in the same order with the same types, forms, directory attributes, entity-to-entity references, comments and optional references, the same parameter data (reals within the model's declared resolution or the printed precision) and the same start and global data; reading normalises lengths to millimetres and unit model scale (except in externally defined units), as documented. Writing the model that was read back produces the same file again.",
 ["inputs", "histories"], "every supported entity type and form, every option of each, every attribute value class, parameter values of every magnitude, alone and as part of linked models",
 "The stable tests write a handful of geometric models and compare only counts of entities and the multiset of reals for four sample files; attribute, global-field, comment and per-entity-option combinations are never read back.",
 ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/entities/iges_entity.cpp", "src/entities/*.cpp"],
 [("per-entity format/readPD/readDE/associate", "src/entities/entity*.cpp"), ("Read/Write drivers", "src/iges/iges.cpp")],
 observe=["model accessors after Read", "bytes of the written file"])

prop("C02", "Every written file is a well-formed fixed-format IGES file",
 "Whenever writing succeeds the file consists only of 80-column lines in the order Start, Global, Directory, Parameter, Terminate, with consecutive sequence numbers per section and terminate counts equal to the real ones; every directory entry points to its own contiguous parameter lines with the right line count, every parameter line points back to its directory entry, every pointer field names an existing directory entry of the kind the reference was set to, and every item is a legal integer, real or counted string that is never broken across lines unless it is a string. Decoding the file by the published format alone, without the library, yields exactly the values that were put into the model.",
 ["inputs", "histories"], "every model built from the supported entities and attributes, every start/global text length and content, every column alignment, and models of one to thousands of entities",
 "No test parses an output file independently: the tests only look at values the library itself reads back or nothing at all.",
 ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/entities/iges_entity.cpp"],
 [("line packing", "src/iges/iges_io.cpp AddPDItem/AddSecItem/AddPDHStr/AddSecHStr"), ("directory entry output", "src/entities/iges_entity.cpp writeDE"), ("section writers", "src/iges/iges.cpp writeStart/writeGlobals/Write")],
 observe=["bytes of the written file"])

prop("C03", "Reading a damaged file never crashes, hangs or corrupts memory",
 "For any damaged version of an IGES file (cut at any byte, any line removed, duplicated or exchanged, any field replaced by a hostile value, any pointer redirected) reading terminates and reports success or failure without undefined memory behaviour. If it reports success the resulting model can be inspected, culled, rescaled, written and destroyed safely; if it reports failure the object can be cleared and used again.",
 ["inputs", "crash_points"], "every truncation point, every single-line deletion/duplication/exchange, and every single-field substitution from a hostile value set, over a corpus covering every entity type",
 "The tests read only intact files; the damage space is the product of fields and values.",
 ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/entities/*.cpp"],
 [("record and field parsers", "src/iges/iges_io.cpp"), ("pointer resolution", "src/entities/*.cpp associate()"), ("Read error paths", "src/iges/iges.cpp")],
 observe=["return value", "sanitizer reports", "termination"])

prop("C04", "A successful write means a complete file; a refused one touches nothing",
 "Writing reports success only if the complete file, identical to the one produced without faults, is on disk when it returns, whatever operating-system error happens at any point of creating, writing or closing the file. When overwriting was not requested and the target exists, the call reports failure and the existing file keeps its content. After a failed write the model is as an undisturbed write leaves it (orphans culled, the file name noted), and a later write to a good place succeeds and gives the same bytes. A write refused because of the model itself (nothing to write, values which have no representation) leaves the target alone.",
 ["fault_sequences", "crash_points"], "every failing open/write/close position (error and short write) of each write, every overwrite setting and kind of target, followed by a retry",
 "Tests never make the file system fail.",
 ["src/iges/iges.cpp", "src/entities/iges_entity.cpp"],
 [("Write stream-state checks and existence test", "src/iges/iges.cpp Write")],
 observe=["return value", "file content", "second write"])

prop("C05", "Entity references stay consistent under every editing sequence",
 "After any sequence of creating, linking, relinking, unlinking and deleting entities, no entity refers to a destroyed entity, each parent-to-child link is known to the child exactly as long as it exists, and each accessor returns exactly what the accepted sequence of operations implies. A rejected operation changes nothing, and deleting one entity never destroys or corrupts another.",
 ["histories"], "every sequence of link/unlink/delete operations up to a depth over small populations of each entity family, with attribute links included",
 "Tests link entities once in one order and tear the whole model down.",
 ["src/entities/*.cpp", "src/iges/iges.cpp"],
 [("back-reference lists", "src/entities/iges_entity.cpp addReference/delReference"), ("unlink overrides", "src/entities/entity*.cpp unlink"), ("DelEntity/UnlinkEntity", "src/iges/iges.cpp")],
 [("refs", "parents of an entity", "src/include/core/iges_entity.h")], ["accessors", "reference counts", "sanitizer reports"])

prop("C06", "API handles become invalid, never dangling, when their object goes away",
 "A handle of the public wrapper layer reports itself valid exactly while it is attached to an object that still exists; every call through a handle whose object has been destroyed, directly or through its owner, fails cleanly without touching freed memory. Ownership moves exactly once: destroying handles and models in any order neither leaks into another model nor frees twice.",
 ["histories"], "every sequence up to a depth of create, attach, detach, link, delete, clear and destroy operations over several handles and two models",
 "Tests create handles in one order and let scope exit destroy them.",
 ["src/dllapi/*.cpp", "src/entities/iges_entity.cpp", "src/iges/iges.cpp"],
 [("validity flags", "AttachValidFlag/DetachValidFlag"), ("wrapper destructors", "src/dllapi/*.cpp")],
 observe=["IsValid", "call results", "sanitizer reports"])

prop("C07", "Culling removes the orphans and nothing else",
 "Culling removes exactly the orphans, repeating until none is left: entities which no remaining entity refers to and which are dependent (physically, logically or both) or support data (transforms, colours, vertex and edge lists, loops, faces), and entities which lack the entities that their definition needs. Every other independent entity and everything it refers to survives unchanged and in order; in the aggressive mode only subfigure instances and what they reach survive. Writing culls in the same way.",
 ["histories", "inputs"], "every small reference graph over the entity families with every dependency flag, and both modes, including repeated culls",
 "No test looks at which entities a cull removes except through one sample.",
 ["src/iges/iges.cpp", "src/entities/iges_entity.cpp", "src/entities/entity*.cpp"],
 [("Cull", "src/iges/iges.cpp Cull"), ("isOrphaned", "src/entities/*.cpp")], observe=["entity list after Cull"])

prop("C08", "Changing units or model scale preserves the physical geometry",
 "After converting a model to any other units every length-valued parameter of every entity describes the same physical size as before, every dimensionless or angular parameter is unchanged, and the unit declaration and resolution follow; converting back restores the original values. The same holds for a model-scale change, where lengths are multiplied by exactly the ratio of scales, and for files read in any declared units and scale.",
 ["inputs", "configurations", "histories"], "all unit pairs, several scales, all sequences up to a depth, for every entity type with its length and non-length parameters",
 "Tests use millimetres and inches on a few entities.",
 ["src/iges/iges.cpp", "src/entities/entity*.cpp"],
 [("ConvertUnits/ChangeModelScale", "src/iges/iges.cpp"), ("rescale overrides", "src/entities/entity*.cpp")], observe=["parameters and globals after conversion"])

prop("C09", "Exporting a model as a part transfers everything exactly once",
 "Exporting a model into an assembly moves every entity into the receiving model exactly once and packages its top-level part instances (without any, its top-level trimmed surfaces; without those, its solids) under one new definition whose name is unique in the receiver; lengths are converted to the receiver's units and model scale and line weights to its gradations (rounded down, never to none), so physical size is preserved; the source is left empty, and the combined model can be written, read back and exported again with an equivalent result. A model with nothing to package is left as it was and yields no definition. A refused export (no receiver, the model itself, or externally defined units which differ) changes neither model.",
 ["histories", "inputs"], "all sequences of exports of several small models, with every unit pair and nesting up to a depth",
 "One merge test with two boards in equal units.",
 ["src/iges/iges.cpp", "src/entities/entity308.cpp", "src/entities/entity408.cpp"],
 [("Export", "src/iges/iges.cpp Export"), ("subfigure definition", "src/entities/entity308.cpp")], observe=["entity lists of both models", "written files"])

prop("C10", "Number and string fields survive encoding and decoding exactly",
 "Encoding any integer, any real and any text as a file field and decoding the field gives back the same integer and text, and a real equal within the resolution asked for and within the printed precision, whichever delimiters are used, wherever the field falls in a line, and whatever follows it. The decoder accepts every legal spelling of integers, reals and counted strings, reports defaulted fields as defaulted, and rejects fields that hold no value of the requested kind, or one out of range, without running past the field into what follows.",
 ["inputs"], "all sign/mantissa/exponent classes of reals, all boundary integers, all text lengths across three lines, all legal delimiters, all column offsets",
 "Tests only pass the numbers of a few models through the formatter.",
 ["src/iges/iges_io.cpp"],
 [("parsers and formatters", "src/iges/iges_io.cpp")], observe=["formatted text", "parsed value", "cursor position"])

prop("C11", "Every legal spelling of a file reads as the same model",
 "Reading does not depend on how a file spells its content: explicit or defaulted delimiters, any legal delimiter characters, any legal placement of line breaks and blanks, omitted trailing or defaulted global and parameter fields, alternative real spellings (exponent letters E, D or e) all give the same model and the documented default values. A reader configured by one file does not affect the reading of the next.",
 ["inputs", "configurations"], "all legal delimiter pairs, all line-break positions, all subsets of defaulted global fields, all numeric spellings, on files covering each entity family",
 "Tests read only files in one spelling.",
 ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/entities/*.cpp"],
 [("readGlobals", "src/iges/iges.cpp"), ("field parsers", "src/iges/iges_io.cpp")], observe=["model accessors after Read"])

prop("C12", "Segment intersections are exact",
 "For any two line, arc or circle segments the intersection query reports exactly the true intersection points of the two curves (to the tolerance of the library), with overlap, tangency, containment and identity flagged as such (the last three, and an overlap on two separate edges, without points or with a refusal, as documented), and says there is none only when there is none. The result does not depend on which segment is asked, on the direction the segments are drawn, or on translating both.",
 ["inputs"], "all pairs of lines, arcs and circles on an integer lattice, including all tangent, touching, collinear, concentric and coincident cases",
 "Tests draw a few dozen hand-picked pairs and mostly emit pictures rather than assertions.",
 ["src/geom/mcad_segment.cpp", "src/geom/mcad_helpers.cpp"],
 [("GetIntersections dispatch", "src/geom/mcad_segment.cpp")], observe=["returned points and flags"])

prop("C13", "Adding and subtracting outlines gives the union and the difference",
 "For two closed outlines whose boundaries cross in exactly two points the union outline encloses exactly the points enclosed by either, and the difference exactly the points enclosed by the first and not the second; the result is a closed contiguous boundary made of pieces of the two inputs, also as an operand of the next operation. Outlines without contact, or outside the documented two-point domain (more crossings, shared edges, touching without crossing), are not combined: the call says so and the regions enclosed by both outlines stay what they were.",
 ["inputs", "histories"], "all pairs from a lattice family of polygons, circles and rounded shapes at all relative offsets, both operand orders and all drawing directions, and chains of operations",
 "Tests evaluate a few pairs by eye from output files.",
 ["src/geom/mcad_outline.cpp", "src/geom/mcad_segment.cpp"],
 [("opOutline/trimming", "src/geom/mcad_outline.cpp")], observe=["point membership on a sample grid", "segment list", "return value"])

prop("C14", "Outlines accept exactly contiguous chains and judge insideness right",
 "An outline accepts a segment exactly when it continues the chain (or starts one, or is a lone circle), becomes closed exactly when the last end meets the first start, runs counter-clockwise from then on, and accepts nothing more; for a closed outline, whatever its drawing direction, a point is reported inside exactly when it is. Cutouts are accepted exactly when they satisfy the documented conditions, and rejected calls leave the outline unchanged.",
 ["inputs", "histories"], "all segment sequences up to a depth over a lattice, both directions, all lattice query points and all cutout placements",
 "Tests build correct outlines only.",
 ["src/geom/mcad_outline.cpp"],
 [("AddSegment/IsContiguous/IsClosed/IsInside/AddCutout", "src/geom/mcad_outline.cpp")], observe=["return values", "flags", "IsInside"])

prop("C15", "Segment measurements and splitting agree with the geometry",
 "For every line, arc and circle the reported start, end, centre, radius, angles, midpoint, length, direction and bounding box are those of the curve; invalid definitions are refused and leave the segment undefined. Splitting at points on a curve yields pieces that together retrace it exactly once in order, a refused split changes nothing, and reversing keeps the set of points.",
 ["inputs"], "all lattice lines, arcs of both directions, circles, and all subsets of split points up to a size",
 "Tests check a handful of arcs.",
 ["src/geom/mcad_segment.cpp", "src/geom/mcad_helpers.cpp"],
 [("SetParams/Split/Get*", "src/geom/mcad_segment.cpp")], observe=["accessors and split results"])

prop("C16", "Extruding an outline yields the exact closed shell of the solid",
 "For any valid outline, with cutouts and holes that do not overlap, and any two different top and bottom heights in either order, the generated surfaces are the side walls of every boundary edge, covering each exactly once, and a top and a bottom cap trimmed by exactly those boundaries. In the space and in the parameter representation alike, every wall and trim boundary lies on the outline at the two heights, consecutive pieces join without empty pieces, the two representations run alike, and the faces are oriented consistently (walls and both caps outward); the whole survives a write and read. Requests without a model, without a closed outline, or with heights which are not numbers or not apart fail with the error flag set and leave no surface in the result list or the model.",
 ["inputs"], "all small outlines of lines, arcs and circles, with up to two cutouts, all height signs, both drawing directions",
 "Tests only run the generator on a few boards and save files.",
 ["src/geom/geom_wall.cpp", "src/geom/geom_cylinder.cpp", "src/geom/iges_geom_pcb.cpp", "src/geom/mcad_outline.cpp"],
 [("wall and cylinder builders", "src/geom/geom_wall.cpp, geom_cylinder.cpp"), ("trimmed caps", "src/geom/mcad_outline.cpp, iges_geom_pcb.cpp")], observe=["entities created in the model"])

prop("C17", "Board and component files keep their content through write and read",
 "Any board with its component library that the board layer holds, whether built by calls or read from a file of either supported format version, can be written in either measurement unit and read back with the same outlines, holes, notes, placements, component outlines that placements use, properties, owners and comments, to the printed precision (files are always written in the later format version). A damaged file is rejected with an error, or read as what it says, without memory faults, and a rejected file leaves the board empty; a destination that cannot be written is reported.",
 ["inputs", "crash_points"], "all section kinds and option values singly and in pairs, both units, and all truncations and single-field substitutions of a corpus",
 "Tests convert sample boards once and look for an output file.",
 ["src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_common.cpp", "src/idf/idf_helpers.cpp"],
 [("readers and writers of each section", "src/idf/idf_parser.cpp, idf_outlines.cpp")], observe=["model accessors after read", "return values"])

prop("C18", "Transforms and curve end points obey their algebra",
 "Matrix and vector operations obey the laws of affine maps: composing transforms equals applying them in turn, in any grouping, and chains of transformation entities compose in the documented order (the referenced transform is applied later) and never become circular. Start and end points of every curve kind, with or without its transforms, are the points given by its definition, for B-splines the curve at the ends of its parameter range, polynomial or rational. B-spline curves and surfaces and composite curves accept only consistent definitions, keep exactly what they accepted, stay unchanged when they refuse, and a B-spline curve reports a plane and its normal exactly when its control points determine one.",
 ["inputs"], "all products of lattice rotations, reflections, scalings and translations up to a depth; every curve kind over a lattice of definitions; transform chains up to a depth",
 "Tests check a few circles.",
 ["src/geom/mcad_elements.cpp", "src/entities/entity124.cpp", "src/entities/entity100.cpp", "src/entities/entity104.cpp", "src/entities/entity110.cpp", "src/entities/entity126.cpp"],
 [("matrix algebra", "src/geom/mcad_elements.cpp"), ("GetStartPoint/GetEndPoint", "src/entities/*.cpp")], observe=["returned points"])

prop("C19", "Reading and writing do not depend on or disturb the process locale",
 "Whatever C locale, C++ global locale and thread locale the calling process uses (decimal comma, digit grouping, other case mappings), IGES and IDF files are written with the same bytes and read with the same values, and after every library call, successful or failed, all three locales are what they were before. (The command line programs choose their own locale and are outside this property.)",
 ["configurations", "inputs"], "locales with comma decimals, digit grouping and other case mappings set in the C library, the C++ library and the thread, for each read, write and conversion entry point, on success and on each failure path",
 "Tests run in one locale.",
 ["src/iges/iges.cpp", "src/iges/mcad_utils.cpp", "src/idf/idf_helpers.cpp"],
 [("locale guard objects", "src/iges/iges.cpp, src/idf/idf_helpers.cpp")], observe=["file bytes", "setlocale/localeconv"])

prop("C20", "A model object can be reused: earlier use never shows",
 "Clearing a model, or reading a file into it after any earlier history of successful and failed reads, writes, edits and conversions, leaves it in the same observable state as doing so in a fresh object: same entities, globals, headers and later output, with nothing left from before.",
 ["histories"], "all sequences up to a depth over reading several good and bad files, clearing, building, converting, culling and writing",
 "Tests use each object once.",
 ["src/iges/iges.cpp"],
 [("init/Clear", "src/iges/iges.cpp")], observe=["bytes of a later write", "accessors"])

prop("C21", "Directory attributes behave as independent, validated registers",
 "Each directory attribute of an entity (form, structure, line font, level, view, transform, label association, status flags, line weight, colour, label, subscript) reads back exactly the last accepted assignment, an out-of-range or wrong-kind assignment is refused and changes nothing, and assigning one attribute never changes another. For attributes that can be a number or a reference, the last accepted kind wins and the other is reported as absent.",
 ["histories", "inputs"], "all sequences up to a depth of assignments with valid and invalid values for each attribute on each entity type",
 "Tests set a few attributes once and never read them back.",
 ["src/entities/iges_entity.cpp", "src/entities/entity*.cpp", "src/dllapi/dll_iges_entity.cpp"],
 [("attribute setters/getters", "src/entities/iges_entity.cpp")], observe=["getters of the core and wrapper layers"])

prop("C22", "Path names split, join and change as documented",
 "For every path the full path, file name, base name and extension are those of its last component (the extension follows the last dot that is not its first character), in whatever order and between whatever changes they are asked for; setting an extension replaces exactly the old one or refuses and changes nothing, appending joins with one separator; the existence tests tell directories and regular files from everything else; a model written or read under any file name records exactly that name.",
 ["inputs", "histories"], "all strings up to a length over letters, dots and separators, all sequences of operations up to a depth, all kinds of directory entries",
 "Tests use a few names ending in .igs.",
 ["src/iges/mcad_utils.cpp", "src/iges/iges.cpp"],
 [("MCAD_FILEPATH", "src/iges/mcad_utils.cpp")], observe=["accessors", "file names on disk and in the global section"])


with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
