CHECKS = {}
def reg(id, harness, rule, level="exploration", **kw):
    CHECKS[id] = dict(harness=harness, rule=rule, level=level, **kw)

reg("C10", "c10_fields.cpp",
    "every combination of value class, format option, delimiter pair, column offset and following text is run through the real encoder and decoder; a case is non-trivial when a field was actually encoded or decoded (not refused up front), distinct by its encoded bytes and position",
    assumptions=["finite reals up to 1e290 in magnitude", "printable ASCII text", "legal delimiters per IGES 5.3 2.2.3"])
reg("C01", "c01_roundtrip.cpp",
    "every entity family and option x one variation (attribute, comment, property, unit and scale, delimiters, global text, dropped entities, entity order, magnitude) is written as a legal file by an independent writer, read, written, compared item by item through an independent strict reader, read and written again; non-trivial when a file was produced, distinct by its bytes",
    assumptions=["supported entity types and forms", "unsupported entities are dropped by design"])
reg("C11", "c11_spelling.cpp",
    "every entity family x every spelling variation (real and integer spelling x line wrapping; line ends, explicit delimiters, blank and zero fill, explicit counts; every subset pair of defaulted global fields with and without cutting the record; legal delimiter pairs; every subset of defaultable parameters; every item of a record at every column; after another file) is read and what is written is compared with the model and with the plain spelling; non-trivial when a file was read, distinct by its bytes",
    assumptions=["spellings legal under IGES 5.3 fixed format", "parameters default only where the library documents a default"])
reg("C02", "c02_wellformed.cpp",
    "models built through the public interface (solids, which have none, by reading): every family and option x aspect; every combination of number widths in a record; every string length x pattern x position in parameter data, global section, start section and comments; models of 1 to 5000 (thorough 50000) entities; each written file is decoded by a strict independent reader and compared item by item; non-trivial when a file was written, distinct by its bytes",
    assumptions=["printable ASCII text", "supported entity types"])
reg("C03", "c03_damage.cpp",
    "every truncation, line deletion/duplication/blanking/exchange, directory field, parameter, global item, pointer target, byte and entity-type substitution from a hostile value set, over a corpus of every entity family, read under AddressSanitizer/UBSan, then used (cull, rescale, write, re-read) or cleared and reused; non-trivial when the damaged file was read, distinct by its bytes",
    assumptions=["one damage per file (thorough: two redirected pointers)", "undefined behaviour is what ASan/UBSan report"])
reg("C08", "c08_units.cpp",
    "every entity family, read from a file or built through the interface, in each of the 11 units and several scales, followed by every sequence of unit and scale changes (valid and invalid arguments) up to the depth; after every step the model is written and decoded independently: each length must be the original times the exact factor, everything else unchanged; non-trivial when a sequence ran to its end, distinct by model, history result",
    level="model_checking", assumptions=["curves in the parameter space of a surface are dimensionless", "the global maximum line width is not a parameter of an entity"])
reg("C09", "c09_export.cpp",
    "one or two exports of every entity family (read, built) over all unit pairs, scales, line-weight gradations, file names, existing content of the receiver, kinds of instance, and every way to refuse an export; and every sequence up to the depth of 22 operations (exports between five models, instances, conversions, writing and reading back); after every step each entity is in exactly one model and all globals are as expected, and at the end each model is written, decoded independently and compared with a reference which converted every length exactly, read back, exported again and compared again; non-trivial when the history ran to its end, distinct by its final content or history",
    level="model_checking", extra=["-fno-access-control"], assumptions=["only top-level subfigure instances, else top-level trimmed surfaces, else solids are packaged, as documented", "definitions without an instance are given one before a model is written (otherwise they are culled)"])
reg("C20", "c20_reuse.cpp",
    "every sequence up to the depth of 25 operations (reading good, damaged and missing files; writing; unit and scale changes; building; direct changes of the globals; culling; clearing; exporting from and into) on one object, ended by clearing, clearing and reading, clearing and building, or reading into the emptied object; globals, headers and written bytes must equal those of a fresh object, and a second object must not be affected; non-trivial when the history ran to its end, distinct by history and ending",
    level="model_checking", assumptions=["the observable state is the globals, the header lines, the unit name and the written file"])
reg("C21", "c21_attributes.cpp",
    "on an entity of each of the 24 types every sequence of 2 (3 for references; thorough: 3) assignments of form, font, level, colour, weight, visibility, dependency, use, hierarchy, subscript, label, transform, view, label association, structure (legal, boundary, out of range, wrong kind, none) and deletions of referenced entities, compared after every step with a register model of all attributes; non-trivial when a sequence ran to its end, distinct by type and sequence",
    level="model_checking", assumptions=["attributes which the documentation of a type declares ignored or fixed keep their value, whatever the setter returns", "a line weight above the model's maximum is limited to it, as documented"])
reg("C05", "c05_refs.cpp",
    "over a population of 8 to 12 entities of each of 14 families every sequence of 3 (thorough: 4) operations out of every setter, adder and remover x every candidate (right and wrong kind, none, itself, another parent), attribute links, optional entities and deletions, compared after every step - every reference accessor of every entity, and which entities exist - with a reference model of the links, then torn down in 5 ways, one of which culls everything that is not known to have a parent; non-trivial when a sequence ran to its end, distinct by history",
    level="model_checking", assumptions=["operations within one model", "documented cascades: an interior curve of a Composite Curve or an operand of a Boolean Tree takes the others along, a row of a list goes with any of its members"])
reg("C07", "c07_cull.cpp",
    "models of 28 families (every option), read from a file in both orders or built through the interface, after every one or two changes out of deleting any entity and giving any entity any dependency, are culled in four ways (once, without regard to independence, twice, by writing); what exists afterwards, what it refers to and what the file contains must be what a fixpoint computation on an independent description leaves; non-trivial when a case ran to its end, distinct by model and history",
    level="model_checking", assumptions=["an entity is an orphan when no entity refers to it and it is dependent or support data, or when it lacks the entities its definition needs"])
reg("C04", "c04_write.cpp",
    "7 models of different section sizes x 10 kinds of target x both overwrite settings x both interfaces x every fault (3 kinds at each open, 7 at each write - errors, interruptions, short writes -, 2 at each close) at every position and every pair (thorough: triple) of positions; every history of 3 (thorough 4) writes with a fault each; refusals for invalid parameters, empty models, missing names; after each write the result, the target and the model are judged and a later undisturbed write must give the complete file; non-trivial when a write was attempted, distinct by model, target and faults",
    assumptions=["faults at the C library calls used by the stream layer (fopen, write, writev, fclose)", "one writer"])
reg("C06", "c06_handles.cpp",
    "every method of every wrapper class (267) on handles in 11 states (never attached, detached, deleted through this or another handle, by the model, by clearing or destroying it, directly) and every pair of methods before the object goes; every history of 3 (thorough 4) operations out of creating, renewing, attaching, detaching, moving, linking, unlinking, deleting, clearing, culling and destroying over 4 handles of 6 families, their entities and two models; the same for segment and outline handles; whether an object exists is read from AddressSanitizer's shadow memory and compared with a reference model of ownership; non-trivial when a case ran to its end, distinct by state, methods or history",
    level="model_checking", assumptions=["handles are not copied", "a segment or outline dies with the handle it was not detached from, as documented", "setting the parameters of a segment through an empty handle creates a segment"])
reg("C12", "c12_intersections.cpp",
    "every pair of lines, arcs (both directions) and circles whose defining points lie on a 4 x 4 (thorough 5 x 5) lattice, and on 3 x 3 lattices scaled by 0.1, scaled by 100 and turned by a 3-4-5 angle: result, points and flag against exact plane geometry, asked both ways, through the wrapper, at three translations, and in every direction of drawing; each case is non-trivial, distinct by the pair",
    assumptions=["coordinates up to 1e3 in the translated cases", "a contact at a shared end point may be flagged as such or as a tangency", "arcs with both end points in common are flagged inside/outside instead of end point", "circles touching from inside count as contained"])
reg("C15", "c15_segments.cpp",
    "definitions: every (start, end) and (centre, start, end) on a 4 x 4 lattice, with non-planar and slightly unequal radii, over every earlier state of the segment; measurements: every line, arc and circle of a 5 x 5 (thorough 6 x 6) lattice under six similarity maps, as drawn and reversed; splitting: every curve of a 3 x 3 (thorough 4 x 4) lattice under these maps at every ordered choice of up to three of seven points on and off the curve, and again on every piece, reversed or not; all accessors, directly and through the handle, against exact geometry",
    extra=["-fno-access-control"], assumptions=["radii up to about 600 and coordinates up to about 1e3", "the same split point given twice may be refused or taken once"])
reg("C14", "c14_outlines.cpp",
    "chains: every sequence of up to 4 (thorough 5) offers from all lines and arcs of a 2 x 2 lattice, a circle, a null, an undefined and two slightly misplaced segments; insideness: every simple closed chain of up to 4 (thorough 5) lines and arcs of a 3 x 3 lattice, longer ones of lines and unit arcs, and circles, in both directions, two starting segments and five similarity maps, against the winding number at 289 grid points and points level with extremes; cutouts: every sequence of up to 3 (thorough 4) cutouts of 11 kinds, checked or not, on four outlines",
    extra=["-fno-access-control"], assumptions=["points between 1e-8 and 1e-6 from an outline are not judged", "a checked cutout over an existing one is left to C13"])
reg("C13", "c13_booleans.cpp",
    "pairs: every pair of simple closed chains of up to 4 lines and arcs of a 2 x 2 lattice and circles (both directions, two sizes; thorough three) at 11 (thorough 83) relative offsets (in the quick tier the second chain has up to 3 segments), union and difference, circles also as bare segments, two starting segments; chains: every sequence of two (thorough three) operations on nine shapes (slot, ring quarter, notched, L, ...) at eight offsets, both directions; results against exact regions at grid points and on every boundary piece, refusals against the unchanged regions",
    extra=["-fno-access-control"], assumptions=["outlines which are tangent somewhere, or touch in two points without crossing, may be refused or combined correctly", "a refused operation may leave segments divided as long as the boundaries are the same"])
reg("C22", "c22_paths.cpp",
    "paths: every string of up to 5 (thorough 6) letters over letter, dot, slash and backslash, with every sequence of 2 (thorough 3) of 25 operations (setting the extension, appending, setting, and the four accessors in any order); status: 12 kinds of directory entries in three spellings; files: every name of up to 4 (thorough 5) letters over two letters, dot and blank in 8 directories, new and existing, written and read back",
    extra=["-fno-access-control"], level="model_checking", assumptions=["POSIX path separator; names given to Write and Read hold no backslash, which the path class converts as documented"])
reg("C17", "c17_idf.cpp",
    "files: every section kind with ten outline shapes, both windings, every owner, layer, height and comment list; every hole, note, placement and library variant; a full board in 17 spellings; versions 2 and 3, all units: read, compared through the accessors, written in both units, parsed by an independent reader, read back; edits: every sequence of up to 3 (thorough 4) of 13 API calls; damage: every line truncated, deleted, doubled, swapped or commented and every token replaced by or preceded by 19 values; destinations that cannot be written",
    assumptions=["version 2 files are written as version 3", "placements whose outline is missing and not substituted are not written"])
reg("C18", "c18_curves.cpp",
    "every product of 3 (thorough 4) of 14 affine maps, grouped both ways and in place, on 6 points; every sum, difference and multiple of matrices, maps and points; every curve kind under every chain of up to 3 (thorough 4) transforms, also through a file; every sequence of 3 (thorough 4) of 20 steps attaching, detaching and changing transforms; arcs, conics and lines over lattices; all 4096 conics with coefficients -1..2; B-splines of order 2-4 (thorough 2-6) over knot, point, weight and range families; redefinition with 17 flaws; surfaces with 21 flaws; every composite of up to 4 (thorough 5) of 9 segments",
    extra=["-fno-access-control"],
    assumptions=["the span asked for lies where all basis functions of the spline are defined", "points agree to 1e-9 relative"])
reg("C19", "c19_locale.cpp",
    "146 operations (building and writing every entity family, reading and writing each of them at two magnitudes, 12 damaged files, refused reads and writes, unit and scale changes, export, generated names, headers, nine spellings of IDF boards, damaged and built boards, extrusion of an outline) under every combination of 9 C locales, 6 C++ global locales and 3 thread locales; every ordered pair of operations of a reduced set without leaving the locale; reading under one combination and writing under another",
    extra=["-fno-access-control"],
    assumptions=["the command line programs, which choose their locale themselves, are outside the property", "locales are compiled from the sources installed with the C library (localedef); where that is impossible only C++ locales with custom punctuation are enumerated, and the evidence says so"])
reg("C16", "c16_extrude.cpp",
    "chains: every simple closed chain of up to 3 (thorough 4) lines and arcs of a 2 x 2 lattice, in both directions, at 2 (thorough 4) places; arcs: from each of 24 directions through each of 23 angles, closed in three ways, in both directions, with ends misplaced by up to 1e-6 about the directions where arcs are divided; boards: seven outlines, nine sets of holes and nine of cutouts, both directions of each, six pairs of heights, with and without overlap checks (two over the edge); refusals: six outlines by eight requests by three calls by two receivers",
    variant="opt", extra=["-fno-access-control"], assumptions=["outlines merged by a cutout over the edge are taken as the merged outline reports them (C13 judges it)"])
NOT_APPLICABLE = {}
