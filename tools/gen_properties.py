import json
A="palworld_save_tools/archive.py"; G="palworld_save_tools/gvas.py"; S="palworld_save_tools/palsav.py"; T="palworld_save_tools/paltypes.py"; C="palworld_save_tools/commands/convert.py"; R="palworld_save_tools/commands/resave_test.py"; J="palworld_save_tools/json_tools.py"
D="palworld_save_tools/rawdata/"
def raw(*n): return [D+x+".py" for x in n]
ALLRAW=raw("base_camp","base_camp_module","build_process","character","character_container","common","connector","dynamic_item","foliage_model","foliage_model_instance","group","item_container","item_container_slots","map_concrete_model","map_concrete_model_module","map_model","map_object","work","work_collection","worker_director")
P=[]
def p(id,title,st,over,qt,why,files,mech,state=[],observe=[],hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
WF="A save is well-formed if it is written the way the game writes it: ASCII text as NUL-terminated single bytes and any other text as NUL-terminated UTF-16, flags as 0 or 1, each property name once per structure, NaN as the default quiet NaN."
p("C01","SAV to JSON to SAV is bit-for-bit identical for every well-formed save",
 "For every well-formed save, reading the uncompressed payload, exporting it as JSON text, loading that JSON and writing it back yields exactly the original payload bytes, for the header, every property type and nesting, every Palworld-specific structure and variant, and the trailing bytes. "+WF,
 ["inputs"],"all well-formed GVAS payloads: every property type, value, id, nesting, element count and every embedded Palworld structure",
 "The suite round-trips 13 sample files and a handful of blobs; most concrete map object models, work types, group kinds, module kinds, dynamic item kinds, array types and boundary values never occur in them.",
 [A,G,T]+ALLRAW,[("paired reader/writer per type","archive.py FArchiveReader.property / FArchiveWriter.property_inner"),("paired decode/encode per raw structure","rawdata/*.py decode_bytes / encode_bytes")],
 [("document","the parsed GVAS file: header, properties, trailer","gvas.py GvasFile")],["GvasFile.read","GvasFile.dump","GvasFile.load","GvasFile.write"])
p("C02","Generic save data is exported with the values the file actually holds",
 "For every well-formed save, the exported document states exactly what the payload says: the header fields, each property's name, order, type, optional id, and its value (integers by width and signedness, floats, text, enums, structs, arrays, and maps with key and value types taken from the type hints, or from the documented defaults where no hint exists), and the trailing bytes in base64. The shape and key names of the exported document are those of the established JSON format.",
 ["inputs"],"all well-formed payloads made of generic properties, all nestings, all type hints",
 "Tests compare the re-encoded bytes with the input, so a reader and writer that agree on a wrong interpretation pass; only the header of one file is compared field by field.",
 [A,G,T],[("FArchiveReader primitives and property dispatch","archive.py FArchiveReader"),("header parsing","gvas.py GvasHeader.read / dump"),("type hints","paltypes.py PALWORLD_TYPE_HINTS")],
 [("cursor","position in the payload","archive.py FArchiveReader.data")],["GvasFile.read(...).dump()"])
p("C03","Palworld structures are exported with every field decoded correctly",
 "For every raw structure the tool decodes (groups, characters, item and character containers and slots, dynamic items, foliage models and instances, base camps, worker directors, work collections, base camp modules, work and work assignments, and map objects with their model, connector, build process, concrete model and modules), and for every variant of it, each exported field has the established name and exactly the value stored at that field's place in the structure. Which variant is decoded is determined by the accompanying group type, module type, work type or map object name (in any letter case) as established, and the exported property names the path it was decoded by.",
 ["inputs"],"all structures, all variants (including all map object names), all field values and element counts",
 "Tests check three of the twenty structures, by round-trip only, on a few blobs; swapped or misread fields that are swapped back on writing are invisible.",
 [T]+ALLRAW,[("field-by-field decoders","rawdata/*.py decode_bytes"),("variant tables","rawdata/map_concrete_model.py MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS, rawdata/work.py WORK_BASE_TYPES, rawdata/base_camp_module.py NO_OP_TYPES")],
 [],["GvasFile.read(...).dump()"])
p("C04","An edited or hand-written JSON document is encoded exactly as the format demands",
 "For every document in the established JSON format (whether exported, edited, exported by an earlier version with the older work-transform layout, or hand-written, with ids given as text), writing it produces precisely the payload the format prescribes for it: every value in its field, every count, text length and property size recomputed from the current content, nothing else changed. Reading that payload back gives the same document.",
 ["inputs","histories"],"all documents and all sequences of edits to them (values changed, text grown or shrunk, list elements added or removed, variants changed)",
 "Tests only write documents they have just read, so every length, count and size they write was already right in the input and no document was ever edited.",
 [A,G]+ALLRAW,[("two-pass property writer computing sizes","archive.py FArchiveWriter.property / array_property / struct"),("field-by-field encoders","rawdata/*.py encode_bytes")],
 [("document","JSON document handed to the writer","gvas.py GvasFile.load")],["GvasFile.load(...).write(...)"])
p("C05","Data the tool does not understand is carried through verbatim",
 "Where the tool meets embedded data of a kind it does not know (map objects not in its table, map objects whose concrete model has no decoder, base camp modules of unknown type or whose content does not parse, work of unknown type, unknown work transform types, dynamic items that are neither egg, armor nor weapon, and empty raw structures), the conversion still succeeds, the rest of the save is decoded as usual, the unknown bytes appear verbatim in the export, and converting back reproduces them exactly. Warnings about it never stop the conversion, whatever its names contain and whatever standard output can represent.",
 ["inputs"],"all unknown kinds at each of the places where the tool falls back to raw bytes, all byte contents, alone and mixed with known ones",
 "The sample saves contain almost no unknown data, so the fallbacks and the matching re-encoding are never executed by the tests.",
 raw("base_camp_module","character_container","connector","dynamic_item","item_container","item_container_slots","map_concrete_model","map_concrete_model_module","map_object","work","group"),
 [("raw 'values' fallback and its pass-through on encode","rawdata/base_camp_module.py, rawdata/map_concrete_model.py, rawdata/work.py, rawdata/map_object.py"),("trailer fallback","rawdata/dynamic_item.py")],[],["GvasFile.read","GvasFile.write"])
p("C06","Truncated, over-long or foreign data is refused, never silently altered",
 "If a well-formed payload is cut short anywhere, or an embedded raw structure is cut short or extended by extra bytes (with the declared lengths adjusted), then conversion either fails with an error or keeps every byte, so that converting back reproduces the damaged input exactly; it never yields a document that encodes to something else. A payload with a wrong file tag, save game version or custom version format, or containing a property, array or map type the tool does not support, is refused with an error.",
 ["inputs","fault_sequences"],"all cut points and extensions of the payload and of each embedded structure, all wrong header fields and unsupported types",
 "No test feeds damaged data to the reader.",
 [A,G]+ALLRAW,[("end-of-data checks after each structure","rawdata/*.py 'EOF not reached'"),("short-read detection","archive.py FArchiveReader"),("header checks","gvas.py GvasHeader.read")],[],["GvasFile.read","GvasFile.write"])
p("C07","The SAV container stores and returns the payload unchanged",
 "For every payload and both supported save types, compressing and then decompressing returns the same payload and the same save type. The container written has the established layout: payload length, length of the once-compressed data, the magic bytes, the save type, then the payload compressed once (0x31) or twice (0x32); containers with the additional chunk header are read equally.",
 ["inputs"],"all payloads of any size and content, both save types, with and without the chunk header",
 "Tests read 13 fixed containers; they never inspect the written header or compare save types after writing.",
 [S],[("header fields and single/double zlib","palsav.py compress_gvas_to_sav / decompress_sav_to_gvas")],[],["compress_gvas_to_sav","decompress_sav_to_gvas"])
p("C08","A damaged or foreign SAV container is refused",
 "Decompression returns a payload only if the container's magic bytes are right, its save type is one of the two supported ones, the declared compressed length and the declared payload length both match the actual data, and the compressed data is intact; in every other case it fails with an error and returns nothing.",
 ["inputs","fault_sequences"],"all headers (each field right or wrong, with or without the chunk header), truncations and corruptions of the container",
 "No test feeds a malformed container.",
 [S],[("magic, type and length checks","palsav.py decompress_sav_to_gvas")],[],["decompress_sav_to_gvas"])
p("C09","Choosing which structures to decode never changes what is written back",
 "For every subset of the known structure paths, exporting with only that subset decoded leaves the unselected structures as their raw bytes, decodes the selected ones exactly as a full decode would, leaves everything else the same, and converting any such export back yields the same payload. The word 'all' and the default select every known path; unknown names select nothing.",
 ["inputs","configurations"],"all subsets of the selectable paths, all saves",
 "Tests always decode everything; the option and the raw pass-through of unselected structures are never exercised.",
 [C,T,A],[("custom property lookup by path","archive.py FArchiveReader.property"),("selection filter","commands/convert.py convert_sav_to_json")],[],["convert_sav_to_json","GvasFile.read"])
p("C10","Non-finite numbers are kept, or all turned into null on request",
 "By default NaN, infinity and negative infinity anywhere in a save survive the conversion to JSON and back. With the null option, every non-finite float anywhere in the save, including inside every embedded structure, is exported as null and nothing else is, the JSON is strictly valid, all other values are unaffected, and converting back succeeds, writing NaN for each null and everything else unchanged.",
 ["inputs","configurations"],"all placements of NaN/+Inf/-Inf in single and double precision fields, generic and embedded, with and without the option",
 "No sample save contains a non-finite number and no test uses the option.",
 [A,C,G]+raw("foliage_model_instance"),[("allow_nan propagated to nested readers","archive.py FArchiveReader.float / double / internal_copy"),("null written as NaN","archive.py FArchiveWriter.float / double")],
 [("allow_nan","reader mode","archive.py FArchiveReader")],["GvasFile.read","convert_sav_to_json"])
p("C11","Text survives exactly, whatever its characters and length",
 "Every text value (empty, ASCII, accented, CJK, emoji outside the basic plane, unpaired surrogates, embedded NUL or control characters, any length) anywhere in a save is exported as the same sequence of characters and written back as the same bytes. Text is written as length-prefixed NUL-terminated single bytes when all characters are ASCII, otherwise as UTF-16 with a negative length counted in 16-bit units including the terminator, and empty text as length zero.",
 ["inputs"],"all strings over 16-bit code units, in every kind of text field, through JSON text files",
 "Samples contain a few unicode names only; lengths in code units vs. characters differ only for non-BMP text, and unpaired surrogates take an error path.",
 [A,C],[("encoding choice and length computation","archive.py FArchiveReader.fstring / FArchiveWriter.fstring")],[],["GvasFile.read","GvasFile.write","FArchiveReader.fstring","FArchiveWriter.fstring"])
p("C12","Identifiers mean the same in every representation",
 "An identifier's 16 stored bytes, its text form, the equivalent standard UUID and its exported JSON text all denote one another consistently, in both directions, whatever order and however often they are asked for; it equals exactly those identifiers, UUIDs and lower-case texts that denote the same value, and equal identifiers have equal hashes. Writing an identifier from any of these representations stores the same 16 bytes, and both implementations of the identifier type behave alike.",
 ["inputs","histories","configurations"],"all 16-byte values, all sequences of conversions/comparisons, both implementations (with and without the optional accelerator)",
 "Tests use one UUID value, with fresh objects, and do not check from-text against to-text byte order, standard-UUID conversion, caching, or JSON.",
 [A,J],[("byte permutation and cached forms","archive.py UUID (two variants), uuid_writer"),("JSON encoder","json_tools.py CustomEncoder")],
 [("parsed_str/parsed_uuid","lazily cached forms","archive.py UUID")],["UUID","FArchiveWriter.guid","CustomEncoder"])
p("C13","Saving is repeatable and documents do not influence each other",
 "Writing the same loaded document several times, or reading, exporting and writing several documents in any order or interleaving in one process (also each in a thread of its own), always gives each document the output it would give alone: a second write equals the first, a document can still be exported after it was written and that export converts to the same payload, and no operation changes the shared tables or the outcome of a later one.",
 ["histories","schedules"],"all sequences and interleavings of read/export/load/write (with any decode selection) over several documents, and all ways two threads can take turns in the middle of them",
 "Every test reads and writes one document once.",
 [G,A,T]+ALLRAW,[("encoders replace decoded data in place","rawdata/*.py encode"),("default arguments and shared tables","archive.py, gvas.py, paltypes.py")],
 [("properties","live document tree shared between dump and write","gvas.py GvasFile.properties")],["GvasFile.read","GvasFile.dump","GvasFile.write"])
p("C14","The converter never damages files it was not allowed to write",
 "An existing output file is overwritten only with --force or after the user answers yes (y or Y) to the prompt; any other outcome (answering no, ending the input, a missing or invalid input file, contradictory options) leaves every existing file byte-for-byte as it was and creates no new file. The input file is never modified unless the user names it as the output, and a run writes nothing but its one output file.",
 ["inputs","histories","fault_sequences"],"all option combinations, file states, input contents (valid, damaged, wrong kind), prompt dialogues and sequences of runs",
 "Tests run the converter only on valid files with no existing output and no options.",
 [C],[("existence check, prompt and late opening of the output","commands/convert.py convert_sav_to_json / convert_json_to_sav / confirm_prompt")],
 [("filesystem","input, output and bystander files","working directory")],["python -m palworld_save_tools.commands.convert"])
p("C15","The converter converts in the requested direction to the right file",
 "A .sav file is converted to JSON and a .json file to SAV unless --to-json or --from-json forces the direction, in which case the extension is irrelevant; exactly one conversion is done. The output goes to --output if given, otherwise to the input name with .json added, or with only its final .json extension removed (with .sav added if there is none); minified and indented output hold the same document, the exit status is 0 exactly if the conversion succeeded, and the SAV written uses the double-compressed save type for world and local-world saves and the single-compressed type for all others. This holds for every file name, also one that standard output cannot represent.",
 ["inputs","configurations"],"all option combinations, input names (including names and directories containing '.json'/'.sav' elsewhere), save classes",
 "Tests use the default direction and default output names of plainly named files only.",
 [C],[("direction and output path selection","commands/convert.py main"),("save type by save class","commands/convert.py convert_json_to_sav")],[],["python -m palworld_save_tools.commands.convert","convert_sav_to_json","convert_json_to_sav"])
p("C16","Compact coordinates and rotations are decoded and re-encoded exactly",
 "Every compactly stored position (all component widths from 1 to 63 bits, positive and negative, scaled or not, and the full-precision form, for any scale factor) and every compactly stored rotation (all 16-bit angles, zero angles omitted) decodes to the exact coordinates and angles it denotes, and encoding those values yields the same bytes, using the smallest width that holds all three components.",
 ["inputs"],"all canonical encodings: all widths, signs, boundary magnitudes, 3x65536 angles",
 "Tests cover 16 positions up to 25 bits and five sample blobs; rotation angles and the full-precision form are not covered.",
 [A]+raw("foliage_model_instance"),[("bit-count computation and sign extension","archive.py packed_vector / serializeint / unreal_get_bits_needed"),("angle quantisation","archive.py compressed_short_rotator")],[],["FArchiveReader.packed_vector","FArchiveWriter.packed_vector","GvasFile.read"])
p("C17","Primitive archive operations are exact inverses and keep their position",
 "For every sequence of primitive values written to an archive, reading the same sequence of types back returns the same values, consumes exactly the bytes written and then reports the end of data; peeking at the bytes written so far, skipping, reading raw bytes or reading to the end at any point never disturbs the rest. Values are little-endian with the established widths, and reading a typed value (number, flag, text, identifier, array, vector) past the end raises an error instead of returning a shortened value.",
 ["inputs","histories"],"all sequences of primitive reads and writes of all types, all values",
 "Tests exercise primitives only through whole files; they never interleave peeking, skipping, and end-of-data queries or read past the end.",
 [A],[("FArchiveReader/FArchiveWriter primitives","archive.py")],[("data","in-memory stream and its position","archive.py")],["FArchiveReader","FArchiveWriter"])
p("C18","Both build configurations produce identical results",
 "With and without the optional accelerator (or with the standard-library-only setting), every save is exported to the same JSON text and every document is written to the same bytes, including failures on the same inputs.",
 ["configurations","inputs"],"both configurations, all saves and documents",
 "The suite runs in both configurations but never compares their outputs.",
 [A,J],[("alternative UUID classes","archive.py")],[],["python -m palworld_save_tools.commands.convert"])
p("C19","The resave checker's verdict is truthful",
 "The resave checker reports that files are the same, with exit status 0, exactly when converting the given save to JSON and back reproduces its payload and save type; otherwise it reports a difference or fails with a non-zero status. It never modifies the given save, and it overwrites its own intermediate files only after confirmation.",
 ["inputs","fault_sequences"],"all saves: round-tripping, non-round-tripping, unexpected save type, damaged, with existing intermediate files and any prompt dialogue",
 "The command has no tests.",
 [R,C],[("comparison of both payload and type","commands/resave_test.py main")],[],["python -m palworld_save_tools.commands.resave_test"])
p("C20","The class extraction script resolves every map object to its native class",
 "For every export, the script lists exactly the map objects whose blueprint is present (with its default object, and with its class unless it has a concrete class of its own), each with the native class its concrete model class inherits from, following blueprint inheritance to any depth, taking the concrete class from the object's parent blueprint where it has none itself, and naming the unknown default where the parent has none; an object whose parent is itself a native class, and which has no concrete class of its own, is listed with that parent's name. Names are matched regardless of letter case.",
 ["inputs"],"all blueprint inheritance graphs and data tables (missing blueprints, missing classes, depth, letter case)",
 "The script has no tests.",
 ["scripts/extract_map_object_concrete_classes.py"],[("inheritance walk","scripts/extract_map_object_concrete_classes.py resolve_concrete_class_name / resolve_object_super_concrete_class_name")],[],["scripts/extract_map_object_concrete_classes.py"])
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        jsonschema.validate(x,sch)
        f.write(json.dumps(x)+"\n")
print(len(P), max(len(x['title']) for x in P))
